// R01 equal work gives equal results; R02 finished work leaves nothing open or allocated
#include "pipe.hpp"
#include <bland/ops/ops_frequency.hpp>
#include <dirent.h>
#include <malloc.h>
#include <sys/wait.h>
#include <thread>
using namespace pl;

namespace {
using Work = std::function<std::string()>;
struct Job { std::string desc; Work work; std::vector<std::string> inputs; bool refuses = false; };

std::string outcome(const Work &w) {
    std::string o;
    try { o = w(); }
    catch (const std::exception &e) { o = std::string("refused: ") + e.what(); }
    catch (const H5::Exception &e) { o = "refused: H5"; }
    return o;
}
std::vector<float> rnd(Rng &r, int64_t n) { std::vector<float> v(n); for (auto &x : v) x = (float)r.uni(0.5, 40); return v; }

Job files_job(H &h, const std::string &tag) {
    Rng &r = h.rng;
    int64_t T = r.pick({4, 8, 8, 5, 6}), fpc = r.pick({16, 32, 48}), nc = r.range(1, 3);
    auto resp = put_response(h, r, fpc);
    Job j;
    KV a;
    a["kind"] = r.pick({std::string("scan"), std::string("scan"), std::string("cc"), std::string("obs"), std::string("cad")});
    auto p = make_file(h, tag + ".h5", T, fpc, nc);
    j.inputs = {p, resp};
    a["files"] = a["kind"] == "scan" || a["kind"] == "cc" ? p : a["kind"] == "obs" ? p + "|" + p : p + ";" + p + "|" + p;
    a["index"] = cat(r.range(0, nc - 1));
    a["fpc"]   = cat(fpc);
    a["ops"]   = rand_ops(r, nc, a["kind"], resp);
    a["want"]  = a["ops"].find("drift") != std::string::npos ? "p" : "";
    std::string save, evsave;
    bool hits = a["ops"].find("search") != std::string::npos;
    if (a["kind"] == "scan" && hits && r.chance(0.6)) a["save"] = save = h.scratch + "/" + tag + ".capnp";
    if (a["kind"] == "cad") { a["events"] = "1"; if (hits && r.chance(0.5)) a["evsave"] = evsave = h.scratch + "/" + tag + ".events"; }
    j.desc = cat(a["kind"], " T ", T, " fpc ", fpc, " nc ", nc, " ", a["ops"], save.empty() ? "" : " saved", evsave.empty() ? "" : " events saved");
    j.work = [a, save, evsave]() mutable {
        auto o = pipe(a);
        if (!save.empty()) {
            auto s = read_scan_hits_from_capnp_file(save);
            o += hexof(slurp(save).data(), slurp(save).size()) + J(s.hits());
            unlink(save.c_str());
        }
        if (!evsave.empty()) { auto b = slurp(evsave); o += hexof(b.data(), b.size()); unlink(evsave.c_str()); }
        return o;
    };
    return j;
}
Job arrays_job(H &h, const std::string &) {
    Rng &r = h.rng;
    int64_t rows = r.range(1, 12), cols = r.range(1, 60);
    auto own = rnd(r, rows * cols), other = rnd(r, rows * cols);
    std::vector<uint8_t> mv(rows * cols);
    for (auto &x : mv) x = r.chance(0.3);
    mv[0] = 0;
    std::vector<int> seq;
    for (int k = 0, m = (int)r.range(1, 10); k < m; ++k) seq.push_back((int)r.range(0, 19));
    int64_t st = r.range(1, 3);
    Job j;
    j.desc = cat("arrays ", rows, "x", cols, " step ", st, " ", vec(seq));
    j.work = [=] {
        bland::ndarray a = f32({rows, cols}, own), b = f32({rows, cols}, other), mask = u8({rows, cols}, mv);
        std::string o;
        for (int s : seq) {
            bland::ndarray sl = bland::copy(bland::slice(b, bland::slice_spec{1, 0, cols, st}));
            switch (s) {
            case 0: a = a + b; break;
            case 1: a = a * 0.5f; break;
            case 2: o += J(bland::mean(b, {1})) + J(bland::var(b, {0})); break;
            case 3: { auto p = bland::masked_mean_stddev(b, mask, {}); o += J(p.first) + J(p.second); break; }
            case 4: o += J(bland::sum(a, {0})); break;
            case 5: o += J(b > 12.0f) + cat(bland::count_true(b > 20.0f)); break;
            case 6: a = a - b; break;
            case 7: a = a / b; break;
            case 8: o += J(bland::max(a, {0})); break;
            case 9: o += J(sl); break;
            case 10: o += cat(g17(bland::median(b))); break;
            case 11: if (rows * cols > 1) o += J(bland::standardized_moment(b, 4)); break;
            case 12: o += J(bland::square(b)) + J(bland::arange(0.0f, 9.0f, 1.0f)); break;
            case 13: o += J(bland::stddev(sl)) + J(bland::mean(sl, {0})); break;
            case 14: o += J(bland::zeros({rows, cols})) + J(bland::ones({cols})) + J(bland::linspace(0.0f, 5.0f, (size_t)cols)); break;
            case 15: o += J(bland::fft_shift_mag_square(bland::sum(b, {0}))); break;
            case 16: { bland::ndarray x = bland::copy(b); bland::fill(x, 3.0f); o += J(x); break; }
            case 17: o += J(bland::sqrt(b)) + J(bland::abs(a)); break;
            case 18: o += J(bland::masked_mean(b, mask)) + J(bland::masked_stddev(b, mask)); break;
            default: o += J(b == a) + J(b <= a); break;
            }
        }
        return o + J(a);
    };
    return j;
}
Job estimators_job(H &h, const std::string &) {
    Rng &r = h.rng;
    int taps = (int)r.range(1, 60), k = (int)r.range(0, 5);
    float fc = (float)r.pick({0.1, 0.25, 0.5});
    std::string w = r.pick({std::string("hamming"), std::string("hann"), std::string("rectangular"), std::string("other")});
    int64_t T = r.range(4, 12), N = r.range(8, 64);
    std::vector<float> v(T * N);
    for (auto &x : v) x = (float)std::max(0.5, 100 + 10 * r.normal());
    int coarse = (int)r.pick({2, 4, 8}), fine = (int)r.pick({8, 16, 32}), tpc = (int)r.range(1, 8);
    Job j;
    j.desc = cat("estimator ", k, " taps ", taps, " ", w, " cutoff ", fc, " ", T, "x", N, " response ", coarse, "/", tpc, "/", fine);
    j.work = [=]() -> std::string {
        if (k == 0) return J(firdes(taps, fc, w));
        if (k == 5) return J(gen_coarse_channel_response(fine, coarse, tpc, w));
        bland::ndarray x = f32({T, N}, v);
        if (k == 1) return J(flag_sigmaclip(x, 3, 3.0f, 3.0f));
        if (k == 2) return J(estimate_noise_power(x, noise_power_estimate_options{.estimator_method = noise_power_estimator::STDDEV, .masked_estimate = false}));
        if (k == 3) return J(flag_magnitude(x, 110.0f));
        return J(estimate_spectral_kurtosis(x, 7, (int32_t)T, 2.0f));
    };
    return j;
}
Job results_job(H &h, const std::string &tag) {
    Rng &r = h.rng;
    uint64_t seed = r.next();
    int64_t cnt = r.range(0, 30);
    int kind = (int)r.range(0, 2);
    std::string p = h.scratch + "/" + tag + (kind == 1 ? ".dat" : ".capnp");
    Job j;
    j.desc = cat("results kind ", kind, " hits ", cnt);
    j.work = [=]() -> std::string {
        Rng rr(seed);
        auto l = rand_hits(rr, cnt, 0);
        std::string o;
        if (kind == 1) {
            for (auto &x : l) if (!std::isfinite(x.power)) x.power = 1;
            Meta m = rand_meta(rr);
            std::map<int, CC> ccs{{0, std::make_shared<coarse_channel>(meta_cc(rr, m, 0, l, false))}};
            write_scan_hits_to_dat_file(scan(ccs), p);
            o = slurp(p);
        } else if (kind == 0) {
            write_hits_to_capnp_file(l, p);
            auto b = slurp(p);
            o = hexof(b.data(), b.size()) + J(read_hits_from_capnp_file(p));
        } else {
            Meta m = rand_meta(rr);
            write_coarse_channel_hits_to_capnp_file(meta_cc(rr, m, 0, l, false), p);
            auto b = slurp(p);
            auto c = read_coarse_channel_hits_from_capnp_file(p);
            o = hexof(b.data(), b.size()) + J(c.hits());
        }
        unlink(p.c_str());
        return o;
    };
    return j;
}
// work that is refused part of the way
Job refused_job(H &h, const std::string &tag) {
    Rng &r = h.rng;
    int64_t T = r.pick({4, 8}), fpc = r.pick({16, 32}), nc = r.range(1, 3);
    Job j;
    j.refuses = true;
    int k = (int)r.range(0, 8);
    std::string p = h.scratch + "/" + tag + ".h5";
    if (k <= 2) {
        Meta m = rand_meta(r);
        auto f = std_fb(T, fpc * nc, m, rnd(r, T * fpc * nc));
        if (k == 0) { // one of the attributes missing or of another kind
            static const std::vector<std::string> names = {"fch1", "foff", "tsamp", "tstart", "source_name", "nchans", "nbits", "DIMENSION_LABELS", "src_raj", "machine_id"};
            auto n = r.pick(names);
            f.erase(n);
            if (r.chance(0.5)) f.set(str(n, {"seven"}));
            j.desc = "file with a bad " + n;
        } else if (k == 1) { f.set(str("DIMENSION_LABELS", {"time", "time", "time"})); j.desc = "file with odd labels"; }
        else j.desc = "file cut short";
        write_fb(p, f);
        if (k == 2) { auto n = file_size(p); if (truncate(p.c_str(), r.range(0, (int64_t)n - 1))) perror("truncate"); }
        j.inputs = {p};
    } else if (k == 3) { spew(p, std::string(r.range(0, 3000), 'x')); j.inputs = {p}; j.desc = "not a filterbank"; }
    else if (k == 4) j.desc = "no file";
    else { p = make_file(h, tag + ".h5", T, fpc, nc); j.inputs = {p}; j.desc = "good file misused"; }
    int how = (int)r.range(0, 7);
    std::string out = h.scratch + "/" + tag + ".capnp";
    j.desc += cat(" (", how, ")");
    j.work = [=]() -> std::string {
        if (k == 5 || k == 6) { // results that cannot be read
            std::string b = "\x01\x02\x03\x04 not a message";
            spew(out, b);
            std::string o;
            o += refused([&] { read_hits_from_capnp_file(out); }) ? "r" : "a";
            o += refused([&] { read_scan_hits_from_capnp_file(out); }) ? "r" : "a";
            o += refused([&] { read_hits_from_capnp_file(out + ".none"); }) ? "r" : "a";
            o += refused([&] { write_hits_to_capnp_file(hits_t{}, out + "/x"); }) ? "r" : "a";
            unlink(out.c_str());
            return o;
        }
        scan s(p, (int)fpc);
        std::string o = J(s, "");
        auto t = [&](const char *n, auto f) { o += cat(n, refused(f) ? " refused " : " done "); };
        switch (how) {
        case 0: t("read", [&] { s.read_coarse_channel((int)nc + 3); }); break;
        case 1: t("slice", [&] { s.slice_scan_channels(nc, 4); }); break;
        case 2: t("masked noise", [&] { // nothing left to estimate from
                auto x = flag_filter_rolloff(s, 0.5f);
                x = estimate_noise_power(x, noise_power_estimate_options{.estimator_method = noise_power_estimator::STDDEV, .masked_estimate = true});
                x.read_coarse_channel(0)->noise_estimate(); }); break;
        case 3: t("search", [&] { auto x = hit_search(s, hit_search_options{}); x.hits(); }); break;
        case 4: t("mad", [&] { auto x = estimate_noise_power(s, noise_power_estimate_options{.estimator_method = noise_power_estimator::MEAN_ABSOLUTE_DEVIATION}); x.read_coarse_channel(0)->noise_estimate(); }); break;
        case 5: t("device", [&] { s.set_device("cuda:0"); s.read_coarse_channel(0)->data(); }); break;
        case 6: t("response", [&] { auto x = equalize_passband_filter(s, h.scratch + "/none.f32"); fvals(x.read_coarse_channel(0)->data()); }); break;
        default: t("shapes", [&] { auto c = s.read_coarse_channel(0); bland::ndarray d = c->data(); auto z = d + bland::zeros({T + 1, fpc + 1}); }); break;
        }
        return o;
    };
    return j;
}
Job any_job(H &h, const std::string &tag, bool maybe_refused = true) {
    double p = h.rng.uni();
    if (p < 0.4) return files_job(h, tag);
    if (p < 0.55) return arrays_job(h, tag);
    if (p < 0.7) return estimators_job(h, tag);
    if (p < 0.85 || !maybe_refused) return results_job(h, tag);
    return refused_job(h, tag);
}
void done(Job &j) { for (auto &p : j.inputs) unlink(p.c_str()); }

// leave a byte in the stack below
__attribute__((noinline)) void soil_stack(int byte) {
    volatile char b[160 * 1024];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)byte;
}
// memory handed out by malloc holds the complement of the byte, memory given back holds the byte
void soil(int byte) { mallopt(M_PERTURB, byte); soil_stack(byte); }

std::string in_child(const Work &w, int byte) {
    int fd[2];
    if (pipe2(fd, O_CLOEXEC)) return "no pipe";
    pid_t pid = fork();
    if (pid < 0) return "no child";
    if (!pid) {
        struct itimerval t {};
        t.it_value.tv_sec = vh::cur()->cpu_limit();
        setitimer(ITIMER_PROF, &t, nullptr);
        if (byte) soil(byte);
        auto o = outcome(w);
        for (size_t i = 0; i < o.size();) { auto n = write(fd[1], o.data() + i, o.size() - i); if (n <= 0) break; i += (size_t)n; }
        _exit(0);
    }
    close(fd[1]);
    std::string o;
    char b[65536];
    for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR);) if (n > 0) o.append(b, (size_t)n);
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) o += cat("<killed by signal ", WTERMSIG(st), ">");
    else if (WEXITSTATUS(st)) o += cat("<exit ", WEXITSTATUS(st), ">");
    return o;
}
std::string first_difference(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return cat("at byte ", i, " of ", a.size(), "/", b.size(), ": ", a.substr(i > 100 ? i - 100 : 0, 200), "  <->  ", b.substr(i > 100 ? i - 100 : 0, 200));
}

void R01(H &h) {
    quiet();
    h.rule = "one piece of work (a pipeline over files with its results written, operations on arrays, estimators, result files, or something refused) done in a fresh process, in one whose memory and "
             "stack were soiled with another byte, after other work in this process, again, and on another thread; every array, mask, hit, event and written file compared byte for byte. Distinct: (work).";
    h.cases("again", 1200, 20000, [&] {
        Rng &r = h.rng;
        mallopt(M_PERTURB, 0);
        Job j = any_job(h, "w"), before = any_job(h, "b");
        h.describe(j.desc + " after " + before.desc);
        int b1 = (int)r.range(1, 255), b2 = (int)r.pick({0x80, 0xff, 0x01, 0x40, 0xc0, 0x3f});
        auto want = in_child(j.work, 0);
        std::vector<std::pair<std::string, std::string>> got;
        got.emplace_back("in memory that held other values", in_child(j.work, b1));
        soil(b2);
        if (r.chance(0.7)) outcome(before.work);
        got.emplace_back("after other work", outcome(j.work));
        if (r.chance(0.5)) { soil(b1); got.emplace_back("again", outcome(j.work)); }
        if (r.chance(0.5)) {
            std::string o;
            std::thread t([&] { quiet(); soil_stack(b1); o = outcome(j.work); });
            t.join();
            got.emplace_back("on another thread", o);
        }
        mallopt(M_PERTURB, 0);
        for (auto &[when, o] : got) { h.check(o == want, "result-differs", [&] { return when + ": " + first_difference(want, o); }); h.count("repetitions"); }
        h.count(want.compare(0, 8, "refused:") ? "results" : "refusals");
        h.count("result_bytes", want.size());
        if (want.size() > 40) h.nontrivial(h.desc);
        done(j); done(before);
    });
}

struct Gauge {
    std::set<std::string> fds, files;
    std::map<std::string, int64_t> ids;
};
int64_t h5n(H5I_type_t t) { hsize_t n = 0; H5Inmembers(t, &n); return (int64_t)n; }
int64_t live() {
    auto m = mallinfo2();
    return (int64_t)(m.uordblks + m.hblkhd);
}
Gauge gauge(const std::string &dir) {
    Gauge g;
    g.ids = {{"file", h5n(H5I_FILE)}, {"group", h5n(H5I_GROUP)}, {"dataset", h5n(H5I_DATASET)}, {"dataspace", h5n(H5I_DATASPACE)}, {"datatype", h5n(H5I_DATATYPE)}, {"attribute", h5n(H5I_ATTR)}, {"property list", h5n(H5I_GENPROP_LST)}};
    for (auto [d, s] : {std::pair<std::string, std::set<std::string> *>{"/proc/self/fd", &g.fds}, {dir, &g.files}})
        if (DIR *x = opendir(d.c_str())) {
            while (auto e = readdir(x)) {
                char t[512];
                ssize_t n = d == dir ? 0 : readlink((d + "/" + e->d_name).c_str(), t, sizeof t - 1);
                std::string to(t, n > 0 ? (size_t)n : 0);
                if (to.compare(0, 5, "/proc") != 0) s->insert(std::string(e->d_name) + (to.empty() ? "" : " -> " + to));
            }
            closedir(x);
        }
    return g;
}
std::string list(const std::set<std::string> &s) { std::string o; for (auto &x : s) o += x + "; "; return o; }

void R02(H &h) {
    quiet();
    h.rule = "one piece of work (as R01) repeated in one process: after it has warmed up, open descriptors, HDF5 identifiers, files in the scratch directory and live heap bytes are read after every round (the heap) or after the last; the first three must not change and the "
             "heap must not go on growing (a suspicion is followed for 500 rounds or more). Distinct: (work).";
    h.cases("rounds", 1000, 20000, [&] {
        Job j = any_job(h, "w");
        h.describe(j.desc);
        for (int i = 0; i < 2; ++i) outcome(j.work);
        Gauge first = gauge(h.scratch);
        int64_t heap[7];
        int n = 0;
        std::string o(200, ' ');
        heap[n++] = live();
        for (int i = 0; i < 6; ++i) {
            { auto x = outcome(j.work); o.assign(x, 0, 100); }
            heap[n++] = live();
            h.counts["rounds"]++;
        }
        Gauge last = gauge(h.scratch);
        auto &a = first, &b = last;
        h.check(a.fds == b.fds, "descriptor-left-open", [&] { return cat("before: ", list(a.fds), " after: ", list(b.fds)); });
        h.check(a.files == b.files, "file-left-behind", [&] { return cat("before: ", list(a.files), " after: ", list(b.files)); });
        for (auto &[k, n] : a.ids) h.check(b.ids[k] <= n, "hdf5-identifier-left-open", [&, k = k, n = n] { return cat(k, ": ", n, " then ", b.ids[k]); });
        // HDF5 keeps what it may use again, up to a bound that is reached slowly: growth counts as a leak only if it goes on and on
        std::string s;
        for (int i = 1; i < n; ++i) s += cat(" ", heap[i] - heap[i - 1]);
        const int64_t least = 16; // the smallest block there is
        if (heap[n - 1] - heap[1] >= least * (n - 2)) {
            h.count("suspicions");
            bool leak = true, decided = false;
            clock_t t0 = clock();
            for (int block = 0; block < 20 && leak; ++block) {
                int64_t was = live();
                int k = 0;
                for (; k < 50 && (clock() - t0) / CLOCKS_PER_SEC < 25; ++k) outcome(j.work);
                if (k < 50) break;
                int64_t d = live() - was;
                s += cat("; ", d, " by 50 more");
                leak    = d >= least * 50;
                decided = block >= 9 || !leak;
            }
            if (!decided) h.count("suspicions_not_settled_in_time");
            h.check(!leak || !decided, "memory-grows", [&] { return cat("live bytes added by each round:", s); });
        }
        h.count(o.compare(0, 8, "refused:") ? "results" : "refusals");
        h.nontrivial(h.desc);
        done(j);
    });
}
} // namespace

int main(int c, char **v) { return vh::run_main(c, v, {{"R01", R01}, {"R02", R02}}); }
