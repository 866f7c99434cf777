// T01: independent work done by several threads at once, under ThreadSanitizer
#include "pipe.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <sched.h>
#include <thread>
using namespace pl;

// the schedule is disturbed from inside the library: every allocation may yield or pause
namespace {
thread_local uint64_t jitter = 0;
thread_local uint32_t yield_one_in = 0;
std::atomic<uint64_t> disturbances{0};
inline void disturb() {
    if (!yield_one_in) return;
    jitter = jitter * 6364136223846793005ULL + 1442695040888963407ULL;
    uint32_t x = (uint32_t)(jitter >> 33);
    if (x % yield_one_in) return;
    disturbances.fetch_add(1, std::memory_order_relaxed);
    if ((x / yield_one_in) % 16) sched_yield();
    else usleep((x >> 8) % 120);
}
} // namespace
void *operator new(size_t n) {
    disturb();
    if (void *p = malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

namespace {
using Work = std::function<std::string()>;
// what each piece of work gives, one thread each, all let go at once; the order in which they finish is recorded
struct Run { std::vector<std::string> results; std::string order; };
Run together(Rng &r, const std::vector<Work> &work) {
    Run run;
    run.results.resize(work.size());
    std::mutex m;
    std::condition_variable cv;
    size_t waiting = 0;
    bool go = false;
    uint32_t y = (uint32_t)r.pick({0, 0, 3, 16, 64, 300});
    std::vector<std::thread> th;
    for (size_t i = 0; i < work.size(); ++i) {
        uint64_t js = r.next();
        int delay = r.chance(0.3) ? (int)r.range(0, 2000) : 0;
        th.emplace_back([&, i, js, delay] {
            {
                std::unique_lock<std::mutex> l(m);
                ++waiting;
                cv.notify_all();
                cv.wait(l, [&] { return go; });
            }
            if (delay) usleep(delay);
            jitter = js;
            yield_one_in = y;
            quiet();
            std::string out;
            try { out = work[i](); }
            catch (const std::exception &e) { out = std::string("refused: ") + e.what(); }
            catch (const H5::Exception &e) { out = "refused: H5"; }
            yield_one_in = 0;
            std::lock_guard<std::mutex> l(m);
            run.results[i] = std::move(out);
            run.order += (char)('a' + i);
        });
    }
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return waiting == work.size(); });
        go = true;
        cv.notify_all();
    }
    for (auto &t : th) t.join();
    return run;
}
std::vector<std::string> one_by_one(const std::vector<Work> &work) {
    std::vector<std::string> res;
    for (auto &w : work) {
        try { res.push_back(w()); }
        catch (const std::exception &e) { res.push_back(std::string("refused: ") + e.what()); }
        catch (const H5::Exception &e) { res.push_back("refused: H5"); }
    }
    return res;
}
std::string first_difference(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return cat("at byte ", i, " of ", a.size(), "/", b.size(), ": ", a.substr(i > 60 ? i - 60 : 0, 160), "  <->  ", b.substr(i > 60 ? i - 60 : 0, 160));
}
// the work done concurrently, several times, and done in turn (before or after) agree
void compare(H &h, const std::string &k, const std::vector<Work> &work, int turn = 0) {
    Rng &r = h.rng;
    std::vector<std::string> want;
    bool first = turn || r.chance(0.5);
    if (!first) want = one_by_one(work);
    std::vector<Run> runs;
    int times = (int)r.range(1, 3);
    for (int i = 0; i < times; ++i) runs.push_back(together(r, work));
    if (first) want = one_by_one(work);
    for (auto &run : runs) {
        for (size_t i = 0; i < work.size(); ++i)
            h.check(run.results[i] == want[i], k + "-result-differs", [&] { return cat("work ", i, " of ", work.size(), " ", first_difference(run.results[i], want[i])); });
        h.nontrivial(h.desc + " finished in order " + run.order);
        h.count("runs");
        h.count("threads", work.size());
    }
    for (auto &w : want) h.count(w.compare(0, 8, "refused:") ? "results" : "refusals");
    h.count("schedule_disturbances", disturbances.exchange(0));
}
void T01(H &h) {
    quiet();
    h.rule = "several threads, each with work of its own, let go at once with random delays and with yields at the allocations inside the library: pipelines over scans, "
             "targets and cadences read from files (with results written), over coarse channels of one scan, operations on arrays of their own or sharing operands that nobody writes, "
             "readers and writers of result files; repeated, and compared byte for byte with the same work done in turn. Distinct: (work, order in which the threads finished).";
    // what a process does only once (the first warning, the first use of a table) is done by all the threads at once
    h.cases("first", 16, 16, [&] {
        Rng &r = h.rng;
        std::vector<Work> work;
        std::vector<std::string> paths;
        for (int i = 0; i < 8; ++i) {
            KV a;
            a["path"] = h.scratch + cat("/a", i, ".h5");
            a["seed"] = cat(r.next());
            a["T"] = "8"; a["fpc"] = "16"; a["nc"] = "1"; a["swapped"] = "1";
            make(a);
            paths.push_back(a["path"]);
            work.push_back([p = paths.back()] {
                scan s(p, 16);
                return md(s) + J(*s.read_coarse_channel(0), "");
            });
        }
        h.describe("eight files opened at once");
        compare(h, "first", work, 1);
        for (auto &p : paths) unlink(p.c_str());
    });
    h.cases("files", 40, 1200, [&] {
        Rng &r = h.rng;
        int64_t T = r.pick({4, 8, 8, 5}), fpc = r.pick({16, 32}), nc = r.range(1, 3);
        int n = (int)r.range(2, 6);
        auto resp = put_response(h, r, fpc);
        std::vector<Work> work;
        std::vector<std::string> paths;
        std::string d;
        bool same_file = r.chance(0.25);
        for (int i = 0; i < n; ++i) {
            KV a;
            a["kind"] = r.pick({std::string("scan"), std::string("scan"), std::string("obs"), std::string("cad")});
            std::string p1 = same_file && i ? paths[0] : make_file(h, cat("f", i, ".h5"), T, fpc, nc);
            paths.push_back(p1);
            a["files"] = a["kind"] == "scan" ? p1 : a["kind"] == "obs" ? p1 + "|" + p1 : p1 + ";" + p1 + "|" + p1;
            a["fpc"]   = cat(fpc);
            a["ops"]   = rand_ops(r, nc, a["kind"], resp);
            a["want"]  = a["ops"].find("drift") != std::string::npos ? "p" : "";
            std::string save;
            if (a["kind"] == "scan" && a["ops"].find("search") != std::string::npos && r.chance(0.6)) a["save"] = save = h.scratch + cat("/out", i, ".capnp");
            if (a["kind"] == "cad") a["events"] = "1";
            d += cat(" [", a["kind"], " ", a["ops"], "]");
            work.push_back([a, save]() mutable {
                auto o = pipe(a);
                if (!save.empty()) {
                    auto s = read_scan_hits_from_capnp_file(save);
                    o += slurp(save) + J(s.hits());
                    unlink(save.c_str());
                }
                return o;
            });
        }
        h.describe(cat("files T ", T, " fpc ", fpc, " nc ", nc, same_file ? " all reading one file" : "", d));
        compare(h, "files", work);
        for (auto &p : paths) unlink(p.c_str());
    });
    h.cases("channels", 60, 2000, [&] {
        Rng &r = h.rng;
        int64_t T = r.pick({4, 8, 8, 5}), fpc = r.pick({16, 32, 64}), nc = r.range(2, 6);
        auto resp = put_response(h, r, fpc);
        auto p = make_file(h, "c.h5", T, fpc, nc);
        std::vector<std::vector<std::string>> ops;
        std::string all = rand_ops(r, nc, "cc", resp), d;
        bool alike = r.chance(0.5), whole = r.chance(0.5);
        for (int64_t i = 0; i < nc; ++i) {
            auto o = alike ? all : rand_ops(r, nc, "cc", resp);
            ops.push_back(o.empty() ? std::vector<std::string>{} : split(o, ','));
            d += " [" + o + "]";
        }
        h.describe(cat("channels T ", T, " fpc ", fpc, whole ? " pipeline of the scan, read by channel" : "", d));
        // each call hands out channels of scans opened afresh; what is in them is read by the threads
        std::vector<Work> work;
        struct Shared { std::vector<CC> ch; std::vector<int> left; std::mutex m; };
        auto fresh = [&, p, fpc, nc, whole]() {
            std::vector<CC> ch;
            scan s(p, (int)fpc);
            if (whole) s = run_ops(s, ops[0]);
            for (int64_t i = 0; i < nc; ++i) ch.push_back(s.read_coarse_channel((int)i));
            return ch;
        };
        auto pool = std::make_shared<std::vector<std::vector<CC>>>();
        for (int k = 0; k < 4; ++k) pool->push_back(fresh()); // at most three runs together and one in turn
        auto used = std::make_shared<std::vector<std::atomic<int>>>(nc);
        for (int64_t i = 0; i < nc; ++i)
            work.push_back([&, i, pool, used, whole] {
                int k = (*used)[i].fetch_add(1);
                coarse_channel c = *(*pool)[k][i];
                (*pool)[k][i] = nullptr;
                if (!whole) c = run_ops(c, ops[i]);
                return J(c, "p");
            });
        compare(h, "channels", work);
        unlink(p.c_str());
    });
    h.cases("arrays", 120, 4000, [&] {
        Rng &r = h.rng;
        int n = (int)r.range(2, 6);
        int64_t rows = r.range(2, 12), cols = r.range(2, 60);
        auto rnd = [&](int64_t k) { std::vector<float> v(k); for (auto &x : v) x = (float)r.uni(0.5, 40); return v; };
        bland::ndarray common = f32({rows, cols}, rnd(rows * cols));
        std::vector<uint8_t> mv(rows * cols);
        for (auto &x : mv) x = r.chance(0.3);
        mv[0] = 0;
        bland::ndarray mask = u8({rows, cols}, mv);
        bool shared = r.chance(0.5);
        std::vector<Work> work;
        std::string d;
        for (int i = 0; i < n; ++i) {
            std::vector<int> seq;
            for (int k = 0, m = (int)r.range(1, 8); k < m; ++k) seq.push_back((int)r.range(0, 12));
            d += " " + vec(seq);
            auto own = rnd(rows * cols);
            work.push_back([=] {
                bland::ndarray a = f32({rows, cols}, own);
                bland::ndarray b = shared ? bland::ndarray(common) : f32({rows, cols}, own);
                std::string o;
                for (int s : seq) {
                    switch (s) {
                    case 0: a = a + b; break;
                    case 1: a = a * 0.5f; break;
                    case 2: o += J(bland::mean(b, {1})); break;
                    case 3: { auto p = bland::masked_mean_stddev(b, mask, {}); o += J(p.first) + J(p.second); break; }
                    case 4: o += J(bland::sum(a, {0})); break;
                    case 5: o += J(b > 12.0f) + cat(bland::count_true(b > 20.0f)); break;
                    case 6: a = a - b; break;
                    case 7: a = a / b; break;
                    case 8: o += J(bland::max(a, {0})); break;
                    case 9: o += J(bland::copy(bland::slice(b, bland::slice_spec{1, 0, cols, 2}))); break;
                    case 10: o += cat(bland::median(b)); break;
                    case 11: o += J(bland::standardized_moment(b, 4)); break;
                    default: o += J(bland::square(b)) + J(bland::arange(0.0f, 9.0f, 1.0f)); break;
                    }
                }
                return o + J(a);
            });
        }
        h.describe(cat("arrays ", rows, "x", cols, shared ? " sharing operands" : "", d));
        compare(h, "arrays", work);
    });
    h.cases("estimators", 60, 2000, [&] {
        Rng &r = h.rng;
        int n = (int)r.range(2, 6);
        std::vector<Work> work;
        std::string d;
        for (int i = 0; i < n; ++i) {
            int taps = (int)r.range(1, 60), k = (int)r.range(0, 3);
            float fc = (float)r.pick({0.1, 0.25, 0.5});
            std::string w = r.pick({std::string("hamming"), std::string("hann"), std::string("rectangular"), std::string("other")});
            int64_t T = r.range(4, 12), N = r.range(8, 64);
            std::vector<float> v(T * N);
            for (auto &x : v) x = (float)std::max(0.5, 100 + 10 * r.normal());
            d += cat(" ", k, "/", taps, w);
            work.push_back([=]() -> std::string {
                if (k == 0) return J(firdes(taps, fc, w));
                bland::ndarray x = f32({T, N}, v);
                if (k == 1) return J(flag_sigmaclip(x, 3, 3.0f, 3.0f));
                if (k == 2) return J(estimate_noise_power(x, noise_power_estimate_options{.estimator_method = noise_power_estimator::STDDEV, .masked_estimate = false}));
                return J(estimate_spectral_kurtosis(x, 7, (int32_t)T, 2.0f));
            });
        }
        h.describe("estimators" + d);
        compare(h, "estimators", work);
    });
    h.cases("results", 40, 1200, [&] {
        Rng &r = h.rng;
        int n = (int)r.range(2, 6);
        std::vector<Work> work;
        for (int i = 0; i < n; ++i) {
            uint64_t seed = r.next();
            int64_t cnt = r.range(0, 30);
            std::string p = h.scratch + cat("/r", i, r.chance(0.5) ? ".capnp" : ".dat");
            bool dat = p.find(".dat") != std::string::npos;
            work.push_back([=]() -> std::string {
                Rng rr(seed);
                auto l = rand_hits(rr, cnt, 0);
                if (dat) {
                    for (auto &x : l) if (!std::isfinite(x.power)) x.power = 1;
                    Meta m = rand_meta(rr);
                    std::map<int, CC> ccs{{0, std::make_shared<coarse_channel>(meta_cc(rr, m, 0, l, false))}};
                    write_scan_hits_to_dat_file(scan(ccs), p);
                    auto o = slurp(p);
                    unlink(p.c_str());
                    return o;
                }
                write_hits_to_capnp_file(l, p);
                auto o = slurp(p) + J(read_hits_from_capnp_file(p));
                unlink(p.c_str());
                return o;
            });
        }
        h.describe(cat("results ", n));
        compare(h, "results", work);
    });
}
} // namespace

int main(int c, char **v) { return vh::run_main(c, v, {{"T01", T01}}); }
