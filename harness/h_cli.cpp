// L01: the programs, run as a user runs them, against the library called with the same options
#include "ser.hpp"
#include <sys/resource.h>
using namespace ser;

namespace {
struct Run { int status = -1; bool exited = false; std::string out, err; };
std::string bin(const std::string &n) {
    const char *d = getenv("VERIF_BIN_DIR");
    if (!d) { fprintf(stderr, "VERIF_BIN_DIR is not set\n"); exit(2); }
    return std::string(d) + "/" + n;
}
Run run(H &h, const std::string &cwd, std::vector<std::string> args) {
    auto of = scratch(h, "tool.out"), ef = scratch(h, "tool.err");
    auto exe = bin(args[0]);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(o, 1);
        dup2(e, 2);
        if (chdir(cwd.c_str())) _exit(120);
        struct itimerval t {};
        setitimer(ITIMER_PROF, &t, nullptr);
        struct rlimit rl { 100, 101 };
        setrlimit(RLIMIT_CPU, &rl);
        std::vector<char *> av;
        for (auto &a : args) av.push_back(a.data());
        av.push_back(nullptr);
        execv(exe.c_str(), av.data());
        _exit(121);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Run r;
    r.exited = WIFEXITED(st);
    r.status = r.exited ? WEXITSTATUS(st) : -WTERMSIG(st);
    r.out    = slurp(of);
    r.err    = slurp(ef);
    h.count("programs_run");
    if (r.status == 120 || r.status == 121) { fprintf(stderr, "cannot run %s\n", exe.c_str()); exit(2); }
    // an uncaught exception ends the program by abort, which the sanitizer reports too: that is a failure status, not a finding
    bool abrt = r.err.find("terminate called") != std::string::npos || r.err.find("ABRT on unknown address") != std::string::npos;
    bool san  = (r.err.find("ERROR: AddressSanitizer") != std::string::npos && !abrt) || r.err.find("runtime error:") != std::string::npos || r.status == 77 || r.status == 78;
    if (san && !abrt) h.fail("tool-sanitizer-report", r.err.substr(0, 4000));
    if (!r.exited && (r.status == -SIGSEGV || r.status == -SIGBUS || r.status == -SIGFPE || r.status == -SIGXCPU)) h.fail("tool-crash", cat("status ", r.status, " ", r.err.substr(0, 3000)));
    return r;
}
bool failed(const Run &r) { return r.status != 0; }
std::string show(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + x; return s; }

struct Opt {
    int c = 0, n = 1, fpc = 0, method = 0, dist = 7, iters = 5; // method 0: connected components
    bool desmear = true;
    int64_t lo = -500, hi = 500, step = 1;
    float roll = 0.25f, sklo = 0.25f, skhi = 50, skd = 2, silo = 3, sihi = 4, snr = 10;
    std::string resp;
};
std::vector<hits_t> library(const std::string &path, const Opt &o, std::vector<CM> *cms = nullptr) {
    scan s(path, o.fpc);
    std::vector<hits_t> out;
    for (int i = o.c; i < o.c + o.n; ++i) {
        coarse_channel c = *s.read_coarse_channel(i);
        if (cms) cms->push_back(cm_of(c));
        c = normalize(c);
        if (!o.resp.empty()) c = equalize_passband_filter(c, o.resp);
        else c = flag_filter_rolloff(c, o.roll);
        c = flag_spectral_kurtosis(c, o.sklo, o.skhi, o.skd);
        c = flag_sigmaclip(c, o.iters, o.silo, o.sihi);
        c.set_noise_estimate(estimate_noise_power(c, noise_power_estimate_options{.estimator_method = noise_power_estimator::STDDEV, .masked_estimate = true}));
        c = integrate_drifts(c, integrate_drifts_options{.desmear = o.desmear, .low_rate = o.lo, .high_rate = o.hi, .rate_step_size = o.step});
        hit_search_options so;
        so.method = o.method ? hit_search_methods::LOCAL_MAXIMA : hit_search_methods::CONNECTED_COMPONENTS;
        so.snr_threshold = o.snr;
        so.neighbor_l1_dist = o.dist;
        c.set_hits(hit_search(c, so));
        c = filter_hits(c, filter_options{.filter_zero_drift = true});
        out.push_back(c.hits());
    }
    return out;
}
hits_t rounded(hits_t l) { // to what the hits file keeps
    for (auto &x : l) { x.start_time_sec = (float)x.start_time_sec; x.duration_sec = (float)x.duration_sec; x.power = (float)x.power; x.rfi_counts.clear(); }
    return l;
}
struct File { std::string path; int64_t T, fpc, nc; Meta m; };
File make_file(H &h, const std::string &name, int64_t T, int64_t fpc, int64_t nc) {
    Rng &r = h.rng;
    File f{scratch(h, name), T, fpc, nc, rand_meta(r)};
    f.m.foff = r.pick({-2.7939677238464355e-06, 2.7939677238464355e-06, -3e-6});
    f.m.tsamp = r.pick({18.253611008, 1.0, 10.0});
    int64_t N = fpc * nc;
    std::vector<float> d(T * N);
    // a spread as the kurtosis estimator expects of averaged power (so that not everything is flagged)
    double n_avg = std::abs(f.m.foff) * 1e6 * f.m.tsamp * 2, sd = 100 / std::sqrt(std::max(1.0, n_avg)) * r.pick({1.0, 1.0, 1.3, 0.7});
    for (auto &x : d) x = (float)std::max(0.5, 100 + sd * r.normal());
    for (int64_t c = 0; c < nc; ++c)
        for (int64_t k = 0, n = r.range(1, 4); k < n; ++k) {
            double f0 = r.uni(0, (double)fpc - 1), slope = r.chance(0.3) ? 0 : r.uni(-4, 4), amp = sd * r.pick({4.0, 8.0, 20.0, 100.0});
            for (int64_t t = 0; t < T; ++t) {
                int64_t x = (int64_t)std::lround(f0 + slope * t);
                if (x >= 0 && x < fpc) d[t * N + c * fpc + x] += (float)(amp + r.normal());
            }
        }
    write_fb(f.path, std_fb(T, N, f.m, d));
    return f;
}
std::string num_s(double v) { char b[40]; snprintf(b, sizeof b, "%.6g", v); return b; }

void find_hits(H &h) {
    Rng &r = h.rng;
    int64_t T = r.pick({4, 8, 8, 16, 5, 12}), fpc = r.pick({32, 64, 96, 128}), nc = r.range(1, 4);
    int nf = (int)r.pick({1, 1, 1, 2, 3});
    std::vector<File> fs;
    std::vector<std::string> names{"in a.h5", "second.file.h5", "third"}, stems{"in a.capnp", "second.file.capnp", "third.capnp"};
    if (r.chance(0.06)) { // a whole night of files in one run
        nf = (int)r.range(5, 12);
        T = 4, fpc = 32, nc = r.range(1, 2);
    } else if (r.chance(0.04)) T = 4, fpc = 32, nc = r.range(12, 40); // many coarse channels
    for (int i = 3; i < nf; ++i) names.push_back(cat("f", i, ".h5")), stems.push_back(cat("f", i, ".capnp"));
    for (int i = 0; i < nf; ++i) fs.push_back(make_file(h, names[i], T, fpc, nc));
    Opt o;
    std::vector<std::vector<std::string>> groups;
    auto give = [&](std::initializer_list<std::string> flags, const std::string &v) {
        auto f = *(flags.begin() + r.next() % flags.size());
        if (v.empty()) groups.push_back({f});
        else groups.push_back({f, v});
    };
    // without --nchan-per-coarse the file is one coarse channel of its whole width (the widths used match no known scheme)
    bool whole = r.chance(0.15);
    if (!whole) { o.fpc = (int)fpc; give({"--nchan-per-coarse"}, cat(fpc)); }
    int64_t avail = whole ? 1 : nc;
    if (r.chance(0.6)) { o.c = (int)r.range(0, avail - 1); give({"-c", "--coarse-channel"}, cat(o.c)); }
    if (r.chance(0.5)) { o.n = (int)r.range(1, avail - o.c); give({"--number-coarse"}, cat(o.n)); }
    if (r.chance(0.6)) { o.lo = r.range(-60, 0); give({"-m", "--min-rate"}, cat(o.lo)); }
    if (r.chance(0.6)) { o.hi = r.range(1, 60); give({"-M", "--max-rate"}, cat(o.hi)); }
    if (r.chance(0.4)) { o.step = r.range(1, 3); give({"-rs", "--rate-step"}, cat(o.step)); }
    if (r.chance(0.5)) { o.desmear = r.chance(0.4); give({o.desmear ? "--desmear" : "--nodesmear"}, ""); }
    if (r.chance(0.4)) { auto s = num_s(r.pick({0.0, 0.05, 0.1, 0.3, 0.03125})); o.roll = strtof(s.c_str(), nullptr); give({"--filter-rolloff"}, s); }
    if (r.chance(0.4)) { o.iters = (int)r.range(1, 8); give({"--sigmaclip-iters"}, cat(o.iters)); }
    if (r.chance(0.4)) { auto s = num_s(r.pick({1.5, 2.0, 3.5, 6.0})); o.silo = strtof(s.c_str(), nullptr); give({"--sigmaclip-low"}, s); }
    if (r.chance(0.4)) { auto s = num_s(r.pick({2.0, 2.5, 5.0, 10.0})); o.sihi = strtof(s.c_str(), nullptr); give({"--sigmaclip-high"}, s); }
    if (r.chance(0.4)) { auto s = num_s(r.pick({0.0, 0.001, 0.1, 0.5})); o.sklo = strtof(s.c_str(), nullptr); give({"--sk-low"}, s); }
    if (r.chance(0.4)) { auto s = num_s(r.pick({0.75, 2.0, 5.0, 20.0, 500.0})); o.skhi = strtof(s.c_str(), nullptr); give({"--sk-high"}, s); }
    if (r.chance(0.4)) { auto s = num_s(r.pick({0.5, 1.0, 3.0})); o.skd = strtof(s.c_str(), nullptr); give({"--sk-d"}, s); }
    if (r.chance(0.6)) { o.method = (int)r.range(0, 1); give({o.method ? "--local-maxima" : "--connected-components"}, ""); }
    if (r.chance(0.6)) { auto s = num_s(r.pick({3.0, 4.5, 6.0, 15.0, 30.0})); o.snr = strtof(s.c_str(), nullptr); give({"-s", "--snr"}, s); }
    if (r.chance(0.4)) { o.dist = (int)r.range(1, 20); give({"--distance"}, cat(o.dist)); }
    std::string resp = scratch(h, "resp.f32");
    bool equalize = r.chance(0.25);
    int64_t width = whole ? fpc * nc : fpc;
    if (equalize) {
        std::vector<float> w(width);
        for (auto &x : w) x = (float)r.uni(0.2, 1.0);
        spew(resp, std::string((char *)w.data(), w.size() * 4));
        o.resp = resp;
        give({"-e", "--equalizer-channel"}, resp);
    }
    give({"-d", "--device"}, "cpu");
    // output
    int how = nf > 1 ? (int)r.range(0, 1) : (int)r.range(0, 5);
    auto cwd = scratch(h, "cwd");
    mkdir(cwd.c_str(), 0755);
    std::string outp;
    bool dat = false, text = false;
    std::vector<std::string> og;
    switch (how) {
    case 0: case 1: break;                                                       // default names
    case 2: outp = scratch(h, "o.capnp"); og = {outp}; break;
    case 3: outp = scratch(h, "o.dat"); og = {outp}; dat = true; break;
    case 4: outp = scratch(h, "o.x"); dat = r.chance(0.5); og = {outp, dat ? "dat" : "capnp"}; break;
    default: text = true; og = {r.pick({std::string("-"), std::string("stdout")})}; break;
    }
    if (!og.empty()) { og.insert(og.begin(), r.pick({std::string("-o"), std::string("--output")})); }
    for (size_t i = groups.size(); i > 1; --i) std::swap(groups[i - 1], groups[(size_t)r.range(0, (int64_t)i - 1)]);
    std::vector<std::string> args{"bliss_find_hits"};
    bool files_first = true; // as the manual page of the program shows it
    if (files_first) for (auto &f : fs) args.push_back(f.path);
    for (auto &g : groups) args.insert(args.end(), g.begin(), g.end());
    if (!files_first) for (auto &f : fs) args.push_back(f.path);
    args.insert(args.end(), og.begin(), og.end());
    h.describe(cat("T ", T, " fpc ", fpc, " nc ", nc, ": ", show(args)));
    auto res = run(h, cwd, args);
    std::vector<std::vector<hits_t>> wants(nf);
    std::vector<std::vector<CM>> wcms(nf);
    // options that flag everything leave the library nothing to estimate from: then the program fails too
    if (refused([&] { for (int i = 0; i < nf; ++i) wants[i] = library(fs[i].path, o, &wcms[i]); })) {
        h.count("library_refused");
        h.check(failed(res), "refusal-not-reported", [&] { return cat("exit status 0: ", show(args)); });
        h.nontrivial("refused" + show(args));
        for (auto &n : stems) unlink((cwd + "/" + n).c_str());
        for (auto &f : fs) unlink(f.path.c_str());
        return;
    }
    if (!h.check(!failed(res), "find-hits-failed", [&] { return cat("status ", res.status, "\n", res.err.substr(0, 1500), "\n", res.out.size() > 1500 ? res.out.substr(res.out.size() - 1500) : res.out); })) return;
    size_t total = 0;
    for (int i = 0; i < nf; ++i) {
        auto &cms = wcms[i];
        auto &want = wants[i];
        hits_t all;
        for (auto &l : want) all.insert(all.end(), l.begin(), l.end());
        total += all.size();
        if (text) {
            std::vector<std::string> got, exp;
            for (auto &l : split(res.out, '\n')) if (l.compare(0, 4, "hit:") == 0 || l.compare(0, 9, "scan has ") == 0) got.push_back(l);
            exp.push_back(cat("scan has ", all.size(), " hits"));
            for (auto &x : all) exp.push_back(x.repr());
            h.check(got == exp, "stdout-hits", [&] { return cat(got.size(), " lines, expected ", exp.size(), "; first ", got.empty() ? "" : got[0]); });
            continue;
        }
        auto p = outp;
        if (p.empty()) p = cwd + "/" + stems[i];
        if (!h.check(file_size(p) > 0, "output-missing", [&] { return p; })) continue;
        if (dat) {
            CM md = cms[0];
            md.chans = 0;
            check_dat(h, slurp(p), md, fs[i].path, all);
        } else {
            std::string why;
            bool ref = refused([&] {
                auto s = read_scan_hits_from_capnp_file(p);
                if (!h.check(s.get_number_coarse_channels() == o.n, "output-channels", [&] { return cat(s.get_number_coarse_channels(), " expected ", o.n); })) return;
                for (int k = 0; k < o.n; ++k) {
                    auto c = s.read_coarse_channel(k);
                    auto got = c->hits();
                    // the channel's first frequency may be rounded differently on the two sides
                    auto w = want[k].begin();
                    for (auto g = got.begin(); g != got.end() && w != want[k].end(); ++g, ++w) if (close(g->start_freq_MHz, w->start_freq_MHz, 1e-12)) g->start_freq_MHz = w->start_freq_MHz;
                    auto d = hits_diff(want[k], got);
                    h.check(d.empty(), "output-hits", [&] { return cat("file ", i, " channel ", k, ": ", d); });
                    auto cm = cm_of(*c);
                    if (close(cm.fch1, cms[k].fch1, 1e-12)) cm.fch1 = cms[k].fch1;
                    auto dm = cm_diff(cms[k], cm);
                    h.check(dm.empty(), "output-metadata", [&] { return dm; });
                }
            }, &why);
            h.check(!ref, "output-unreadable", [&] { return why; });
        }
        unlink(p.c_str());
    }
    h.count("hits_compared", total);
    h.count(total ? "runs_with_hits" : "runs_without_hits");
    if (total) h.nontrivial(show(args) + cat(h.case_no));
    // nothing else was written
    if (DIR *d = opendir(cwd.c_str())) {
        while (auto e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            h.check(false, "unexpected-file", [&] { return n; });
            unlink((cwd + "/" + n).c_str());
        }
        closedir(d);
    }
    for (auto &f : fs) unlink(f.path.c_str());
}

void L01(H &h) {
    quiet();
    h.rule = "a program run with one option combination on one set of files; non-trivial when hits were found or a failure was due";
    h.cases("find-hits", 130, 2500, [&] { find_hits(h); });
    h.cases("find-hits-failure", 40, 500, [&] {
        Rng &r = h.rng;
        auto f = make_file(h, "bad.h5", 4, 32, 2);
        auto cwd = scratch(h, "cwd");
        mkdir(cwd.c_str(), 0755);
        auto out = scratch(h, "bad.capnp");
        std::vector<std::string> base{"bliss_find_hits", f.path, "-d", "cpu", "--nchan-per-coarse", "32", "-m", "-5", "-M", "5"}, a = base;
        std::vector<std::string> o{"-o", out};
        auto add = [&](std::vector<std::string> v) { a.insert(a.end(), v.begin(), v.end()); };
        int k = (int)r.range(0, 13);
        switch (k) {
        case 0: add({"-c", r.pick({std::string("2"), std::string("100"), std::string("-3")})}); break;
        case 1: add({"--number-coarse", "3"}); break;
        case 2: a[1] = scratch(h, "absent.h5"); break;
        case 3: { auto g = scratch(h, "text.h5"); spew(g, "not an hdf5 file\n"); a[1] = g; break; }
        case 4: { auto w = scratch(h, "short.f32"); spew(w, std::string(31 * 4, '\1')); add({"-e", w}); break; }
        case 5: add({"-e", scratch(h, "absent.f32")}); break;
        case 6: o = {"-o", scratch(h, "no/such/dir/x.capnp")}; break;
        case 7: o = {"-o", "/dev/full", r.pick({std::string("capnp"), std::string("dat")})}; break;
        case 8: add({"--no-such-option"}); break;
        case 9: add({"-rs", r.pick({std::string("0"), std::string("-1")})}); break;
        case 10: a = {"bliss_find_hits", "-d", "cpu"}; break; // no input
        case 11: a[3] = r.pick({std::string("cuda:0"), std::string("nonsense")}); break;
        case 12: { // the second of two files is unusable
            a.insert(a.begin() + 2, scratch(h, "absent.h5"));
            o.clear();
            break;
        }
        default: a[5] = "-7"; break;
        }
        add(o);
        h.describe(show(a));
        auto res = run(h, cwd, a);
        h.check(failed(res), cat("failure-", k, "-not-reported"), [&] { return cat("exit status 0: ", show(a), "\n", res.out.substr(0, 600)); });
        h.nontrivial(cat(k, show(a)));
        for (auto x : {out, cwd + "/bad.capnp", f.path}) unlink(x.c_str());
    });
    h.cases("hits-to-dat", 60, 1000, [&] {
        Rng &r = h.rng;
        auto fbp = scratch(h, "hd.h5");
        auto b = r.chance(0.3) ? file_built(h, fbp) : mem_built(r, 0, true);
        auto in = scratch(h, r.pick({std::string("hits.capnp"), std::string("my.hits.cp"), std::string("hits")}));
        // position and times a header can show
        b.s.set_src_raj(r.uni(0, 24)); b.s.set_src_dej(r.uni(-90, 90)); b.s.set_tsamp(r.uni(0.1, 20)); b.s.set_foff(r.uni(-1e-5, 1e-5));
        b.s.set_tstart(50000 + r.uni() * 1e4); b.s.set_source_name("SRC 1");
        write_scan_hits_to_capnp_file(b.s, in);
        auto md = cm_of(b.s);
        hits_t all;
        for (auto &l : b.w.hits) for (auto &x : rounded(l)) all.push_back(x);
        auto cwd = scratch(h, "cwd");
        mkdir(cwd.c_str(), 0755);
        int how = (int)r.range(0, 3);
        std::vector<std::string> a{"bliss_hits_to_dat", r.pick({std::string("-i"), std::string("--input")}), in};
        std::string out;
        auto stem = in.substr(in.rfind('/') + 1);
        if (how == 0) out = cwd + "/" + stem.substr(0, stem.rfind('.')) + ".dat";
        else if (how == 3) { a.push_back("-o"); a.push_back(r.pick({std::string("-"), std::string("stdout")})); }
        else { out = scratch(h, how == 1 ? "conv.dat" : "conv.txt"); a.push_back(r.pick({std::string("-o"), std::string("--output")})); a.push_back(out); }
        h.describe(cat(show(a), ": ", all.size(), " hits"));
        auto res = run(h, cwd, a);
        h.check(!failed(res), "hits-to-dat-failed", [&] { return cat(res.status, res.err.substr(0, 800)); });
        if (how == 3) {
            std::vector<std::string> got, exp{cat("Got ", all.size(), " hits")};
            for (auto &l : split(res.out, '\n')) if (l.compare(0, 4, "hit:") == 0 || l.compare(0, 4, "Got ") == 0) got.push_back(l);
            for (auto &x : all) exp.push_back(x.repr());
            h.check(got == exp, "hits-to-dat-stdout", [&] { return cat(got.size(), " lines expected ", exp.size()); });
        } else check_dat(h, slurp(out), md, "n/a", all);
        h.count("hits_compared", all.size());
        h.nontrivial(show(a) + cat(all.size()));
        // failures
        if (r.chance(0.5)) {
            std::vector<std::vector<std::string>> bad{{"bliss_hits_to_dat"}, {"bliss_hits_to_dat", "-i", in + ".absent"}, {"bliss_hits_to_dat", "-i", in, "-o", "/dev/full"},
                                                      {"bliss_hits_to_dat", "-i", in, "-o", scratch(h, "no/dir/x")}, {"bliss_hits_to_dat", "-i", in, "--bogus"}, {"bliss_hits_to_dat", "-i", in + ".cut", "-o", scratch(h, "z")}};
            auto whole = slurp(in);
            spew(in + ".cut", whole.substr(0, whole.size() - (size_t)r.range(1, (int64_t)whole.size())));
            auto &v = bad[(size_t)r.range(0, (int64_t)bad.size() - 1)];
            auto q = run(h, cwd, v);
            h.check(failed(q), "hits-to-dat-failure-not-reported", [&] { return cat("exit status 0: ", show(v)); });
            unlink((in + ".cut").c_str());
        }
        for (auto x : {in, out, fbp, scratch(h, "z"), cwd + "/" + stem.substr(0, stem.rfind('.')) + ".dat"}) unlink(x.c_str());
    });
    h.cases("response", 25, 300, [&] {
        Rng &r = h.rng;
        int M = (int)r.pick({2, 4, 8, 16, 3, 5, 32, 64}), f = 2 * (int)r.range(4, 64), N = (int)r.range(1, 24);
        N = std::min(N, f);
        auto out = scratch(h, "resp.out");
        auto cwd = scratch(h, "cwd");
        mkdir(cwd.c_str(), 0755);
        std::vector<std::string> a{"bliss_generate_channelizer_response", r.pick({std::string("-M"), std::string("--number-coarse")}), cat(M),
                                   r.pick({std::string("-f"), std::string("--nchan-per-coarse")}), cat(f), r.pick({std::string("-N"), std::string("--taps-per-channel")}), cat(N), "-o", out};
        if (r.chance(0.3)) { a[7] = "--output"; }
        bool defname = r.chance(0.2);
        if (defname) { a.resize(7); out = cwd + "/channelizer_response.f32"; }
        if (r.chance(0.3)) { a.insert(a.begin() + 1, "-d"); a.insert(a.begin() + 2, "cpu"); }
        h.describe(show(a));
        auto res = run(h, cwd, a);
        h.check(!failed(res), "response-failed", [&] { return cat(res.status, res.err.substr(0, 800)); });
        auto want = fvals(gen_coarse_channel_response(f, M, N));
        auto b = slurp(out);
        std::vector<float> got(b.size() / 4);
        if (!b.empty()) memcpy(got.data(), b.data(), got.size() * 4);
        h.check(b.size() % 4 == 0 && biteq(got, want), "response-differs", [&] { return firstdiff(got, want); });
        h.nontrivial(show(a));
        unlink(out.c_str());
        if (r.chance(0.3)) {
            std::vector<std::string> v{"bliss_generate_channelizer_response", "-M", "4", "-f", "16", "-N", "2", "-o", r.pick({std::string("/dev/full"), scratch(h, "no/dir/x")})};
            if (r.chance(0.3)) v = {"bliss_generate_channelizer_response", "--bogus"};
            auto q = run(h, cwd, v);
            h.check(failed(q), "response-failure-not-reported", [&] { return cat("exit status 0: ", show(v)); });
        }
    });
    h.cases("help", 3, 3, [&] {
        auto p = std::vector<std::string>{"bliss_find_hits", "bliss_hits_to_dat", "bliss_generate_channelizer_response"}[h.case_no % 3];
        auto cwd = scratch(h, "cwd");
        mkdir(cwd.c_str(), 0755);
        for (auto f : {"-h", "--help"}) {
            auto q = run(h, cwd, {p, f});
            h.check(!failed(q) && q.out.find(p) != std::string::npos, "help", [&] { return p + " " + f; });
        }
        h.nontrivial(p);
    });
}
} // namespace

int main(int argc, char **argv) { return vh::run_main(argc, argv, {{"L01", L01}}); }
