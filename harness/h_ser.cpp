// S01-S06: what the result files store, and what reading damaged ones gives
#include "ser.hpp"

#include <atomic>
#include <cerrno>
#include <sys/syscall.h>
#include <unistd.h>

// Every close() of the process: closing a descriptor that is not open is how one file ends up closing another's.
static std::atomic<int> bad_closes{0};
extern "C" int close(int fd) {
    long r = syscall(SYS_close, fd);
    if (r < 0 && errno == EBADF) ++bad_closes;
    return static_cast<int>(r);
}
using namespace ser;

namespace {
void S01(H &h) {
    quiet();
    h.rule = "a hit list written and read back (size, field style and container differ), or a write on a medium that fills up";
    h.cases("hits", 500, 8000, [&] {
        Rng &r = h.rng;
        int64_t n = pick_count(r);
        int style = (int)r.range(0, 2) > 0;
        auto l = rand_hits(r, n, style);
        auto p = scratch(h, r.pick({std::string("s01.cp"), std::string("s01.capnp"), std::string("s01.hits"), std::string("s 01"), std::string("s01.dat.cp"), std::string("s01.dat.hits"), std::string("s01.dat "), std::string("dat")}));
        bool v = r.chance(0.5);
        h.describe(cat(l.size(), " hits style ", style, v ? " vector" : " list"));
        int fds = open_fds();
        if (v) write_hits_to_capnp_file(std::vector<hit>(l.begin(), l.end()), p);
        else write_hits_to_capnp_file(l, p);
        auto g = r.chance(0.5) ? read_hits_from_capnp_file(p) : read_hits_from_file(p, r.chance(0.5) ? "" : "capnp");
        auto d = hits_diff(l, g);
        h.check(d.empty(), "hits-round-trip", [&] { return d; });
        auto g2 = read_hits_from_capnp_file(p);
        h.check(hits_diff(l, g2).empty(), "hits-second-read", [&] { return hits_diff(l, g2); });
        // what was read writes again unchanged
        write_hits_to_capnp_file(g, p + "2");
        h.check(slurp(p) == slurp(p + "2"), "hits-rewrite-differs", [] { return std::string(); });
        h.check(open_fds() == fds, "descriptor-leak", [&] { return cat(fds, " -> ", open_fds()); });
        h.count("hits_compared", l.size());
        h.nontrivial(cat(style, v, l.size(), l.empty() ? 0 : l.front().start_freq_MHz));
        unlink(p.c_str()); unlink((p + "2").c_str());
    });
    h.cases("one-field", 300, 4000, [&] {
        // each field alone at its extremes: a field stored in another's place shows
        Rng &r = h.rng;
        hit b{}; b.start_freq_index = 1; b.start_freq_MHz = 2; b.start_time_sec = 3; b.duration_sec = 4; b.rate_index = 5; b.drift_rate_Hz_per_sec = 6;
        b.power = 7; b.time_span_steps = 8; b.snr = 9; b.bandwidth = 10; b.binwidth = 11; b.coarse_channel_number = 12;
        int f = (int)r.range(0, 11);
        switch (f) {
        case 0: b.start_freq_index = rint32(r); break; case 1: b.start_freq_MHz = rf64(r); break; case 2: b.start_time_sec = rdf(r); break;
        case 3: b.duration_sec = rdf(r); break; case 4: b.rate_index = rint32(r); break; case 5: b.drift_rate_Hz_per_sec = rf64(r); break;
        case 6: b.power = rdf(r); break; case 7: b.time_span_steps = rint32(r); break; case 8: b.snr = rf32(r); break;
        case 9: b.bandwidth = rf32(r); break; case 10: b.binwidth = r.range(-(1 << 24), 1 << 24); break; default: b.coarse_channel_number = rint32(r);
        }
        h.describe(cat("field ", f));
        auto p = scratch(h, "s01f");
        write_hits_to_capnp_file(hits_t{b}, p);
        auto d = hits_diff({b}, read_hits_from_capnp_file(p));
        h.check(d.empty(), cat("field-round-trip"), [&] { return d; });
        h.nontrivial(cat(f, " ", b.start_freq_MHz, b.drift_rate_Hz_per_sec, b.power, b.snr, b.binwidth, b.rate_index, b.start_freq_index));
        unlink(p.c_str());
    });
    h.cases("faults", 60, 1000, [&] {
        Rng &r = h.rng;
        auto l = rand_hits(r, pick_count(r), 0);
        auto p = scratch(h, "s01w");
        h.describe(cat(l.size(), " hits"));
        write_faults(h, p, "hits", [&](const std::string &q) { write_hits_to_capnp_file(l, q); });
        h.nontrivial(cat("faults", l.size(), h.case_no));
        unlink(p.c_str());
    });
    h.cases("many", 2, 8, [&] {
        Rng &r = h.rng;
        auto l = rand_hits(r, h.thorough() ? 400000 : 60000, 0);
        auto p = scratch(h, "s01m");
        h.describe(cat(l.size(), " hits"));
        write_hits_to_capnp_file(l, p);
        auto d = hits_diff(l, read_hits_from_capnp_file(p));
        h.check(d.empty(), "many-hits-round-trip", [&] { return d; });
        h.count("hits_compared", l.size());
        h.nontrivial(cat("many", l.size()));
        unlink(p.c_str());
    });
}

// a results file holds no samples: whatever needs them is refused, and the channel is none the worse for it
void sampleless(H &h, coarse_channel &c) {
    Rng &r = h.rng;
    int k = (int)r.range(0, 7);
    bool ref = refused([&] {
        switch (k) {
        case 0: (void)c.data(); break;
        case 1: (void)c.mask(); break;
        case 2: (void)c.integrated_drift_plane(); break;
        case 3: { auto x = normalize(c); (void)x.data(); break; }
        case 4: { auto x = flag_filter_rolloff(c, 0.1f); (void)x.mask(); break; }
        case 5: (void)estimate_noise_power(c, noise_power_estimate_options{}); break;
        case 6: { auto x = integrate_drifts(c, integrate_drifts_options{}); (void)x.integrated_drift_plane().integrated_drift_plane(); break; }
        default: (void)c.noise_estimate();
        }
    });
    h.check(ref, "samples-from-nowhere", [&] { return cat("request ", k, " was not refused"); });
    if (r.chance(0.3)) { c.set_device("cpu"); }
    h.count("sampleless_requests");
}
void S02(H &h) {
    quiet();
    h.rule = "a coarse channel, scan, target or cadence written and read back, non-trivial when its channels hold different hits";
    h.cases("channel", 300, 5000, [&] {
        Rng &r = h.rng;
        bool wild = r.chance(0.6);
        auto l = rand_hits(r, pick_count(r), (int)r.range(0, 1));
        auto c = meta_cc(r, ser_meta(r, wild), rint32(r), l, r.chance(0.5));
        h.describe(cat(l.size(), " hits, channel number ", c._coarse_channel_number, " source length ", c.source_name().size()));
        auto p = scratch(h, "s02c");
        write_coarse_channel_hits_to_capnp_file(c, p);
        auto g = read_coarse_channel_hits_from_capnp_file(p);
        auto d = cm_diff(cm_of(c), cm_of(g));
        h.check(d.empty(), "channel-metadata", [&] { return d; });
        auto dh = hits_diff(l, g.hits());
        h.check(dh.empty(), "channel-hits", [&] { return dh; });
        sampleless(h, g);
        write_coarse_channel_hits_to_capnp_file(g, p + "2");
        h.check(slurp(p) == slurp(p + "2"), "channel-rewrite-differs", [] { return std::string(); });
        h.nontrivial(cat(l.size(), c.fch1(), c._coarse_channel_number));
        unlink(p.c_str()); unlink((p + "2").c_str());
    });
    h.cases("scan", 400, 6000, [&] {
        Rng &r = h.rng;
        auto fbp = scratch(h, "s02.h5");
        bool file = r.chance(0.5);
        auto b = file ? file_built(h, fbp) : mem_built(r, (int)r.range(0, 1), true);
        h.describe(cat(file ? "file" : "memory", " scan of ", b.w.cc.size(), " channels"));
        auto p = scratch(h, r.pick({std::string("s02.capnp"), std::string("s02.cp"), std::string("s02.x"), std::string("s02.dat.capnp"), std::string("s02.data")}));
        int how = (int)r.range(0, 2);
        if (how == 0) write_scan_hits_to_capnp_file(b.s, p);
        else write_scan_hits_to_file(b.s, p, how == 1 ? "" : "capnp");
        auto g = r.chance(0.5) ? read_scan_hits_from_capnp_file(p) : read_scan_hits_from_file(p, r.chance(0.5) ? "" : "capnp");
        check_scan(h, "scan", b.w, g);
        if (!b.w.cc.empty() && r.chance(0.3)) try { auto c = g.read_coarse_channel((int)r.range(0, g.get_number_coarse_channels() - 1)); sampleless(h, *c); } catch (const std::out_of_range &) {}
        // and once more from what was read
        write_scan_hits_to_capnp_file(g, p + "2");
        auto g2 = read_scan_hits_from_capnp_file(p + "2");
        check_scan(h, "rewritten", b.w, g2);
        size_t tot = 0;
        for (auto &x : b.w.hits) tot += x.size();
        if (tot) h.nontrivial(cat(file, b.w.cc.size(), " ", tot, b.w.md.fch1));
        unlink(p.c_str()); unlink((p + "2").c_str()); unlink(fbp.c_str());
    });
    h.cases("cadence", 150, 2500, [&] {
        Rng &r = h.rng;
        std::vector<std::vector<MScan>> w;
        cadence c;
        int nt = (int)(r.chance(0.04) ? r.range(4, 9) : r.pick({0, 1, 2, 3}));
        int files = 0;
        std::string shape;
        for (int t = 0; t < nt; ++t) {
            observation_target o;
            w.emplace_back();
            int ns = (int)(r.chance(0.04) ? r.range(4, 12) : r.pick({0, 1, 2, 3}));
            shape += cat(" ", ns);
            for (int s = 0; s < ns; ++s) {
                auto b = r.chance(0.3) && files < 4 ? file_built(h, scratch(h, cat("s02-", files++, ".h5"))) : mem_built(r, (int)r.range(0, 1));
                o._scans.push_back(b.s);
                w.back().push_back(b.w);
            }
            c._observations.push_back(o);
        }
        h.describe(cat("targets with scans", shape));
        auto p = scratch(h, "s02k");
        auto check_target = [&](const char *k, const std::vector<MScan> &ws, observation_target &g) {
            if (!h.check(g._scans.size() == ws.size(), cat(k, "-scan-count"), [&] { return cat("wrote ", ws.size(), " read ", g._scans.size()); })) return;
            for (size_t i = 0; i < ws.size(); ++i) check_scan(h, k, ws[i], g._scans[i]);
        };
        if (nt && r.chance(0.4)) {
            write_observation_target_hits_to_capnp_files(c._observations[0], p);
            auto g = read_observation_target_hits_from_capnp_files(p);
            check_target("target", w[0], g);
        }
        write_cadence_hits_to_capnp_files(c, p);
        auto g = read_cadence_hits_from_capnp_files(p);
        if (h.check(g._observations.size() == (size_t)nt, "target-count", [&] { return cat("wrote ", nt, " read ", g._observations.size()); }))
            for (int t = 0; t < nt; ++t) check_target("cadence", w[t], g._observations[t]);
        h.nontrivial(cat(shape, h.case_no));
        unlink(p.c_str());
        for (int i = 0; i < files; ++i) unlink(scratch(h, cat("s02-", i, ".h5")).c_str());
    });
    h.cases("faults", 30, 500, [&] {
        Rng &r = h.rng;
        auto b = mem_built(r, 0);
        h.describe(cat("scan of ", b.w.cc.size(), " channels"));
        auto p = scratch(h, "s02w");
        write_faults(h, p, "scan", [&](const std::string &q) { write_scan_hits_to_file(b.s, q); });
        h.nontrivial(cat("faults", h.case_no));
        unlink(p.c_str());
    });
    h.cases("many", 1, 3, [&] {
        Rng &r = h.rng;
        // more hits than one message of the serialiser's default size carries
        auto l = rand_hits(r, h.thorough() ? 1500000 : 950000, 0);
        h.describe(cat("one channel with ", l.size(), " hits"));
        Meta m = rand_meta(r);
        auto p = scratch(h, "s02m");
        std::map<int, CC> ccs{{0, std::make_shared<coarse_channel>(meta_cc(r, m, 0, l, false))}};
        scan s(ccs);
        write_scan_hits_to_capnp_file(s, p);
        std::string why;
        hits_t g;
        bool ref = refused([&] { g = read_scan_hits_from_capnp_file(p).hits(); }, &why);
        if (h.check(!ref, "large-scan-unreadable", [&] { return cat(file_size(p), " bytes, ", l.size(), " hits: ", why.substr(0, 300)); })) {
            auto d = hits_diff(l, g);
            h.check(d.empty(), "large-scan-hits", [&] { return d; });
        }
        h.nontrivial("many");
        unlink(p.c_str());
    });
}

void S03(H &h) {
    quiet();
    h.rule = "a scan's hits written as dat text and every field parsed back";
    h.cases("dat", 600, 10000, [&] {
        Rng &r = h.rng;
        auto fbp = scratch(h, "s03 in.h5");
        auto p   = scratch(h, r.pick({std::string("s03.dat"), std::string("s03.capnp.dat"), std::string(".dat")}));
        bool file = r.chance(0.3);
        hits_t all;
        std::optional<scan> s;
        std::string id = "n/a";
        CM md;
        if (file) {
            auto b = file_built(h, fbp);
            s = b.s; md = b.w.md; id = fbp;
            for (auto &x : b.w.hits) all.insert(all.end(), x.begin(), x.end());
        } else {
            Meta m = rand_meta(r);
            switch (r.range(0, 5)) {
            case 0: m.src_dej = r.pick({0.0, -0.0, -0.5, -0.001, 0.25, 89.9999999, -89.99999, 59.9999999, 90.0, -90.0}); break;
            case 1: m.src_raj = r.pick({0.0, 23.999999999, 0.5, 12.0, 1.0 / 3, 17.9999999, 1e-6, 10.1}); break;
            case 2: m.tstart = r.pick({0.0, 59000.0, 1e-5, 60000.123456789012, 1e9}); m.tsamp = r.pick({1e-7, 0.00034953, 1e4}); break;
            case 3: m.source_name = r.pick({std::string(), std::string("two words"), std::string("{}"), std::string("%s%n"), std::string(3000, 'q')}); break;
            default: break;
            }
            int n = (int)r.range(1, 4);
            std::map<int, CC> ccs;
            for (int i = 0; i < n; ++i) {
                auto l = dat_hits(r, r.chance(0.3) ? 0 : r.range(0, 15));
                ccs[i] = std::make_shared<coarse_channel>(m.fch1, m.foff, 0, 32, 1024, r.range(1, 64), 1, m.source_name, m.src_dej, m.src_raj, m.telescope_id, m.tsamp, m.tstart, 1, 0.0, 0.0, i);
                if (r.chance(0.5)) ccs[i]->set_hits(l);
                else ccs[i]->set_hits([l]() { return l; });
                all.insert(all.end(), l.begin(), l.end());
            }
            s.emplace(ccs);
            md = cm_of(*s);
        }
        h.describe(cat(file ? "file" : "memory", " scan, ", all.size(), " hits, ra ", md.ra, " dec ", md.dec, " source '", md.src.substr(0, 20), "'"));
        int how = (int)r.range(0, 2);
        auto q = how == 2 ? scratch(h, "s03.other") : p;
        if (how == 0) write_scan_hits_to_dat_file(*s, q);
        else write_scan_hits_to_file(*s, q, how == 1 ? "" : "dat");
        check_dat(h, slurp(q), md, id, all);
        // and read again
        int fds = open_fds(), bad = bad_closes;
        auto again = read_scan_hits_from_dat_file(q);
        h.check(bad_closes == bad, "dat-descriptor-closed-twice", [&] { return cat(bad_closes - bad, " closes of descriptors that were not open"); });
        h.check(open_fds() == fds, "dat-descriptor-leak", [&] { return cat(fds, " -> ", open_fds()); });
        h.check(again.tstart() == md.tstart, "dat-read-tstart", [&] { return cat(again.tstart(), " wrote ", md.tstart); });
        h.check(std::abs(again.tsamp() - md.tsamp) <= 6e-7 + 1e-9 * std::abs(md.tsamp), "dat-read-tsamp", [&] { return cat(again.tsamp(), " wrote ", md.tsamp); });
        h.check(std::abs(again.foff() - md.foff) <= 6e-13 + 1e-9 * std::abs(md.foff), "dat-read-foff", [&] { return cat(again.foff(), " wrote ", md.foff); });
        h.check(again.hits().size() == all.size(), "dat-read-drops-hits", [&] { return cat(again.hits().size(), " of ", all.size(), " hits"); });
        h.nontrivial(cat(all.size(), md.ra, md.dec, md.tstart));
        unlink(q.c_str()); unlink(fbp.c_str());
    });
    h.cases("faults", 60, 800, [&] {
        Rng &r = h.rng;
        auto l = dat_hits(r, pick_count(r));
        Meta m = rand_meta(r);
        std::map<int, CC> ccs{{0, std::make_shared<coarse_channel>(meta_cc(r, m, 0, l, false))}};
        scan s(ccs);
        h.describe(cat(l.size(), " hits"));
        auto p = scratch(h, "s03w.dat");
        write_faults(h, p, "dat", [&](const std::string &q) { write_scan_hits_to_file(s, q, "dat"); });
        h.nontrivial(cat("faults", h.case_no));
        unlink(p.c_str());
    });
    h.cases("many", 1, 4, [&] {
        Rng &r = h.rng;
        auto l = dat_hits(r, 70000); // more than 16 bits count, and a text that outgrows any buffer
        Meta m = rand_meta(r);
        std::map<int, CC> ccs{{0, std::make_shared<coarse_channel>(meta_cc(r, m, 0, l, false))}};
        scan s(ccs);
        auto md = cm_of(s);
        auto p = scratch(h, "s03m.dat");
        write_scan_hits_to_file(s, p);
        check_dat(h, slurp(p), md, "n/a", l);
        h.nontrivial("many");
        unlink(p.c_str());
    });
}

// ---- damaged files
struct ChildEnd { int kind; std::string detail, key; }; // 0 fine, 1 crash, 3 resources exhausted
ChildEnd in_child(H &h, const std::function<int()> &body) {
    auto ef = scratch(h, "child.err");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        struct itimerval t {};
        setitimer(ITIMER_PROF, &t, nullptr);
        signal(SIGPROF, SIG_DFL);
        struct rlimit rl { 20, 21 };
        setrlimit(RLIMIT_CPU, &rl);
        int rc = 51;
        try { rc = body(); } catch (const std::exception &e) { rc = 50; } catch (...) { rc = 51; }
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 50)) { h.count(WEXITSTATUS(st) ? "damaged_refused" : "damaged_accepted"); return {0, "", ""}; }
    std::string err = slurp(ef);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return {3, err, "timeout"};
    if (err.find("hard rss limit") != std::string::npos || err.find("out of memory") != std::string::npos || err.find("allocation-size-too-big") != std::string::npos) return {3, err, "memory"};
    std::string key = "damaged-file-";
    size_t e = err.find("ERROR: AddressSanitizer");
    if (e != std::string::npos) key += err.substr(e + 25, err.find_first_of(" \n", e + 25) - e - 25);
    else if (err.find("runtime error") != std::string::npos) key += "ub";
    else key += cat("status-", st);
    return {1, err.substr(0, 3500), key};
}
enum Kind { HITS, EVENTS, CHANNEL, SCAN, TARGET, CADENCE, NKINDS };
const char *KN[] = {"hits", "events", "channel", "scan", "target", "cadence"};
struct Result { std::string p; Kind kind; hits_t hits; std::vector<hits_t> ev; MScan sc; CM cm; };
event ev_of(const hits_t &l) { event e; e.hits = l; e.average_snr = 3; return e; }
Result make_result(H &h, Kind k, bool big = false) {
    Rng &r = h.rng;
    Result o;
    o.kind = k;
    o.p = scratch(h, cat("s04.", KN[k]));
    int64_t mul = big ? 20 : 1;
    switch (k) {
    case HITS: o.hits = rand_hits(r, r.range(1, 5) * mul, 0); write_hits_to_capnp_file(o.hits, o.p); break;
    case EVENTS: {
        std::vector<event> v;
        for (int64_t i = 0, n = r.range(1, 4); i < n; ++i) { o.ev.push_back(rand_hits(r, r.range(0, 4) * mul, 0)); v.push_back(ev_of(o.ev.back())); }
        write_events_to_file(v, o.p);
        break;
    }
    case CHANNEL: {
        o.hits = rand_hits(r, r.range(0, 4) * mul, 0);
        auto c = meta_cc(r, rand_meta(r), 3, o.hits, false);
        o.cm = cm_of(c);
        write_coarse_channel_hits_to_capnp_file(c, o.p);
        break;
    }
    default: {
        auto b = mem_built(r, 0);
        o.sc = b.w;
        if (k == SCAN) write_scan_hits_to_capnp_file(b.s, o.p);
        else {
            observation_target t;
            t._scans.push_back(b.s);
            if (k == TARGET) write_observation_target_hits_to_capnp_files(t, o.p);
            else { cadence c; c._observations.push_back(t); write_cadence_hits_to_capnp_files(c, o.p); }
        }
    }
    }
    return o;
}
// read the file and walk everything in it; what: filled for comparison
void read_result(const Result &o, hits_t *hits, std::vector<hits_t> *ev, std::optional<scan> *sc, std::optional<coarse_channel> *cc) {
    auto walk = [](scan &s) {
        for (int i = 0; i < s.get_number_coarse_channels(); ++i) { auto c = s.read_coarse_channel(i); if (c) (void)c->hits(); }
        (void)s.source_name();
        (void)s.fch1();
    };
    switch (o.kind) {
    case HITS: { auto l = read_hits_from_file(o.p); if (hits) *hits = l; break; }
    case EVENTS: { auto v = read_events_from_file(o.p); if (ev) for (auto &e : v) ev->push_back(e.hits); break; }
    case CHANNEL: { auto c = read_coarse_channel_hits_from_capnp_file(o.p); (void)c.hits(); if (cc) cc->emplace(c); break; }
    case SCAN: { auto s = read_scan_hits_from_file(o.p); walk(s); if (sc) sc->emplace(s); break; }
    case TARGET: { auto t = read_observation_target_hits_from_capnp_files(o.p); for (auto &s : t._scans) walk(s); if (sc && t._scans.size() == 1) sc->emplace(t._scans[0]); break; }
    default: {
        auto c = read_cadence_hits_from_capnp_files(o.p);
        for (auto &t : c._observations) for (auto &s : t._scans) walk(s);
        if (sc && c._observations.size() == 1 && c._observations[0]._scans.size() == 1) sc->emplace(c._observations[0]._scans[0]);
    }
    }
}
void S04(H &h) {
    quiet();
    h.rule = "a result file cut at one byte, or with altered bytes, read back completely";
    h.cases("truncated", 150, 2000, [&] {
        Rng &r = h.rng;
        Kind k = (Kind)r.range(0, NKINDS - 1);
        bool big = r.chance(0.15);
        auto o = make_result(h, k, big);
        auto bytes = slurp(o.p);
        // every cut of a small file, sampled cuts of a big one
        std::vector<size_t> cuts;
        if (bytes.size() <= 1500) for (size_t i = 0; i <= bytes.size(); ++i) cuts.push_back(i);
        else { for (int i = 0; i < 400; ++i) cuts.push_back((size_t)r.range(0, (int64_t)bytes.size() - 1)); for (size_t i = 0; i < 40; ++i) { cuts.push_back(i); cuts.push_back(bytes.size() - i); } }
        int fds = open_fds();
        for (auto cut : cuts) {
            h.describe(cat(KN[k], " file of ", bytes.size(), " bytes cut to ", cut));
            spew(o.p, bytes.substr(0, cut));
            hits_t hits; std::vector<hits_t> ev; std::optional<scan> sc; std::optional<coarse_channel> cc;
            bool ref = refused([&] { read_result(o, &hits, &ev, &sc, &cc); });
            h.count(ref ? "cuts_refused" : "cuts_read");
            if (cut == bytes.size()) h.check(!ref, cat("intact-", KN[k], "-refused"), [&] { return h.desc; });
            if (ref) continue;
            std::string d;
            switch (k) {
            case HITS: d = hits_diff(o.hits, hits, true); if (d.empty() && cut == bytes.size() && hits.size() != o.hits.size()) d = "hits missing from the intact file"; break;
            case EVENTS:
                if (ev.size() > o.ev.size()) d = cat("wrote ", o.ev.size(), " events, read ", ev.size());
                for (size_t i = 0; i < ev.size() && d.empty(); ++i) d = hits_diff(o.ev[i], ev[i]);
                if (d.empty() && cut == bytes.size() && ev.size() != o.ev.size()) d = "events missing from the intact file";
                break;
            case CHANNEL: d = cc ? cm_diff(o.cm, cm_of(*cc)) + hits_diff(o.hits, cc->hits()) : "nothing"; break;
            default: {
                if (!sc) { d = "structure differs"; break; }
                d = cm_diff(o.sc.md, cm_of(*sc));
                if ((size_t)sc->get_number_coarse_channels() != o.sc.cc.size()) d += " channels lost";
                else for (size_t i = 0; i < o.sc.cc.size(); ++i) d += hits_diff(o.sc.hits[i], sc->read_coarse_channel((int)i)->hits());
            }
            }
            h.check(d.empty(), cat("truncated-", KN[k], "-invented"), [&] { return cat("cut at ", cut, " of ", bytes.size(), ": ", d); });
        }
        h.check(open_fds() == fds, "descriptor-leak", [&] { return cat(fds, " -> ", open_fds()); });
        h.nontrivial(cat(KN[k], bytes.size(), h.case_no));
        unlink(o.p.c_str());
    });
    h.cases("corrupted", 500, 12000, [&] {
        Rng &r = h.rng;
        Kind k = (Kind)r.range(0, NKINDS - 1);
        auto o = make_result(h, k, r.chance(0.1));
        auto intact = slurp(o.p);
        // several damaged versions in one child: what a crash leaves is attributed to the case, the last one tried is in the file
        std::vector<std::string> vs;
        int n = 30;
        for (int i = 0; i < n; ++i) {
            auto b = intact;
            int m = (int)r.pick({1, 1, 1, 2, 4, 16});
            for (int j = 0; j < m; ++j) {
                // the message's tables and pointers sit at the start of segments: aim there half of the time
                size_t at = (size_t)r.range(0, (int64_t)(r.chance(0.5) ? std::min<size_t>(b.size(), 200) : b.size()) - 1);
                b[at] = (char)(r.chance(0.5) ? (uint8_t)b[at] ^ (1 << r.range(0, 7)) : (int)r.pick({0, 255, 127, 128, 1, 2, 4, 8, (int)r.range(0, 255)}));
            }
            if (r.chance(0.1)) b.resize((size_t)r.range(0, (int64_t)b.size()));
            if (r.chance(0.1)) { size_t at = (size_t)r.range(0, (int64_t)b.size()); b.insert(at, std::string((size_t)r.range(1, 64), (char)r.range(0, 255))); }
            vs.push_back(b);
        }
        h.describe(cat(KN[k], " file of ", intact.size(), " bytes, ", n, " damaged versions"));
        auto e = in_child(h, [&] {
            int rc = 0;
            for (auto &b : vs) {
                spew(o.p, b);
                if (refused([&] { read_result(o, nullptr, nullptr, nullptr, nullptr); })) rc = 50;
            }
            return rc;
        });
        h.count("damaged_files", n);
        if (e.kind == 1) h.fail(cat(KN[k], "-", e.key), cat(e.detail, "\nlast file: ", slurp(o.p).size(), " bytes"));
        if (e.kind == 3) h.count("resource_limits");
        h.nontrivial(cat(KN[k], intact.size(), h.case_no));
        unlink(o.p.c_str());
    });
    h.cases("foreign", 100, 2000, [&] {
        // files of other kinds: another result kind, text, dat, zeros, noise
        Rng &r = h.rng;
        Kind k = (Kind)r.range(0, NKINDS - 1);
        auto o = make_result(h, k);
        std::string b, d;
        switch (r.range(0, 5)) {
        case 0: { auto other = make_result(h, (Kind)r.range(0, NKINDS - 1)); b = slurp(other.p); d = cat("a ", KN[other.kind], " file"); break; }
        case 1: b = "# -------------------------- o --------------------------\n# File ID: x\n"; d = "text"; break;
        case 2: b = std::string((size_t)r.range(0, 4096), '\0'); d = cat(b.size(), " zeros"); break;
        case 3: b = std::string((size_t)r.range(0, 4096), '\xff'); d = cat(b.size(), " ones"); break;
        case 4: for (int64_t i = 0, n = r.range(0, 2000); i < n; ++i) b += (char)r.range(0, 255); d = "noise"; break;
        default: { // a plausible segment table in front of noise
            uint32_t t[2] = {0, (uint32_t)r.range(0, 300)};
            b.assign((char *)t, 8);
            for (int64_t i = 0, n = 8 * r.range(0, 300); i < n; ++i) b += (char)(r.chance(0.6) ? 0 : r.range(0, 255));
            d = "table and noise";
        }
        }
        spew(o.p, b);
        h.describe(cat("reading ", d, " as ", KN[k]));
        auto e = in_child(h, [&] { return refused([&] { read_result(o, nullptr, nullptr, nullptr, nullptr); }) ? 50 : 0; });
        if (e.kind == 1) h.fail(cat(KN[k], "-foreign-", e.key), e.detail);
        h.nontrivial(cat(h.desc, h.case_no));
        unlink(o.p.c_str());
    });
    h.cases("unopenable", 12, 60, [&] {
        Rng &r = h.rng;
        Kind k = (Kind)(h.case_no % NKINDS);
        Result o;
        o.kind = k;
        o.p = r.pick({h.scratch + "/absent", h.scratch + "/no/such/dir/f", std::string(), h.scratch + "/" + std::string(300, 'n')});
        h.describe(cat(KN[k], " from '", o.p.substr(0, 200), "'"));
        int fds = open_fds();
        h.check(refused([&] { read_result(o, nullptr, nullptr, nullptr, nullptr); }), cat("unopenable-", KN[k], "-unreported"), [&] { return h.desc; });
        h.check(open_fds() == fds, "descriptor-leak", [&] { return cat(fds, " -> ", open_fds()); });
        for (auto f : {"dat", "turboseti", "nonsense", "CAPNP"}) {
            auto ok = make_result(h, HITS);
            h.check(refused([&] { (void)read_hits_from_file(ok.p, f); }) && refused([&] { (void)read_scan_hits_from_file(ok.p, f); }), "unreadable-format-accepted", [&] { return std::string(f); });
        }
        h.nontrivial(h.desc);
    });
}

void S05(H &h) {
    quiet();
    h.rule = "an event list written and read back, non-trivial when events hold different numbers of hits";
    auto compare = [&](const std::vector<hits_t> &w, const std::vector<event> &g, const std::string &k) {
        if (!h.check(g.size() == w.size(), k + "-count", [&] { return cat("wrote ", w.size(), " events, read ", g.size()); })) return;
        for (size_t i = 0; i < w.size(); ++i) {
            auto d = hits_diff(w[i], g[i].hits);
            h.check(d.empty(), k + "-hits", [&] { return cat("event ", i, ": ", d); });
        }
        h.count("events_compared", w.size());
    };
    h.cases("events", 400, 6000, [&] {
        Rng &r = h.rng;
        std::vector<hits_t> w;
        std::vector<event> v;
        int64_t n = r.pick({(int64_t)0, (int64_t)1, r.range(2, 8), r.range(2, 8), r.range(8, 60)});
        std::string sizes;
        for (int64_t i = 0; i < n; ++i) {
            w.push_back(rand_hits(r, r.pick({(int64_t)0, (int64_t)1, (int64_t)2, (int64_t)3, (int64_t)6, r.range(0, 40)}), (int)r.range(0, 1)));
            v.push_back(ev_of(w.back()));
            sizes += cat(" ", w.back().size());
        }
        h.describe(cat("events with hits", sizes));
        auto p = scratch(h, "s05");
        int fds = open_fds();
        write_events_to_file(v, p);
        auto g = read_events_from_file(p);
        compare(w, g, "events");
        write_events_to_file(g, p + "2");
        h.check(slurp(p) == slurp(p + "2"), "events-rewrite-differs", [] { return std::string(); });
        h.check(open_fds() == fds, "descriptor-leak", [&] { return cat(fds, " -> ", open_fds()); });
        h.nontrivial(cat(sizes, w.empty() || w[0].empty() ? 0 : w[0].front().start_freq_MHz));
        unlink(p.c_str()); unlink((p + "2").c_str());
    });
    h.cases("faults", 40, 500, [&] {
        Rng &r = h.rng;
        std::vector<event> v;
        for (int64_t i = 0, n = r.range(0, 10); i < n; ++i) v.push_back(ev_of(rand_hits(r, r.range(0, 6), 0)));
        auto p = scratch(h, "s05w");
        h.describe(cat(v.size(), " events"));
        write_faults(h, p, "events", [&](const std::string &q) { write_events_to_file(v, q); });
        h.nontrivial(cat("faults", h.case_no));
        unlink(p.c_str());
    });
    h.cases("many-events", 1, 4, [&] {
        Rng &r = h.rng;
        std::vector<hits_t> w;
        std::vector<event> v;
        for (int i = 0; i < 66000; ++i) { w.push_back(rand_hits(r, i < 4000 ? r.range(0, 6) : r.range(0, 1), 0)); v.push_back(ev_of(w.back())); }
        h.describe("66000 events");
        auto p = scratch(h, "s05n");
        write_events_to_file(v, p);
        compare(w, read_events_from_file(p), "many-events");
        h.nontrivial("many-events");
        unlink(p.c_str());
    });
    h.cases("many-hits", 1, 3, [&] {
        Rng &r = h.rng;
        // an event bigger than the serialiser's default message limit, between two small ones
        std::vector<hits_t> w{rand_hits(r, 3, 0), rand_hits(r, h.thorough() ? 900000 : 400000, 0), rand_hits(r, 2, 0)};
        std::vector<event> v;
        for (auto &x : w) v.push_back(ev_of(x));
        h.describe(cat("an event with ", w[1].size(), " hits"));
        auto p = scratch(h, "s05m");
        write_events_to_file(v, p);
        compare(w, read_events_from_file(p), "many-hits");
        h.nontrivial("many-hits");
        unlink(p.c_str());
    });
}
// S06: hits, events and their texts by value
bool same_hit(const hit &a, const hit &b) {
    // by value, not by representation: 0 and -0 are equal
    return a.start_freq_index == b.start_freq_index && a.start_freq_MHz == b.start_freq_MHz && a.start_time_sec == b.start_time_sec && a.duration_sec == b.duration_sec && a.rate_index == b.rate_index &&
           a.drift_rate_Hz_per_sec == b.drift_rate_Hz_per_sec && a.power == b.power && a.time_span_steps == b.time_span_steps && a.snr == b.snr && a.bandwidth == b.bandwidth && a.binwidth == b.binwidth &&
           a.rfi_counts == b.rfi_counts && a.coarse_channel_number == b.coarse_channel_number;
}
std::string tell(const hit &a) {
    std::string t = cat(a.start_freq_index, " ", a.start_freq_MHz, " ", a.start_time_sec, " ", a.duration_sec, " ", a.rate_index, " ", a.drift_rate_Hz_per_sec, " ", a.power, " ", a.time_span_steps, " ", a.snr, " ", a.bandwidth, " ", a.binwidth, " ", a.coarse_channel_number);
    for (auto &[f, c] : a.rfi_counts) t += cat(" ", (int)f, ":", (int)c);
    return t;
}
// some hits differ from this one in few fields, possibly by as little as a value can
hit near_hit(Rng &r, hit a) {
    static const flag_values flags[] = {flag_values::filter_rolloff, flag_values::low_spectral_kurtosis, flag_values::high_spectral_kurtosis, flag_values::magnitude, flag_values::sigma_clip, flag_values::RESERVED_0};
    auto f64 = [&](double &x) { x = r.chance(0.5) ? std::nextafter(x, r.chance(0.5) ? 1e300 : -1e300) : r.chance(0.3) ? -x : rf64(r); };
    auto f32_ = [&](float &x) { x = r.chance(0.5) ? std::nextafterf(x, r.chance(0.5) ? 1e30f : -1e30f) : r.chance(0.3) ? -x : rf32(r); };
    auto i64 = [&](int64_t &x) { x = r.chance(0.5) ? x + r.pick({-1, 1}) : r.chance(0.3) ? x + ((int64_t)1 << 32) : (int64_t)r.next(); };
    for (int k = (int)r.pick({0, 1, 1, 1, 2, 3}); k > 0; --k) switch (r.range(0, 12)) {
    case 0: i64(a.start_freq_index); break; case 1: f64(a.start_freq_MHz); break; case 2: f64(a.start_time_sec); break; case 3: f64(a.duration_sec); break;
    case 4: i64(a.rate_index); break; case 5: f64(a.drift_rate_Hz_per_sec); break; case 6: f64(a.power); break; case 7: i64(a.time_span_steps); break;
    case 8: f32_(a.snr); break; case 9: f32_(a.bandwidth); break; case 10: i64(a.binwidth); break; case 11: i64(a.coarse_channel_number); break;
    default: {
        auto f = flags[r.range(0, 5)];
        if (r.chance(0.3)) a.rfi_counts.erase(f); else a.rfi_counts[f] = (uint8_t)r.range(0, 255);
    }
    }
    auto fin = [](double &x) { if (!std::isfinite(x)) x = 7; };
    fin(a.start_freq_MHz); fin(a.start_time_sec); fin(a.duration_sec); fin(a.drift_rate_Hz_per_sec); fin(a.power);
    if (!std::isfinite(a.snr)) a.snr = 7;
    if (!std::isfinite(a.bandwidth)) a.bandwidth = 7;
    return a;
}
// the number the text gives for a name, "" when it gives none
std::string named(const std::string &t, const std::string &name, size_t from = 0) {
    auto at = t.find(name, from);
    if (at == std::string::npos) return "";
    at += name.size();
    auto e = t.find_first_of(",)\"\n ]", at);
    return t.substr(at, e == std::string::npos ? e : e - at);
}
bool prints(const std::string &s, double v, double abs_tol, double rel = 0) {
    if (s.empty()) return false;
    char *e;
    double g = strtod(s.c_str(), &e);
    return !*e && std::abs(g - v) <= abs_tol * 1.0001 + (rel + 1e-15) * std::abs(v);
}
std::string hit_text(const std::string &t, const hit &a) {
    std::string d;
    auto one = [&](const char *n, double v, double tol, double rel = 0, size_t from = 0) { auto s = named(t, n, from); if (!prints(s, v, tol, rel)) d += cat(" ", n, s, " want ", v, ";"); };
    one(".start_freq_MHz=", a.start_freq_MHz, 0.5e-6);
    one(".drift_rate_Hz_per_second=", a.drift_rate_Hz_per_sec, 0.5e-6);
    one(".SNR=", a.snr, 0.5e-6);
    one(".power=", a.power, 0.5);
    one("bandwidth=", a.bandwidth, 0.05);
    auto ix = [&](const std::string &s, int64_t w) { if (s != std::to_string(w)) d += cat(" index ", s, " want ", w, ";"); };
    ix(named(t, ".index="), a.start_freq_index);
    auto at = t.find(".drift_rate");
    ix(at == std::string::npos ? "" : named(t, ".index=", at), a.rate_index);
    return d;
}
void S06(H &h) {
    quiet();
    h.rule = "a pair or set of hits differing in few fields, a hit's state put into another hit, or the text of a hit or event (values differ)";
    h.cases("pair", 40000, 1000000, [&] {
        Rng &r = h.rng;
        hit a = rand_hit(r, (int)r.range(0, 1)), b = near_hit(r, a), c = near_hit(r, r.chance(0.5) ? a : b);
        h.describe(cat("a ", tell(a), " | b ", tell(b), " | c ", tell(c)));
        bool eq = same_hit(a, b);
        h.count(eq ? "equal" : "different");
        h.check((a == b) == eq && (b == a) == eq, "hit-equality", [&] { return cat("said ", a == b); });
        h.check(a == a && !(a < a), "hit-equality", [] { return std::string("not equal to itself"); });
        bool lt = a < b, gt = b < a;
        h.check(eq ? !lt && !gt : lt != gt, "hit-order", [&] { return cat("a<b ", lt, " b<a ", gt, " equal ", eq); });
        h.check(!(a < b && b < c) || a < c, "hit-order-transitive", [] { return std::string(); });
        h.check(!(b < a && c < b) || c < a, "hit-order-transitive", [] { return std::string(); });
        h.nontrivial(h.desc);
    });
    h.cases("set", 400, 8000, [&] {
        Rng &r = h.rng;
        std::vector<hit> v;
        hit a = rand_hit(r, (int)r.range(0, 1));
        for (int64_t n = r.range(1, 60); n > 0; --n) { v.push_back(r.chance(0.3) && !v.empty() ? r.pick(v) : near_hit(r, a)); if (r.chance(0.2)) a = v.back(); }
        h.describe(cat(v.size(), " hits"));
        std::vector<hit> distinct;
        for (auto &x : v) if (std::none_of(distinct.begin(), distinct.end(), [&](const hit &y) { return same_hit(x, y); })) distinct.push_back(x);
        std::set<hit> s(v.begin(), v.end());
        h.check(s.size() == distinct.size(), "hit-set", [&] { return cat(s.size(), " kept of ", distinct.size()); });
        for (auto &x : distinct) h.check(s.count(x) == 1, "hit-set", [&] { return cat("lost ", tell(x)); });
        std::list<hit> l(v.begin(), v.end());
        l.sort();
        h.check(std::is_sorted(l.begin(), l.end()), "hit-sort", [] { return std::string(); });
        l.unique();
        h.check(l.size() == distinct.size(), "hit-sort", [&] { return cat(l.size(), " unique of ", distinct.size()); });
        for (auto &x : v) h.check((size_t)std::count(v.begin(), v.end(), x) == (size_t)std::count_if(v.begin(), v.end(), [&](const hit &y) { return same_hit(x, y); }), "hit-count", [] { return std::string(); });
        h.nontrivial(cat(tell(a), v.size()));
    });
    h.cases("state", 10000, 200000, [&] {
        Rng &r = h.rng;
        hit a = near_hit(r, rand_hit(r, (int)r.range(0, 1))), b = r.chance(0.5) ? near_hit(r, a) : rand_hit(r, 1), c = b;
        h.describe(cat("state of ", tell(a), " into ", tell(b)));
        auto st = a.get_state();
        a.power += 1; a.rfi_counts[flag_values::RESERVED_1] = 9; // the state is not tied to the hit
        b.set_state(st);
        hit fresh{};
        fresh.set_state(st);
        h.check(b.get_state() == st && fresh.get_state() == st, "hit-state", [&] { return tell(b); });
        a.power -= 1; a.rfi_counts.erase(flag_values::RESERVED_1);
        bool power_back = true;
        { hit q = a; q.set_state(st); a.power = q.power; power_back = std::get<6>(st) == q.power; }
        h.check(power_back && same_hit(a, b) && same_hit(a, fresh), "hit-state", [&] { return cat("got ", tell(b), " and ", tell(fresh), " want ", tell(a)); });
        hit d = c; // copies are independent
        d.set_state(st);
        h.check(c == c && !(d < a) && !(a < d), "hit-copy", [] { return std::string(); });
        h.nontrivial(h.desc);
    });
    h.cases("text", 4000, 60000, [&] {
        Rng &r = h.rng;
        int k = (int)r.range(0, 2);
        if (k < 2) {
            hit a = rand_hit(r, (int)r.range(0, 1));
            h.describe(cat("text of ", tell(a)));
            auto t = a.repr(), d = hit_text(t, a);
            h.check(d.empty(), "hit-text", [&] { return cat(t, ":", d); });
        } else {
            event e;
            for (int64_t n = r.chance(0.01) ? r.range(60, 400) : r.range(0, 5); n > 0; --n) e.hits.push_back(rand_hit(r, 0));
            e.starting_frequency_Hz = r.uni(1e9, 12e9); e.average_power = (float)r.uni(1, 1e9); e.average_snr = (float)r.uni(1, 1e4); e.average_drift_rate_Hz_per_sec = r.uni(-5, 5);
            e.event_start_seconds = r.uni(4e9, 6e9); e.event_end_seconds = e.event_start_seconds + r.uni(1, 900);
            h.describe(cat("event of ", e.hits.size()));
            auto t = e.repr();
            auto head = t.substr(0, t.find(".hits=["));
            bool ok = prints(named(head, ".starting_frequency_Hz="), e.starting_frequency_Hz, 0.5) && prints(named(head, ".event_start_seconds="), e.event_start_seconds, 0, 1e-12) && prints(named(head, ".event_end_seconds="), e.event_end_seconds, 0, 1e-12);
            // the drift rate and the power follow each other without a space
            auto at = head.find(".average_drift_rate_Hz_per_sec=");
            ok = ok && at != std::string::npos && std::abs(strtod(head.c_str() + at + 31, nullptr) - e.average_drift_rate_Hz_per_sec) <= 0.00501;
            ok = ok && prints(named(head, ".average_power="), e.average_power, 0, 1e-6) && prints(named(head, ".average_snr="), e.average_snr, 0, 1e-6);
            h.check(ok, "event-text", [&] { return t; });
            size_t pos = head.size();
            std::string d;
            for (auto &x : e.hits) {
                pos = t.find("hit: ", pos);
                if (pos == std::string::npos) { d += " a hit is missing;"; break; }
                d += hit_text(t.substr(pos, t.find("hit: ", pos + 1) - pos), x);
                ++pos;
            }
            if (pos != std::string::npos && t.find("hit: ", pos) != std::string::npos) d += " a hit too many;";
            h.check(d.empty(), "event-text", [&] { return cat(t, ":", d); });
        }
        h.count("texts");
        h.nontrivial(cat(h.desc, h.case_no));
    });
}
} // namespace

int main(int argc, char **argv) { return vh::run_main(argc, argv, {{"S01", S01}, {"S02", S02}, {"S03", S03}, {"S04", S04}, {"S05", S05}, {"S06", S06}}); }
