// results written to files: random hits and scans, comparison of what is read back, the dat text
#pragma once
#include "bx.hpp"
#include <core/event.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <file_types/events_file.hpp>
#include <file_types/hits_file.hpp>
#include <limits>
#include <list>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace ser {
using namespace bx;
using hits_t = std::list<hit>;
using CC     = std::shared_ptr<coarse_channel>;

// ---- values
inline int64_t rint32(Rng &r) {
    switch (r.range(0, 5)) {
    case 0: return r.pick({(int64_t)0, (int64_t)-1, (int64_t)1, (int64_t)INT32_MIN, (int64_t)INT32_MAX, (int64_t)INT32_MIN + 1});
    case 1: return r.range(INT32_MIN, INT32_MAX);
    default: return r.range(0, 1 << 20);
    }
}
inline double rf64(Rng &r) {
    switch (r.range(0, 6)) {
    case 0: return r.pick({0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 5e-324, 1e-310, -5e-324});
    case 1: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
    case 2: return r.uni(-5, 5);
    default: return r.uni(1000, 12000);
    }
}
inline float rf32(Rng &r) {
    switch (r.range(0, 5)) {
    case 0: return r.pick({0.0f, -0.0f, 1.0f, -1.0f, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), 1e-45f, -1e-45f});
    case 1: { uint32_t b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); return std::isfinite(f) ? f : 2.5f; }
    case 2: return (float)r.uni(-10, 10);
    default: return (float)r.uni(0, 1e6);
    }
}
// a double kept by the file as a float: exact floats and values that need rounding, never beyond the range of float
inline double rdf(Rng &r) {
    if (r.chance(0.5)) return rf32(r);
    return r.chance(0.5) ? r.uni(-1e5, 1e12) : (50000 + r.uni() * 10000) * 86400.0;
}
inline hit rand_hit(Rng &r, int style) {
    hit h{};
    if (style == 0) { // what a search produces
        h.start_freq_index = r.range(0, 1 << 20); h.start_freq_MHz = r.uni(1000, 12000); h.start_time_sec = (50000 + r.uni() * 10000) * 86400.0;
        h.duration_sec = r.uni(1, 400); h.rate_index = r.range(-1000, 1000); h.drift_rate_Hz_per_sec = r.uni(-5, 5); h.power = r.uni(1, 1e9);
        h.time_span_steps = r.range(1, 64); h.snr = (float)r.uni(1, 1e5); h.bandwidth = (float)r.uni(1, 1000); h.binwidth = r.range(1, 2000);
        h.coarse_channel_number = r.range(0, 63);
    } else {
        h.start_freq_index = rint32(r); h.start_freq_MHz = rf64(r); h.start_time_sec = rdf(r); h.duration_sec = rdf(r); h.rate_index = rint32(r);
        h.drift_rate_Hz_per_sec = rf64(r); h.power = rdf(r); h.time_span_steps = rint32(r); h.snr = rf32(r); h.bandwidth = rf32(r);
        h.binwidth = r.chance(0.5) ? r.range(0, 1 << 24) : r.range(-(1 << 24), 1 << 24); h.coarse_channel_number = rint32(r);
    }
    if (r.chance(0.5)) { h.rfi_counts[flag_values::low_spectral_kurtosis] = (uint8_t)r.range(0, 255); h.rfi_counts[flag_values::sigma_clip] = 3; }
    return h;
}
inline hits_t rand_hits(Rng &r, int64_t n, int style) {
    hits_t l;
    for (int64_t i = 0; i < n; ++i) {
        l.push_back(rand_hit(r, style));
        if (r.chance(0.05)) l.push_back(l.back()); // equal neighbours stay two hits
    }
    return l;
}
template <class A> bool same(A a, A b) { return memcmp(&a, &b, sizeof a) == 0; }
inline std::string hit_diff(const hit &w, const hit &g) {
    std::string d;
    auto add = [&](const char *n, auto a, auto b) { d += cat(" ", n, " wrote ", a, " read ", b, ";"); };
    if (w.start_freq_index != g.start_freq_index) add("index", w.start_freq_index, g.start_freq_index);
    if (!same(w.start_freq_MHz, g.start_freq_MHz)) add("frequency", w.start_freq_MHz, g.start_freq_MHz);
    if (!same((double)(float)w.start_time_sec, g.start_time_sec)) add("start_time", (float)w.start_time_sec, g.start_time_sec);
    if (!same((double)(float)w.duration_sec, g.duration_sec)) add("duration", (float)w.duration_sec, g.duration_sec);
    if (w.rate_index != g.rate_index) add("rate_index", w.rate_index, g.rate_index);
    if (!same(w.drift_rate_Hz_per_sec, g.drift_rate_Hz_per_sec)) add("drift", w.drift_rate_Hz_per_sec, g.drift_rate_Hz_per_sec);
    if (!same((double)(float)w.power, g.power)) add("power", (float)w.power, g.power);
    if (w.time_span_steps != g.time_span_steps) add("time_span", w.time_span_steps, g.time_span_steps);
    if (!same(w.snr, g.snr)) add("snr", w.snr, g.snr);
    if (!same(w.bandwidth, g.bandwidth)) add("bandwidth", w.bandwidth, g.bandwidth);
    if (w.binwidth != g.binwidth) add("binwidth", w.binwidth, g.binwidth);
    if (w.coarse_channel_number != g.coarse_channel_number) add("coarse_channel", w.coarse_channel_number, g.coarse_channel_number);
    return d;
}
// "" when g equals w field by field; prefix: g may stop early
inline std::string hits_diff(const hits_t &w, const hits_t &g, bool prefix = false) {
    if (prefix ? g.size() > w.size() : g.size() != w.size()) return cat("wrote ", w.size(), " hits, read ", g.size());
    auto a = w.begin();
    size_t i = 0;
    for (auto b = g.begin(); b != g.end(); ++a, ++b, ++i) {
        auto d = hit_diff(*a, *b);
        if (!d.empty()) return cat("hit ", i, " of ", w.size(), ":", d);
    }
    return "";
}
inline size_t file_size(const std::string &p) { struct stat s; return stat(p.c_str(), &s) ? 0 : (size_t)s.st_size; }
inline std::string slurp(const std::string &p) {
    std::string b;
    if (FILE *f = fopen(p.c_str(), "rb")) { char buf[1 << 16]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, n); fclose(f); }
    return b;
}
inline void spew(const std::string &p, const std::string &b) { FILE *f = fopen(p.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); }
// the sanitizer's own thread opens /proc/self/statm now and then: what lies in /proc is not counted
inline int open_fds() {
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) {
        while (auto *e = readdir(d)) {
            char b[4096];
            auto k = readlink(cat("/proc/self/fd/", e->d_name).c_str(), b, sizeof b - 1);
            if (k <= 0) continue;
            b[k] = 0;
            n += strncmp(b, "/proc/", 6) != 0;
        }
        closedir(d);
    }
    return n;
}
// run a writer with at most `limit` bytes allowed in any file
template <class F> bool limited(size_t limit, F f, std::string *why = nullptr) {
    struct rlimit old, rl;
    getrlimit(RLIMIT_FSIZE, &old);
    rl = old;
    rl.rlim_cur = limit;
    auto sig = signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &rl);
    bool r = refused(f, why);
    setrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, sig);
    return r;
}
// a writer either completes or throws, wherever the medium fills up
template <class F> void write_faults(H &h, const std::string &p, const std::string &what, F f) {
    Rng &r = h.rng;
    f(p);
    auto full = slurp(p);
    for (int i = 0; i < 3; ++i) {
        size_t lim = r.pick({(size_t)r.range(0, (int64_t)full.size()), full.size() ? full.size() - 1 : 0, full.size(), (size_t)0, full.size() / 2});
        unlink(p.c_str());
        bool ref = limited(lim, [&] { f(p); });
        auto now = slurp(p);
        h.check(ref || now == full, what + "-incomplete-write-unreported", [&] { return cat("limit ", lim, " of ", full.size(), " bytes: no exception, file has ", now.size(), " bytes"); });
        h.check(lim < full.size() || !ref, what + "-write-refused", [&] { return cat("limit ", lim, " of ", full.size()); });
        h.check(now.size() <= full.size() && full.compare(0, now.size(), now) == 0, what + "-torn-content", [&] { return cat("limit ", lim); });
        h.count("write_faults");
    }
    if (!full.empty()) {
        h.check(refused([&] { f("/dev/full"); }), what + "-dev-full-unreported", [&] { return cat(full.size(), " bytes to a full device: no exception"); });
    }
    int fds = open_fds();
    h.check(refused([&] { f(h.scratch + "/no/such/dir/x"); }), what + "-unopenable-write-unreported", [] { return std::string(); });
    h.check(refused([&] { f(h.scratch); }), what + "-directory-write-unreported", [] { return std::string(); });
    h.check(open_fds() == fds, what + "-descriptor-leak", [&] { return cat(fds, " descriptors before, ", open_fds(), " after"); });
    // a longer old file is replaced
    spew(p, full + std::string(5000, 'x') + full);
    f(p);
    h.check(slurp(p) == full, what + "-old-content-left", [&] { return cat(slurp(p).size(), " bytes, expected ", full.size()); });
}

inline int64_t pick_count(Rng &r) { return r.pick({(int64_t)0, (int64_t)1, (int64_t)2, r.range(3, 20), r.range(3, 20), r.range(20, 300)}); }

// ---- structures
struct CM { double fch1, foff, tstart, tsamp, ra, dec; int64_t tel, steps, chans, num; std::string src; };
inline CM cm_of(const coarse_channel &c) { return {c.fch1(), c.foff(), c.tstart(), c.tsamp(), c.src_raj(), c.src_dej(), c.telescope_id(), c.ntsteps(), c.nchans(), c._coarse_channel_number, c.source_name()}; }
inline CM cm_of(const scan &c) { return {c.fch1(), c.foff(), c.tstart(), c.tsamp(), c.src_raj(), c.src_dej(), c.telescope_id(), c.ntsteps(), c.nchans(), 0, c.source_name()}; }
inline std::string cm_diff(const CM &a, const CM &b) {
    std::string d;
    auto f = [&](const char *n, auto x, auto y) { if (!(x == y)) d += cat(" ", n, " wrote ", x, " read ", y, ";"); };
    f("fch1", a.fch1, b.fch1); f("foff", a.foff, b.foff); f("tstart", a.tstart, b.tstart); f("tsamp", a.tsamp, b.tsamp); f("ra", a.ra, b.ra);
    f("dec", a.dec, b.dec); f("telescope", a.tel, b.tel); f("steps", a.steps, b.steps); f("channels", a.chans, b.chans); f("number", a.num, b.num);
    f("source", a.src, b.src);
    return d;
}
inline Meta ser_meta(Rng &r, bool wild) {
    Meta m = rand_meta(r);
    if (wild) {
        m.fch1 = rf64(r); m.foff = rf64(r); m.tsamp = rf64(r); m.tstart = rf64(r); m.src_dej = rf64(r); m.src_raj = rf64(r); m.telescope_id = rint32(r);
        m.source_name = r.pick({std::string(), std::string("a"), std::string(5000, 'z'), std::string("\xce\xb1 Cen, \"x\""), std::string("tab\there")});
    }
    return m;
}
inline coarse_channel meta_cc(Rng &r, const Meta &m, int64_t number, const hits_t &l, bool lazy) {
    int64_t T = r.chance(0.8) ? r.range(1, 64) : rint32(r), N = r.chance(0.8) ? r.range(1, 1 << 20) : rint32(r);
    coarse_channel c(m.fch1, m.foff, m.machine_id, m.nbits, N, T, m.nifs, m.source_name, m.src_dej, m.src_raj, m.telescope_id, m.tsamp, m.tstart, m.data_type, m.az_start, m.za_start, number);
    if (lazy) c.set_hits([l]() { return l; });
    else c.set_hits(l);
    return c;
}
struct MScan { CM md; std::vector<CM> cc; std::vector<hits_t> hits; };
struct Built { scan s; MScan w; };
// a scan held in memory
inline Built mem_built(Rng &r, int style, bool wide = false) {
    Meta m = ser_meta(r, r.chance(0.3));
    int n = (int)r.pick({1, 1, 2, 3, 5});
    if (wide && r.chance(0.05)) n = (int)r.pick({r.range(60, 70), r.range(120, 135), r.range(250, 300), r.range(500, 600)}); // as many channels as a survey's files have
    std::map<int, CC> ccs;
    MScan w;
    for (int i = 0; i < n; ++i) {
        Meta mi = m;
        mi.fch1 = m.fch1 + i;
        auto l = rand_hits(r, r.chance(0.3) ? 0 : r.range(0, 12), style);
        auto c = std::make_shared<coarse_channel>(meta_cc(r, mi, r.chance(0.8) ? i : rint32(r), l, r.chance(0.4)));
        ccs[i] = c;
        w.cc.push_back(cm_of(*c));
        w.hits.push_back(l);
    }
    // the scan's counts follow its first channel, so channels of one scan agree
    for (int i = 1; i < n; ++i) { ccs[i]->_nchans = ccs[0]->_nchans; ccs[i]->_ntsteps = ccs[0]->_ntsteps; w.cc[i].chans = w.cc[0].chans; w.cc[i].steps = w.cc[0].steps; }
    if (std::abs(ccs[0]->_nchans) > INT32_MAX / 8) for (int i = 0; i < n; ++i) w.cc[i].chans = ccs[i]->_nchans = 1000;
    scan s(ccs);
    if (r.chance(0.3)) { s.set_fch1(rf64(r)); s.set_foff(rf64(r)); s.set_tstart(rf64(r)); s.set_tsamp(rf64(r)); s.set_source_name("renamed"); s.set_src_raj(1.25); s.set_src_dej(-3.5); }
    if (r.chance(0.3)) s.set_telescope_id(rint32(r));
    if (r.chance(0.2)) s.set_nchans(r.range(1, 1 << 24));
    w.md = cm_of(s);
    return {s, w};
}
// a scan over a file, its hits produced by the pipeline when a channel is read
inline Built file_built(H &h, const std::string &p) {
    Rng &r = h.rng;
    int64_t T = r.range(2, 4), fpc = r.range(2, 8), nc = r.range(1, 5), N = fpc * nc + (r.chance(0.3) ? r.range(0, fpc - 1) : 0);
    Meta m = rand_meta(r);
    auto all = std::vector<float>(T * N, 1);
    write_fb(p, std_fb(T, N, m, all));
    scan s(p, (int)fpc);
    auto hs = std::make_shared<std::vector<hits_t>>();
    for (int i = 0; i < nc; ++i) hs->push_back(rand_hits(r, r.range(0, 6), 0));
    bool lazy = r.chance(0.5);
    s.add_coarse_channel_transform([hs, lazy](coarse_channel c) {
        auto l = hs->at(c._coarse_channel_number);
        if (lazy) c.set_hits([l]() { return l; });
        else c.set_hits(l);
        return c;
    });
    int64_t lo = 0;
    MScan w;
    if (nc > 1 && r.chance(0.3)) {
        lo = r.range(0, nc - 1);
        int64_t cnt = r.range(1, nc - lo);
        s = s.slice_scan_channels(lo, cnt);
        nc = cnt;
    }
    // some channels may have been read before
    for (int i = 0; i < nc; ++i) if (r.chance(0.3)) (void)s.read_coarse_channel(i);
    w.md = cm_of(s);
    for (int i = 0; i < nc; ++i) {
        CM c{m.fch1 + m.foff * (double)(fpc * (lo + i)), m.foff, m.tstart, m.tsamp, m.src_raj, m.src_dej, m.telescope_id, T, fpc, lo + i, m.source_name};
        w.cc.push_back(c);
        w.hits.push_back(hs->at(lo + i));
    }
    return {s, w};
}
inline void check_scan(H &h, const std::string &k, const MScan &w, scan &g) {
    auto d = cm_diff(w.md, cm_of(g));
    h.check(d.empty(), k + "-scan-metadata", [&] { return d; });
    if (!h.check(g.get_number_coarse_channels() == (int)w.cc.size(), k + "-channel-count", [&] { return cat("wrote ", w.cc.size(), " read ", g.get_number_coarse_channels()); })) return;
    hits_t all;
    for (size_t i = 0; i < w.cc.size(); ++i) {
        auto c = g.read_coarse_channel((int)i);
        if (!h.check(c != nullptr, k + "-channel-missing", [&] { return cat("channel ", i); })) continue;
        auto gm = cm_of(*c);
        CM wm = w.cc[i];
        if (std::abs(wm.fch1 - gm.fch1) <= 1e-9 * std::abs(wm.fch1)) gm.fch1 = wm.fch1; // computed from the scan's by another expression
        auto dm = cm_diff(wm, gm);
        h.check(dm.empty(), k + "-channel-metadata", [&] { return cat("channel ", i, ":", dm); });
        auto dh = hits_diff(w.hits[i], c->hits());
        h.check(dh.empty(), k + "-channel-hits", [&] { return cat("channel ", i, ": ", dh); });
        all.insert(all.end(), w.hits[i].begin(), w.hits[i].end());
        h.count("channels_compared");
    }
    auto dh = hits_diff(all, g.hits());
    h.check(dh.empty(), k + "-scan-hits", [&] { return dh; });
}

// ---- dat
inline std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> o;
    std::string cur;
    for (char x : s) { if (x == c) { o.push_back(cur); cur.clear(); } else cur += x; }
    o.push_back(cur);
    return o;
}
inline bool num_of(const std::string &s, double &v) {
    char *e = nullptr;
    v = strtod(s.c_str(), &e);
    return !s.empty() && e && *e == 0;
}
// the text shows v to six decimals
inline bool shows(const std::string &s, double v, double slack = 0) {
    double x;
    if (!num_of(s, x)) return false;
    return std::abs(x - v) <= 0.5000001e-6 + slack + 1e-15 * std::abs(v);
}
// "12h34m56.789s" or "-12d34m56.78s" to hours or degrees
inline bool sexagesimal(const std::string &s, char u, double &v) {
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
    size_t a = s.find(u, i), b = s.find('m', i), c = s.find('s', i);
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos || !(a < b && b < c)) return false;
    double x, y, z;
    if (!num_of(s.substr(i, a - i), x) || !num_of(s.substr(a + 1, b - a - 1), y) || !num_of(s.substr(b + 1, c - b - 1), z)) return false;
    if (x < 0 || y < 0 || y > 60 || z < 0 || z > 60) return false;
    v = (x + y / 60 + z / 3600) * (neg ? -1 : 1);
    return true;
}
inline void check_dat(H &h, const std::string &text, const CM &md, const std::string &id, const hits_t &hits) {
    auto fail = [&](const std::string &k, const std::string &d) { h.check(false, k, [&] { return d + "\n" + text.substr(0, 1200); }); };
    if (text.empty() || text.back() != '\n') return fail("dat-last-line", "does not end with a line end");
    auto lines = split(text.substr(0, text.size() - 1), '\n');
    if (lines.size() != 9 + hits.size()) return fail("dat-line-count", cat(lines.size(), " lines for ", hits.size(), " hits"));
    for (size_t i = 0; i < lines.size(); ++i)
        if ((lines[i].compare(0, 1, "#") == 0) != (i < 9)) return fail("dat-comment-lines", cat("line ", i, ": ", lines[i]));
    h.check(lines[1] == "# File ID: " + id, "dat-file-id", [&] { return lines[1] + " expected " + id; });
    h.check(lines[3] == "# Source:" + md.src, "dat-source", [&] { return lines[3]; });
    auto f = split(lines[4], '\t');
    double x, ra, dec;
    bool ok = f.size() == 3 && f[0].compare(0, 7, "# MJD: ") == 0 && f[1].compare(0, 4, "RA: ") == 0 && f[2].compare(0, 4, "DEC:") == 0;
    if (h.check(ok, "dat-position-line", [&] { return lines[4]; })) {
        h.check(num_of(f[0].substr(7), x) && x == md.tstart, "dat-mjd", [&] { return cat(lines[4], " tstart ", md.tstart); });
        h.check(sexagesimal(f[1].substr(4), 'h', ra) && std::abs(ra - md.ra) < 0.000501 / 3600 + 1e-12, "dat-ra", [&] { return cat(lines[4], " ra ", md.ra); });
        h.check(sexagesimal(f[2].substr(4), 'd', dec) && std::abs(dec - md.dec) < 0.00501 / 3600 + 1e-12, "dat-dec", [&] { return cat(lines[4], " dec ", md.dec); });
    }
    char dt[64], df[64], ol[64];
    int got = sscanf(lines[5].c_str(), "# DELTAT: %63s DELTAF(Hz): %63s max_drift_rate: n/a obs_length: %63s", dt, df, ol);
    if (h.check(got == 3, "dat-sampling-line", [&] { return lines[5]; })) {
        h.check(shows(dt, md.tsamp), "dat-deltat", [&] { return cat(lines[5], " tsamp ", md.tsamp); });
        h.check(shows(df, md.foff * 1e6), "dat-deltaf", [&] { return cat(lines[5], " foff ", md.foff); });
        h.check(shows(ol, md.steps * md.tsamp), "dat-obs-length", [&] { return cat(lines[5], " length ", md.steps * md.tsamp); });
    }
    std::vector<std::string> names{"Top_Hit_#", "Drift_Rate", "SNR", "Uncorrected_Frequency", "Corrected_Frequency", "Index", "freq_start", "freq_end", "SEFD", "SEFD_freq", "Coarse_Channel_Number", "Full_number_of_hits"};
    h.check(lines[7].compare(0, 2, "# ") == 0 && split(lines[7].substr(2), '\t') == names, "dat-column-names", [&] { return lines[7]; });
    size_t i = 0;
    for (auto &t : hits) {
        auto c = split(lines[9 + i], '\t');
        ++i;
        if (!h.check(c.size() == 12, "dat-columns", [&] { return lines[8 + i]; })) continue;
        double end = t.start_freq_MHz + t.duration_sec * t.drift_rate_Hz_per_sec / 1e6, mid = (t.start_freq_MHz + end) / 2, slack = 1e-14 * std::abs(t.start_freq_MHz);
        h.check(c[0].size() >= 6 && num_of(c[0], x) && x == (double)i, "dat-number", [&] { return lines[8 + i]; });
        h.check(shows(c[1], t.drift_rate_Hz_per_sec), "dat-drift", [&] { return cat(lines[8 + i], " drift ", t.drift_rate_Hz_per_sec); });
        h.check(shows(c[2], t.snr), "dat-snr", [&] { return cat(lines[8 + i], " snr ", t.snr); });
        h.check(shows(c[3], mid, slack) && shows(c[4], mid, slack), "dat-frequency", [&] { return cat(lines[8 + i], " mid ", mid); });
        h.check(num_of(c[5], x) && x == (double)t.start_freq_index, "dat-index", [&] { return cat(lines[8 + i], " index ", t.start_freq_index); });
        h.check(shows(c[6], t.start_freq_MHz), "dat-start", [&] { return cat(lines[8 + i], " start ", t.start_freq_MHz); });
        h.check(shows(c[7], end, slack), "dat-end", [&] { return cat(lines[8 + i], " end ", end); });
        h.check(shows(c[8], 0) && shows(c[9], 0), "dat-sefd", [&] { return lines[8 + i]; });
        h.check(num_of(c[10], x) && x == (double)t.coarse_channel_number, "dat-channel", [&] { return cat(lines[8 + i], " channel ", t.coarse_channel_number); });
        h.check(num_of(c[11], x) && x == (double)t.binwidth, "dat-width", [&] { return cat(lines[8 + i], " width ", t.binwidth); });
        h.count("dat_rows");
    }
}
inline hits_t dat_hits(Rng &r, int64_t n) {
    hits_t l;
    for (int64_t i = 0; i < n; ++i) {
        hit t = rand_hit(r, 0);
        switch (r.range(0, 7)) {
        case 0: t.snr = r.pick({0.0f, 1e-7f, 9.9999999f, 1e30f, -3.5f}); break;
        case 1: t.drift_rate_Hz_per_sec = r.pick({0.0, -1e-9, 4.9999999999, -500.0, 1e6}); break;
        case 2: t.start_freq_index = rint32(r); t.binwidth = rint32(r); t.coarse_channel_number = rint32(r); break;
        case 3: t.start_freq_MHz = r.pick({0.0, 1.5e-3, 123456.789012, 1e5}); break;
        case 4: t.duration_sec = r.pick({0.0, 1e6, 0.001}); t.drift_rate_Hz_per_sec = r.uni(-500, 500); break;
        default: break;
        }
        l.push_back(t);
    }
    return l;
}
} // namespace ser
