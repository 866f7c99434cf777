// C04 C06 F01-F04 N01-N03: stages applied to channels, scans, targets and cadences
#include "bx.hpp"
using namespace bx;

namespace {
const uint8_t ROLL = 1, LOWSK = 2, HIGHSK = 4, MAG = 16, SIG = 32;

struct Chan {
    int64_t T, N;
    std::vector<float> d;
    std::vector<uint8_t> m;
    Meta md;
    float at(int64_t t, int64_t f) const { return d[t * N + f]; }
};
coarse_channel cc_of(Rng &r, const Chan &c, int64_t number = 0, double pview = 0.35) {
    return make_cc(f32v(r, {c.T, c.N}, c.d, pview), u8v(r, {c.T, c.N}, c.m, pview), c.md, c.T, c.N, number);
}
// now and then far beyond the usual size
void stretch(Rng &r, int64_t &T, int64_t &N, int64_t maxT, int64_t maxN, double p = 0.015) {
    if (!r.chance(p)) return;
    int k = (int)r.range(0, 2);
    if (k != 1) T = r.range(maxT / 8, maxT);
    if (k != 0) N = r.range(maxN / 8, maxN);
    while (T * N > 150000) { int64_t &x = T > 4 && r.chance(0.5) ? T : N; x = (x + 1) / 2; }
}
// more channels, or more time steps, than a 16-bit number counts
void vast(Rng &r, int64_t &T, int64_t &N) {
    if (r.chance(0.3)) T = r.pick({(int64_t)32769, (int64_t)65536, r.range(33000, 100000)}), N = r.range(1, 2);
    else N = r.pick({(int64_t)65536, (int64_t)65537, r.range(66000, 300000)}), T = r.range(2, N > 100000 ? 2 : 4);
}
Chan rand_chan(Rng &r, int64_t T, int64_t N, bool premask = true) {
    Chan c{T, N, std::vector<float>(T * N), std::vector<uint8_t>(T * N, 0), rand_meta(r)};
    double mean = r.pick({0.0, 10.0, 1000.0, 1e6}), sd = r.pick({1.0, 5.0, 100.0});
    int kind = (int)r.range(0, 4);
    for (auto &x : c.d) {
        if (kind <= 1) x = (float)(mean + sd * r.normal());
        else if (kind == 2) x = (float)(sd * -std::log(1 - r.uni()));         // exponential power, as real spectra
        else x = (float)(mean + sd * r.normal() + (r.chance(0.03) ? sd * r.pick({6.0, 20.0, 500.0, -30.0}) : 0));
    }
    if (r.chance(0.2)) for (int64_t t = 0; t < T; ++t) c.d[t * N + r.range(0, N - 1)] = (float)mean;
    if (r.chance(0.3)) { int64_t f = r.range(0, N - 1); for (int64_t t = 0; t < T; ++t) c.d[t * N + f] = (float)(mean + 50 * sd); }
    if (r.chance(0.15)) { int64_t f = r.range(0, N - 1); for (int64_t t = 0; t < T; ++t) c.d[t * N + f] = 0; }
    if (r.chance(0.15)) { double unit = r.pick({1e-4, 1e-8, 1e-12, 1e6, 1e9}); for (auto &x : c.d) x = (float)(x * unit); }
    if (premask && r.chance(0.5)) for (auto &x : c.m) if (r.chance(0.3)) x = (uint8_t)r.range(0, 255);
    return c;
}
bool same_mask(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b, const std::vector<uint8_t> *amb = nullptr) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if ((a[i] ^ b[i]) & (amb ? (uint8_t)~(*amb)[i] : 255)) return false;
    return true;
}
std::string mdiff(const std::vector<uint8_t> &got, const std::vector<uint8_t> &want, int64_t N, const std::vector<uint8_t> *amb = nullptr) {
    if (got.size() != want.size()) return cat("size ", got.size(), " expected ", want.size());
    int n = 0; std::string s;
    for (size_t i = 0; i < got.size(); ++i) if ((got[i] ^ want[i]) & (amb ? (uint8_t)~(*amb)[i] : 255)) if (n++ < 4) s += cat(" [", i / N, ",", i % N, "] ", (int)got[i], " expected ", (int)want[i]);
    return cat(n, " samples differ:", s);
}
// ---- references: the flags one stage assigns (independent of the mask), and where floating point leaves them open
struct Flags { std::vector<uint8_t> bits, open; };
Flags ref_rolloff(const Chan &c, float w) {
    Flags f{std::vector<uint8_t>(c.d.size(), 0), std::vector<uint8_t>(c.d.size(), 0)};
    double e = (double)w * c.N;
    int64_t n = (int64_t)std::floor(e + 0.5);
    n = std::max<int64_t>(0, std::min<int64_t>(n, c.N));
    for (int64_t t = 0; t < c.T; ++t) for (int64_t i = 0; i < c.N; ++i) if (i < n || i >= c.N - n) f.bits[t * c.N + i] = ROLL;
    return f;
}
bool half_way(float w, int64_t N) { double e = (double)w * N; return std::abs(e - std::floor(e) - 0.5) < 1e-4; }
double ref_sk(const Chan &c, int64_t f, double N, double d, double *tol) {
    double s1 = 0, s2 = 0;
    for (int64_t t = 0; t < c.T; ++t) { s1 += c.at(t, f); s2 += (double)c.at(t, f) * c.at(t, f); }
    double M = c.T, g = (M * N * d + 1) / (M - 1), q = M * s2 / (s1 * s1);
    // s1 may cancel: relative error of the float sums
    double abs1 = 0;
    for (int64_t t = 0; t < c.T; ++t) abs1 += std::abs(c.at(t, f));
    double rel = 1e-6 * (1 + (s1 != 0 ? 4 * abs1 / std::abs(s1) : 0));
    *tol = std::abs(g) * std::abs(q) * rel + 1e-6;
    return g * (q - 1);
}
double sk_N(const Meta &m) { return std::round(m.tsamp * std::abs(1e6 * m.foff)); }
Flags ref_skflags(const Chan &c, double N, double d, double lo, double hi) {
    Flags f{std::vector<uint8_t>(c.d.size(), 0), std::vector<uint8_t>(c.d.size(), 0)};
    for (int64_t i = 0; i < c.N; ++i) {
        double tol, sk = ref_sk(c, i, N, d, &tol);
        uint8_t b = 0, o = 0;
        if (sk < lo) b |= LOWSK;
        if (sk > hi) b |= HIGHSK;
        // NaN (no power at all, or a single time sample) flags nothing; near the threshold either answer stands
        if (std::abs(sk - lo) <= tol + 1e-5 * std::abs(lo)) o |= LOWSK;
        if (std::abs(sk - hi) <= tol + 1e-5 * std::abs(hi)) o |= HIGHSK;
        if (c.T == 1 || !std::isfinite(sk)) { b = 0; o = LOWSK | HIGHSK; }
        for (int64_t t = 0; t < c.T; ++t) f.bits[t * c.N + i] = b, f.open[t * c.N + i] = o;
    }
    return f;
}
Flags ref_mag(const Chan &c, double thr, bool exact, double tol = 0) {
    Flags f{std::vector<uint8_t>(c.d.size(), 0), std::vector<uint8_t>(c.d.size(), 0)};
    for (size_t i = 0; i < c.d.size(); ++i) {
        if (c.d[i] > thr) f.bits[i] = MAG;
        if (!exact && std::abs(c.d[i] - thr) <= (tol ? tol : 1e-4 * std::abs(thr) + 1e-6)) f.open[i] = MAG;
    }
    return f;
}
void mean_std(const std::vector<float> &v, const std::function<bool(size_t)> &use, double *mean, double *sd) {
    double s = 0; size_t n = 0;
    for (size_t i = 0; i < v.size(); ++i) if (use(i)) s += v[i], ++n;
    *mean = s / n;
    double q = 0;
    for (size_t i = 0; i < v.size(); ++i) if (use(i)) q += (v[i] - *mean) * (v[i] - *mean);
    *sd = std::sqrt(q / n);
}
double mag_default(const Chan &c) { double m, s; mean_std(c.d, [](size_t) { return true; }, &m, &s); return m + 10 * s; }
// nothing returned when rounding could decide a sample (the sample sits on a bound) or when dropping a sample for good
// and looking at it again afterwards would differ: the property does not say which
std::optional<Flags> ref_sigma(const Chan &c, int iters, double low, double high) {
    size_t n = c.d.size();
    std::vector<uint8_t> rej(n, 0);
    for (int k = 0; k < iters; ++k) {
        double m, s;
        size_t kept = 0;
        for (auto x : rej) kept += !x;
        if (!kept) return std::nullopt;
        mean_std(c.d, [&](size_t i) { return !rej[i]; }, &m, &s);
        std::vector<uint8_t> next(n, 0);
        double lo = m - low * s, hi = m + high * s, tol = 2e-4 * s + 4e-6 * std::abs(m);
        for (size_t i = 0; i < n; ++i) {
            if (std::abs(c.d[i] - lo) < tol || std::abs(c.d[i] - hi) < tol) return std::nullopt;
            next[i] = c.d[i] < lo || c.d[i] > hi;
            if (rej[i] && !next[i]) return std::nullopt;
        }
        if (next == rej) break;
        rej = next;
    }
    Flags f{std::vector<uint8_t>(n, 0), std::vector<uint8_t>(n, 0)};
    for (size_t i = 0; i < n; ++i) f.bits[i] = rej[i] ? SIG : 0;
    return f;
}
std::vector<uint8_t> orred(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) { auto o = a; for (size_t i = 0; i < o.size(); ++i) o[i] |= b[i]; return o; }

// A place for one channel among others: a scan of several coarse channels whose data and flags differ, in a target of
// several scans, in a cadence of several targets. The others share only the shape and the metadata.
struct Place {
    Rng r;
    int level;
    int64_t nc, at, ns, sat, nt, tat;
    std::vector<scan> scans;
    Place(H &h, const coarse_channel &cc, int level) : r(h.rng.next()), level(level) {
        nc = r.chance(0.3) ? 1 : r.range(2, 4); at = r.range(0, nc - 1);
        ns = level < 2 || r.chance(0.4) ? 1 : r.range(2, 3); sat = r.range(0, ns - 1);
        nt = level < 3 || r.chance(0.4) ? 1 : r.range(2, 3); tat = r.range(0, nt - 1);
        for (int64_t t = 0; t < nt; ++t) for (int64_t s = 0; s < ns; ++s) {
            std::map<int, std::shared_ptr<coarse_channel>> m;
            for (int64_t k = 0; k < nc; ++k) m[(int)k] = std::make_shared<coarse_channel>(t == tat && s == sat && k == at ? cc : decoy(cc, k));
            scans.emplace_back(m);
        }
        h.count("other_channels", nc * ns * nt - 1);
    }
    coarse_channel decoy(const coarse_channel &cc, int64_t k) {
        coarse_channel d = cc;
        int64_t T = cc.ntsteps(), N = cc.nchans();
        std::vector<float> v(T * N);
        std::vector<uint8_t> m(T * N, 0);
        double mean = r.pick({-3.0, 17.0, 400.0}), sd = r.pick({0.5, 7.0, 90.0}), p = r.pick({0.0, 0.1, 0.6});
        for (auto &x : v) x = (float)(mean + sd * r.normal());
        for (auto &x : m) if (r.chance(p)) x = (uint8_t)r.range(1, 255);
        d.set_data(f32v(r, {T, N}, v, 0));
        d.set_mask(u8v(r, {T, N}, m, 0));
        d._coarse_channel_number = k;
        return d;
    }
    observation_target target(int64_t t) { return observation_target(std::vector<scan>(scans.begin() + t * ns, scans.begin() + (t + 1) * ns)); }
    cadence whole() { std::vector<observation_target> v; for (int64_t t = 0; t < nt; ++t) v.push_back(target(t)); return cadence(v); }
    // what another channel does, even refusing, is not the subject
    static void touch(scan &sc, int64_t k) {
        std::shared_ptr<coarse_channel> p;
        if (refused([&] { p = sc.read_coarse_channel((int)k); })) return;
        coarse_channel c = *p;
        refused([&] { (void)fvals(c.data()); }); refused([&] { (void)bvals(c.mask()); }); refused([&] { (void)c.noise_estimate().noise_floor(); });
    }
    // the channel, with some others computed before it and after it
    coarse_channel take(scan &sc) {
        if (r.chance(0.6)) touch(sc, r.range(0, nc - 1));
        coarse_channel out = *sc.read_coarse_channel((int)at);
        if (r.chance(0.5)) touch(sc, r.range(0, nc - 1));
        return out;
    }
    coarse_channel take(observation_target &t) {
        if (r.chance(0.4)) touch(t._scans[r.range(0, ns - 1)], r.range(0, nc - 1));
        return take(t._scans[sat]);
    }
    coarse_channel take(cadence &c) {
        if (r.chance(0.4)) touch(c._observations[r.range(0, nt - 1)]._scans[r.range(0, ns - 1)], r.range(0, nc - 1));
        return take(c._observations[tat]);
    }
};
// hand the channel to the stage alone or inside a scan, target or cadence
template <class F> coarse_channel through(H &h, coarse_channel cc, F &&stage, int level) {
    if (level == 0) return stage(cc);
    Place p(h, cc, level);
    if (level == 1) { auto x = stage(p.scans[0]); return p.take(x); }
    if (level == 2) { auto x = stage(p.target(0)); return p.take(x); }
    auto x = stage(p.whole());
    return p.take(x);
}
void check_flagged(H &h, const std::string &what, coarse_channel &out, coarse_channel &src, const Chan &c, const Flags &f) {
    auto want = orred(c.m, f.bits);
    // a bit already set stays set whatever the stage decides
    auto open = f.open;
    for (size_t i = 0; i < open.size(); ++i) open[i] &= ~c.m[i];
    auto k   = out.mask();
    auto got = bvals(k);
    ref::keep(h, k, what);
    h.check(k.shape() == std::vector<int64_t>({c.T, c.N}) && same_mask(got, want, &open), what, [&] { return cat("mask shape ", shp(k), " ", mdiff(got, want, c.N, &open)); });
    h.check(biteq(fvals(out.data()), c.d), what + "-data", [&] { return firstdiff(fvals(out.data()), c.d); });
    h.check(same_mask(bvals(src.mask()), c.m) && biteq(fvals(src.data()), c.d), what + "-source", [&] { return cat("source changed: ", mdiff(bvals(src.mask()), c.m, c.N)); });
    h.check(same_mask(bvals(out.mask()), got), what + "-second-read", [&] { return std::string("mask differs when read again"); });
    size_t on = 0;
    for (auto b : f.bits) on += b != 0;
    h.count("samples_flagged", on);
    h.count("samples_judged", f.bits.size());
}

void F01(H &h) {
    h.rule = "a channel flagged with a rolloff width (alone, or in a scan, target or cadence) whose width selects some but not all channels";
    auto one_rolloff = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(1, 6), N = r.chance(0.2) ? r.range(1, 4) : r.range(1, 80);
        stretch(r, T, N, 300, 4000);
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N);
        float w = (float)(r.chance(0.2) ? r.pick({0.0, 0.5, 1.0, 0.25, 0.6, 2.0, 1e-6, 1e9}) : r.uni(0, r.pick({0.1, 0.6, 1.2})));
        if (half_way(w, N)) w = (float)((std::floor(w * N) + 0.25) / N);
        int level = (int)r.range(0, 3);
        h.describe(cat("T ", T, " N ", N, " width ", w, " level ", level));
        auto cc = cc_of(r, c);
        auto out = through(h, cc, [&](auto x) { return flag_filter_rolloff(x, w); }, level);
        auto f = ref_rolloff(c, w);
        check_flagged(h, "rolloff", out, cc, c, f);
        int64_t n = std::llround((double)w * N);
        if (n > 0 && n < N) h.nontrivial(cat(T, ",", N, ",", n, ",", level));
    };
    h.cases("rolloff", 2500, 60000, [&] { one_rolloff(false); });
    h.cases("vast rolloff", 8, 200, [&] { one_rolloff(true); });
}

void F02(H &h) {
    h.rule = "a channel whose spectral kurtosis and flags were compared fine channel by fine channel, at least one flagged and one not";
    auto one_sk = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(2, 24), N = r.range(1, 60);
        stretch(r, T, N, 300, 4000);
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N);
        if (r.chance(0.4)) { c.md.foff = r.pick({2.79e-6, -2.79e-6, 1e-6, -1e-3}); c.md.tsamp = r.pick({18.25, 1.0, 0.3}); }
        float d = (float)r.pick({2.0, 1.0, 0.5, 4.0}), lo = (float)r.pick({0.05, 0.25, 0.8, 1.0}), hi = (float)r.pick({50.0, 5.0, 1.5, 1.2});
        double Nacc = sk_N(c.md);
        if (Nacc > 1e6) { c.md.foff = 2.79e-6; Nacc = sk_N(c.md); }
        int level = (int)r.range(0, 3);
        h.describe(cat("T ", T, " N ", N, " accumulations ", Nacc, " d ", d, " range ", lo, "..", hi, " level ", level));
        auto cc = cc_of(r, c);
        auto est = estimate_spectral_kurtosis(cc, d);
        auto ev  = fvals(est);
        h.check((int64_t)ev.size() == N, "sk-shape", [&] { return shp(est); });
        for (int64_t f = 0; f < N && f < (int64_t)ev.size(); ++f) {
            double tol, sk = ref_sk(c, f, Nacc, d, &tol);
            if (!std::isfinite(sk) || tol > 0.1 * std::abs(sk) + 0.1) { h.count("ill_conditioned_channels"); continue; }
            h.check(std::abs(ev[f] - sk) <= tol, "sk-value", [&] { return cat("channel ", f, ": ", ev[f], " expected ", sk); });
            h.count("estimates_compared");
        }
        auto out = through(h, cc, [&](auto x) { return flag_spectral_kurtosis(x, lo, hi, d); }, level);
        auto fl = ref_skflags(c, Nacc, d, lo, hi);
        check_flagged(h, "sk-flags", out, cc, c, fl);
        // the array form, with the accumulation count given
        int64_t N2 = r.range(0, 60);
        auto am = bvals(flag_spectral_kurtosis(f32v(r, {T, N}, c.d), N2, T, d, lo, hi));
        auto f2 = ref_skflags(c, (double)N2, d, lo, hi);
        std::vector<uint8_t> row(f2.bits.begin(), f2.bits.begin() + N), open(f2.open.begin(), f2.open.begin() + N);
        h.check(same_mask(am, row, &open), "sk-array-flags", [&] { return mdiff(am, row, N, &open); });
        // one channel's flags depend on that channel only: change every other channel
        int64_t keep = r.range(0, N - 1);
        Chan c2 = c;
        for (int64_t t = 0; t < T; ++t) for (int64_t f = 0; f < N; ++f) if (f != keep) c2.d[t * N + f] = (float)(r.uni() * 1e3);
        auto cc2 = cc_of(r, c2, 0, 0);
        auto out2 = flag_spectral_kurtosis(cc2, lo, hi, d);
        auto a = bvals(out.mask()), b = bvals(out2.mask());
        bool indep = true;
        for (int64_t t = 0; t < T; ++t) indep = indep && (a[t * N + keep] & 6) == (b[t * N + keep] & 6);
        if (!fl.open[keep]) h.check(indep, "sk-depends-on-other-channels", [&] { return cat("channel ", keep); });
        std::set<int> kinds(fl.bits.begin(), fl.bits.end());
        if (kinds.size() > 1) h.nontrivial(h.desc + cat(c.d[0]));
    };
    h.cases("sk", 2000, 50000, [&] { one_sk(false); });
    h.cases("vast sk", 8, 200, [&] { one_sk(true); });
}

void F03(H &h) {
    h.rule = "a magnitude or sigma-clip flagging compared sample by sample, some but not all samples flagged";
    auto one_magnitude = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(1, 10), N = r.range(1, 60);
        stretch(r, T, N, 300, 4000);
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N);
        if (T * N > 150 && r.chance(0.7)) { for (auto &x : c.d) x = (float)(100 + r.normal()); for (int k = 0; k < 2; ++k) c.d[r.range(0, T * N - 1)] = 100 + (float)r.pick({15.0, 40.0, 1e4}); }
        int level = (int)r.range(0, 3);
        bool given = r.chance(0.5);
        double mtol = 0;
        if (T * N > 150 && r.chance(0.6)) { // one sample just below or just above ten deviations
            double scale = r.pick({1.0, 1.0, 1e-8, 1e8}), mean = r.pick({0.0, 1.0, 100.0});
            for (auto &x : c.d) x = (float)(scale * (mean + r.normal()));
            float &one = c.d[r.range(0, T * N - 1)];
            double want = 10 * (1 + r.pick({-1, 1}) * r.pick({5e-4, 1e-3, 1e-2})), lo = mean * scale, hi = (mean + 1e4) * scale;
            for (int k = 0; k < 60; ++k) {
                double mid = (lo + hi) / 2, m, s;
                one = (float)mid;
                mean_std(c.d, [](size_t) { return true; }, &m, &s);
                (one - m < want * s ? lo : hi) = mid;
            }
            double m, s;
            mean_std(c.d, [](size_t) { return true; }, &m, &s);
            mtol = 4e-6 * std::abs(m) + 2e-4 * s;
            given = given && r.chance(0.3);
            h.count("samples_near_ten_deviations");
        }
        float thr = r.chance(0.5) ? c.d[r.range(0, T * N - 1)] : (float)(c.d[0] + r.normal() * 10); // often exactly a sample: must not be flagged
        h.describe(cat("magnitude T ", T, " N ", N, given ? cat(" threshold ", thr) : std::string(" default"), " level ", level));
        auto cc = cc_of(r, c);
        auto out = through(h, cc, [&](auto x) { return given ? flag_magnitude(x, thr) : flag_magnitude(x); }, level);
        auto f = given ? ref_mag(c, thr, true) : ref_mag(c, mag_default(c), false, mtol);
        check_flagged(h, given ? "magnitude" : "magnitude-default", out, cc, c, f);
        auto am = bvals(flag_magnitude(f32v(r, {T, N}, c.d), thr));
        auto fa = ref_mag(c, thr, true);
        h.check(am == fa.bits, "magnitude-array", [&] { return mdiff(am, fa.bits, N); });
        std::set<int> kinds(f.bits.begin(), f.bits.end());
        if (kinds.size() > 1) h.nontrivial(h.desc);
    };
    h.cases("magnitude", 1200, 30000, [&] { one_magnitude(false); });
    h.cases("vast magnitude", 8, 200, [&] { one_magnitude(true); });
    auto one_sigmaclip = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(1, 10), N = r.range(2, 80);
        stretch(r, T, N, 300, 4000);
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N);
        int kind = (int)r.range(0, 3);
        if (kind >= 1) {
            double sd = r.pick({1.0, 10.0}), mean = r.pick({0.0, 50.0});
            for (auto &x : c.d) x = (float)(mean + sd * r.normal());
            int n = (int)r.range(1, std::max<int64_t>(1, T * N / 12)); // outliers of decreasing strength, so iterations matter
            double s = 6;
            for (int k = 0; k < n; ++k) { c.d[r.range(0, T * N - 1)] = (float)(mean + sd * s * (r.chance(0.3) ? -1 : 1)); s *= kind == 3 ? 1.9 : 1.2; if (s > 1e5) s = 6; }
            if (r.chance(0.2) && mean == 0) for (int64_t i = 0; i + 1 < T * N; i += 2) c.d[i + 1] = -c.d[i]; // the mean stays while the deviation shrinks
        }
        if (r.chance(0.3)) { // the unit the samples are in does not matter
            double u = r.pick({1e-4, 1e-6, 1e-8, 1e-10, 1e6, 1e9});
            for (auto &x : c.d) x = (float)(x * u);
            h.count("scaled_channels");
        }
        int iters = (int)r.pick({0, 1, 2, 3, 5, 20});
        float lo = (float)r.pick({3.0, 2.0, 5.0, 1.5}), hi = (float)r.pick({4.0, 3.0, 2.0, 6.0});
        int level = (int)r.range(0, 3);
        bool defaults = r.chance(0.1);
        if (defaults) { iters = 5; lo = 3; hi = 4; }
        bool edge = r.chance(0.06); // samples exactly at the limits are inside
        if (edge) {
            for (auto &x : c.d) x = 0; // mean and deviation are zero however they are computed
            h.count("samples_at_the_limits", T * N);
        }
        h.describe(cat("sigma clip T ", T, " N ", N, " iterations ", iters, " low ", lo, " high ", hi, " level ", level));
        auto cc = cc_of(r, c);
        auto out = through(h, cc, [&](auto x) { return defaults ? flag_sigmaclip(x) : flag_sigmaclip(x, iters, lo, hi); }, level);
        auto f = edge ? std::optional(ref_mag(c, INFINITY, true)) : ref_sigma(c, iters, lo, hi);
        if (!f) { h.count("sigmaclip_open_cases"); return; }
        check_flagged(h, "sigmaclip", out, cc, c, *f);
        auto am = bvals(flag_sigmaclip(f32v(r, {T, N}, c.d), iters, lo, hi));
        h.check(am == f->bits, "sigmaclip-array", [&] { return mdiff(am, f->bits, N); });
        std::set<int> kinds(f->bits.begin(), f->bits.end());
        auto f1 = ref_sigma(c, 1, lo, hi);
        if (f1 && f1->bits != f->bits) h.count("cases_where_iterations_matter");
        if (kinds.size() > 1) h.nontrivial(h.desc);
    };
    h.cases("sigmaclip", 1800, 40000, [&] { one_sigmaclip(false); });
    h.cases("vast sigmaclip", 8, 200, [&] { one_sigmaclip(true); });
}

void F04(H &h) {
    h.rule = "a sequence of at least two different flagging stages, on a channel with flags already set, compared with the union of what each assigns";
    auto one_sequence = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(2, 10), N = r.range(2, 50);
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N);
        if (sk_N(c.md) > 1e6) c.md.foff = 2.79e-6;
        int level = (int)r.range(0, 3);
        auto cc = cc_of(r, c);
        std::vector<std::function<coarse_channel(coarse_channel)>> fc;
        std::vector<std::function<scan(scan)>> fs;
        std::vector<std::function<observation_target(observation_target)>> ft;
        std::vector<std::function<cadence(cadence)>> fd;
        auto add = [&](auto f) { fc.push_back(f); fs.push_back(f); ft.push_back(f); fd.push_back(f); };
        std::vector<uint8_t> bits(T * N, 0), open(T * N, 0);
        std::string d = cat("T ", T, " N ", N, " level ", level, ":");
        int n = (int)r.range(1, 7);
        std::set<int> kinds;
        for (int i = 0; i < n; ++i) {
            int k = (int)r.range(0, 4);
            Flags f;
            if (k == 0) {
                float w = (float)r.uni(0, 0.6);
                if (half_way(w, N)) w = 0.1f / N;
                f = ref_rolloff(c, w);
                add([w](auto x) { return flag_filter_rolloff(x, w); });
                d += cat(" rolloff ", w);
            } else if (k == 1) {
                float lo = (float)r.pick({0.05, 0.8}), hi = (float)r.pick({50.0, 1.2});
                f = ref_skflags(c, sk_N(c.md), 2, lo, hi);
                add([lo, hi](auto x) { return flag_spectral_kurtosis(x, lo, hi, 2.0f); });
                d += cat(" sk ", lo, "..", hi);
            } else if (k == 2) {
                float thr = c.d[r.range(0, T * N - 1)];
                f = ref_mag(c, thr, true);
                add([thr](auto x) { return flag_magnitude(x, thr); });
                d += cat(" magnitude ", thr);
            } else if (k == 3) {
                f = ref_mag(c, mag_default(c), false);
                add([](auto x) { return flag_magnitude(x); });
                d += " magnitude";
            } else {
                int it = (int)r.pick({1, 3, 5});
                auto s = ref_sigma(c, it, 3, 4);
                if (!s) { s = Flags{std::vector<uint8_t>(T * N, 0), std::vector<uint8_t>(T * N, SIG)}; }
                f = *s;
                add([it](auto x) { return flag_sigmaclip(x, it, 3.0f, 4.0f); });
                d += cat(" sigmaclip ", it);
            }
            kinds.insert(k);
            // a bit decided by any one stage is decided
            for (size_t j = 0; j < bits.size(); ++j) { bits[j] |= f.bits[j] & ~f.open[j]; open[j] |= f.open[j]; }
        }
        for (size_t j = 0; j < bits.size(); ++j) open[j] &= ~bits[j];
        h.describe(d);
        coarse_channel out = cc;
        std::vector<coarse_channel> mid;
        if (level == 0) for (auto &f : fc) { mid.push_back(out); coarse_channel nx = f(out); out = nx; }
        else {
            Place p(h, cc, level);
            if (level == 1) { scan sc = p.scans[0]; for (auto &f : fs) sc = f(sc); out = p.take(sc); }
            else if (level == 2) { auto t = p.target(0); for (auto &f : ft) t = f(t); out = p.take(t); }
            else { auto cd = p.whole(); for (auto &f : fd) cd = f(cd); out = p.take(cd); }
        }
        check_flagged(h, "union", out, cc, c, Flags{bits, open});
        // flags only grow from stage to stage
        std::vector<uint8_t> prev = c.m;
        mid.push_back(out);
        for (auto &x : mid) {
            auto now = bvals(x.mask());
            bool ok = now.size() == prev.size();
            for (size_t j = 0; ok && j < now.size(); ++j) ok = (now[j] & prev[j]) == prev[j];
            h.check(ok, "flag-cleared", [&] { return d; });
            prev = now;
        }
        h.count("stages_applied", n);
        if (kinds.size() > 1) h.nontrivial(d);
    };
    h.cases("sequence", 2000, 50000, [&] { one_sequence(false); });
    h.cases("vast sequence", 6, 100, [&] { one_sequence(true); });
}

void N01(H &h) {
    h.rule = "a noise estimate compared with the statistics of exactly the selected samples, with some samples flagged (and those made huge or NaN)";
    auto one_noise = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(1, 8), N = r.range(1, 60);
        stretch(r, T, N, 1000, 100000, 0.01);
        if (r.chance(0.004)) T = r.pick<int64_t>({1, 2, 8, 256}), N = 65536 / T;
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N, false);
        double p = r.pick({0.0, 0.1, 0.5, 0.9, 1.0});
        bool masked = r.chance(0.7);
        size_t flagged = 0;
        for (size_t i = 0; i < c.m.size(); ++i) if (r.chance(p)) { c.m[i] = (uint8_t)(r.chance(0.5) ? 1 << r.range(0, 7) : r.range(1, 255)); ++flagged; if (masked && r.chance(0.7)) c.d[i] = r.pick({3e38f, NAN, -1e30f, INFINITY, 1e12f}); }
        int level = (int)r.range(0, 3);
        noise_power_estimate_options o;
        o.estimator_method = r.chance(0.1) ? noise_power_estimator::MEAN_ABSOLUTE_DEVIATION : noise_power_estimator::STDDEV;
        o.masked_estimate = masked;
        h.describe(cat("T ", T, " N ", N, " flagged ", flagged, masked ? " masked" : " unmasked", o.estimator_method == noise_power_estimator::STDDEV ? "" : " MAD", " level ", level));
        auto cc = cc_of(r, c);
        noise_stats st;
        std::string why;
        bool bad = o.estimator_method != noise_power_estimator::STDDEV || (masked && flagged == c.m.size());
        bool ref = refused([&] {
            if (level == 0) st = estimate_noise_power(cc, o);
            else st = through(h, cc, [&](auto x) {
                if constexpr (std::is_same_v<decltype(x), coarse_channel>) { x.set_noise_estimate(estimate_noise_power(x, o)); return x; }
                else return estimate_noise_power(x, o);
            }, level).noise_estimate();
            (void)st.noise_floor();
        }, &why);
        if (!h.check(ref == bad, bad ? "unusable-estimate-returned" : "estimate-refused", [&] { return cat(why, ref ? "" : cat(" floor ", st.noise_floor(), " power ", st.noise_power())); }) || bad) { if (bad) h.count("refusals"); return; }
        double m, s;
        mean_std(c.d, [&](size_t i) { return !masked || c.m[i] == 0; }, &m, &s);
        double scale = 0;
        for (size_t i = 0; i < c.d.size(); ++i) if (!masked || c.m[i] == 0) scale = std::max(scale, (double)std::abs(c.d[i]));
        h.check(std::abs(st.noise_floor() - m) <= 2e-5 * scale, "noise-floor", [&] { return cat(st.noise_floor(), " expected ", m); });
        h.check(std::abs(st.noise_power() - s) <= 1e-4 * s + 2e-5 * scale, "noise-power", [&] { return cat(st.noise_power(), " expected ", s); });
        h.check(close(st.noise_amplitude(), std::sqrt((double)st.noise_power()), 1e-5, 1e-7), "noise-amplitude", [&] { return cat(st.noise_amplitude(), " expected sqrt of ", st.noise_power()); });
        h.check(biteq(fvals(cc.data()), c.d) && same_mask(bvals(cc.mask()), c.m), "noise-source", [&] { return std::string("estimating changed the channel"); });
        if (!masked) { auto a = estimate_noise_power(f32v(r, {T, N}, c.d), o); h.check(a.noise_floor() == st.noise_floor() && a.noise_power() == st.noise_power(), "noise-array", [&] { return cat(a.noise_floor(), " ", a.noise_power()); }); }
        // flagged samples have no influence: change them all
        if (masked && flagged) {
            Chan c2 = c;
            for (size_t i = 0; i < c2.d.size(); ++i) if (c2.m[i]) c2.d[i] = (float)(1e20 * r.normal());
            auto cc2 = cc_of(r, c2);
            auto s2 = estimate_noise_power(cc2, o);
            h.check(close(s2.noise_floor(), st.noise_floor(), 1e-5, 1e-6 * scale) && close(s2.noise_power(), st.noise_power(), 1e-5, 1e-6 * scale), "flagged-influence", [&] { return cat(s2.noise_floor(), " ", s2.noise_power(), " and ", st.noise_floor(), " ", st.noise_power()); });
            h.nontrivial(h.desc);
        }
        h.count("estimates_compared");
    };
    h.cases("noise", 2500, 60000, [&] { one_noise(false); });
    h.cases("vast noise", 8, 200, [&] { one_noise(true); });
}

void N02(H &h) {
    h.rule = "a normalised channel (alone or in a scan, target or cadence) compared sample by sample";
    auto one_normalize = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(1, 8), N = r.range(1, 60);
        stretch(r, T, N, 300, 20000);
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N);
        double scale = std::pow(10, r.range(-6, 10));
        for (auto &x : c.d) x = (float)(x * scale);
        if (r.chance(0.3)) for (auto &x : c.d) x = std::abs(x);
        int64_t where = r.chance(0.3) ? r.pick({(int64_t)0, T * N - 1, N - 1, (T - 1) * N}) : r.range(0, T * N - 1);
        float mx = *std::max_element(c.d.begin(), c.d.end());
        c.d[where] = std::max(mx, 1e-6f) * 2;
        mx = c.d[where];
        int level = (int)r.range(0, 3);
        h.describe(cat("T ", T, " N ", N, " maximum ", mx, " at ", where, " level ", level));
        auto cc = cc_of(r, c, 3);
        auto out = through(h, cc, [&](auto x) { return normalize(x); }, level);
        auto v = fvals(out.data());
        ref::keep(h, out.data(), "normalize");
        bool ok = v.size() == c.d.size();
        std::string d;
        for (size_t i = 0; ok && i < v.size(); ++i) if (!close(v[i], (double)c.d[i] / mx, 1e-6, 1e-38)) { ok = false; d = cat("sample ", i, " ", v[i], " expected ", c.d[i] / mx); }
        h.check(ok && out.data().shape() == std::vector<int64_t>({T, N}), "normalized", [&] { return cat(shp(out.data()), " ", d); });
        if (ok) h.check(std::abs(*std::max_element(v.begin(), v.end()) - 1) < 1e-6, "peak", [&] { return cat(*std::max_element(v.begin(), v.end())); });
        h.check(same_mask(bvals(out.mask()), c.m) && out.fch1() == c.md.fch1 && out.foff() == c.md.foff && out.nchans() == N && out.ntsteps() == T && out.source_name() == c.md.source_name && out._coarse_channel_number == 3, "normalize-rest", [&] { return std::string("mask or metadata changed"); });
        h.check(biteq(fvals(cc.data()), c.d) && same_mask(bvals(cc.mask()), c.m), "normalize-source", [&] { return std::string("source changed"); });
        h.count("samples_compared", v.size());
        if (T * N > 1) h.nontrivial(h.desc);
    };
    h.cases("normalize", 2500, 50000, [&] { one_normalize(false); });
    h.cases("vast normalize", 8, 200, [&] { one_normalize(true); });
}

void N03(H &h) {
    h.rule = "an equalised channel compared sample by sample, a refused response, or a generated response compared with a direct transform of an independent prototype";
    auto one_equalize = [&](bool big) {
        Rng &r = h.rng;
        int64_t T = r.range(1, 6), N = r.range(1, 50);
        if (big) vast(r, T, N);
        Chan c = rand_chan(r, T, N);
        int how = (int)r.range(0, 5); // 0..3 right length, 4 one value, 5 wrong length
        int64_t L = how == 4 ? 1 : how == 5 ? r.pick({N + 1, N - 1, 2 * N, (int64_t)2, (int64_t)0, T}) : N;
        if (how == 5 && (L == N || L == 1 || L < 1)) L = N + 2;
        std::vector<float> resp(L);
        for (auto &x : resp) x = (float)r.pick({0.5, 1.0, 2.0, r.uni(0.01, 1), r.uni(0.01, 1)});
        int level = (int)r.range(0, 3);
        bool file = r.chance(0.25);
        h.describe(cat("T ", T, " N ", N, " response of ", L, file ? " from a file" : "", " level ", level));
        bland::ndarray hr = f32({L}, resp);
        if (!file && r.chance(0.4)) { // a strided view as response
            std::vector<float> wide(2 * L + 1, 99);
            for (int64_t i = 0; i < L; ++i) wide[1 + 2 * i] = resp[i];
            auto base = f32({2 * L + 1}, wide);
            auto v = bland::slice(base, 0, 1, 1 + 2 * (L - 1) + 1, 2);
            hr = bland::ndarray(v);
        }
        auto path = scratch(h, "resp.f32");
        if (file) { FILE *f = fopen(path.c_str(), "wb"); fwrite(resp.data(), 4, L, f); fclose(f); }
        auto cc = cc_of(r, c);
        std::vector<float> v;
        std::optional<coarse_channel> out;
        std::string why;
        bool ref = refused([&] { out = through(h, cc, [&](auto x) { return file ? equalize_passband_filter(x, std::string_view(path)) : equalize_passband_filter(x, hr); }, level); v = fvals(out->data()); }, &why);
        if (!ref) ref::keep(h, out->data(), "equalize");
        bool bad = L != N && L != 1;
        h.check(ref == bad, bad ? "wrong-length-accepted" : "response-refused", [&] { return why; });
        if (file) unlink(path.c_str());
        if (ref || bad) { h.count("responses_refused"); return; }
        bool ok = (int64_t)v.size() == T * N;
        std::string d;
        for (int64_t i = 0; ok && i < T * N; ++i) { double w = (double)c.d[i] / resp[L == 1 ? 0 : i % N]; if (!close(v[i], w, 1e-6, 1e-38)) { ok = false; d = cat("[", i / N, ",", i % N, "] ", v[i], " expected ", w); } }
        h.check(ok && out->data().shape() == std::vector<int64_t>({T, N}), "equalized", [&] { return cat(shp(out->data()), d); });
        h.check(same_mask(bvals(out->mask()), c.m) && biteq(fvals(cc.data()), c.d), "equalize-source", [&] { return std::string("mask or source changed"); });
        h.check(biteq(fvals(hr), resp), "response-changed", [&] { return std::string(); });
        h.count("samples_compared", v.size());
        h.nontrivial(h.desc);
    };
    h.cases("equalize", 1500, 30000, [&] { one_equalize(false); });
    h.cases("vast equalize", 6, 100, [&] { one_equalize(true); });
    h.cases("response", 150, 1500, [&] {
        Rng &r = h.rng;
        bool wide = r.chance(0.1);
        int64_t nc = 2 * (wide ? r.range(20, 130) : r.range(1, 8)), fine = 2 * (wide ? r.range(1, 4) : r.range(1, 16)), taps = r.range(1, std::min<int64_t>(8, fine));
        if (!wide && r.chance(0.08)) nc = 2 * r.range(1, 3), fine = 2 * r.pick({(int64_t)1024, r.range(500, 4000), r.range(4000, 20000)}), taps = r.range(1, 8); // fine resolution
        h.describe(cat("response of ", fine, " fine x ", nc, " coarse, ", taps, " taps per channel"));
        auto R = gen_coarse_channel_response((int)fine, (int)nc, (int)taps);
        auto v = fvals(R);
        ref::keep(h, R, "response");
        int64_t nt = taps * nc, L = nc * fine;
        std::vector<double> p(nt);
        for (int64_t n = 0; n < nt; ++n) {
            double t = n - (nt - 1) / 2.0, x = M_PI * t / nc;
            p[n] = (std::abs(x) < 1e-12 ? 1 : std::sin(x) / x) * (nt > 1 ? 0.54 - 0.46 * std::cos(2 * M_PI * n / (nt - 1)) : 0.08);
        }
        auto taps_got = fvals(firdes((int)nt, 1.0f / nc, "hamming"));
        bool tok = (int64_t)taps_got.size() == nt;
        for (int64_t n = 0; tok && n < nt; ++n) tok = std::abs(taps_got[n] - p[n]) < 2e-5;
        if (nt > 1) h.check(tok, "prototype", [&] { return vec(taps_got); });
        std::vector<double> H2(L); // squared magnitude, zero frequency in the middle
        for (int64_t k = 0; k < L; ++k) {
            double re = 0, im = 0, w = 2 * M_PI * ((k + L / 2) % L) / L;
            for (int64_t n = 0; n < nt; ++n) re += p[n] * std::cos(w * n), im -= p[n] * std::sin(w * n);
            H2[k] = re * re + im * im;
        }
        std::vector<double> want(fine, 0);
        for (int64_t k = fine / 2; k < L - fine / 2; ++k) want[(k - fine / 2) % fine] += H2[k];
        double mx = *std::max_element(want.begin(), want.end());
        h.check((int64_t)v.size() == fine, "response-length", [&] { return shp(R); });
        if ((int64_t)v.size() != fine || nt < 2) return;
        for (int64_t i = 0; i < fine; ++i) {
            h.check(std::abs(v[i] - want[i] / mx) < 2e-4, "response-value", [&] { return cat("channel ", i, ": ", v[i], " expected ", want[i] / mx); });
            h.check(v[i] > 0 && v[i] <= 1.0001f, "response-range", [&] { return cat("channel ", i, ": ", v[i]); });
            if (i > 0) h.check(std::abs(v[i] - v[fine - i]) < 2e-4, "response-symmetry", [&] { return cat("channels ", i, " and ", fine - i, ": ", v[i], " ", v[fine - i]); });
        }
        h.check(std::abs(*std::max_element(v.begin(), v.end()) - 1) < 1e-5, "response-peak", [&] { return vec(v); });
        h.nontrivial(h.desc);
    });
}

// ------------------------------------------------------------------------------------------------- C04 and C06
struct Stage {
    std::string name;
    std::function<coarse_channel(coarse_channel)> c;
    std::function<scan(scan)> s;
    std::function<observation_target(observation_target)> t;
    std::function<cadence(cadence)> d;
};
template <class F> Stage mk(const std::string &n, F f) { return Stage{n, f, f, f, f}; }
Stage rand_stage(Rng &r, int64_t N, bool ordered, int pos) {
    int k = ordered ? pos : (int)r.range(0, 9);
    switch (k) {
    case 0: { float w = (float)r.uni(0, 0.3); return mk(cat("rolloff ", w), [w](auto x) { return flag_filter_rolloff(x, w); }); }
    case 1: { float lo = (float)r.pick({0.05, 0.3}), hi = (float)r.pick({50.0, 3.0}); return mk(cat("sk ", lo, " ", hi), [lo, hi](auto x) { return flag_spectral_kurtosis(x, lo, hi, 2.0f); }); }
    case 2: return r.chance(0.5) ? mk("magnitude", [](auto x) { return flag_magnitude(x); }) : mk("magnitude 2", [](auto x) { return flag_magnitude(x, 2.0f); });
    case 3: { int it = (int)r.range(1, 5); return mk(cat("sigmaclip ", it), [it](auto x) { return flag_sigmaclip(x, it, 3.0f, 4.0f); }); }
    case 4: return mk("normalize", [](auto x) { return normalize(x); });
    case 5: {
        std::vector<float> v(N);
        for (auto &x : v) x = (float)r.pick({0.5, 2.0, 0.25});
        auto hr = f32({N}, v);
        return mk("equalize", [hr](auto x) { return equalize_passband_filter(x, hr); });
    }
    case 6: {
        noise_power_estimate_options o;
        o.estimator_method = noise_power_estimator::STDDEV;
        o.masked_estimate = r.chance(0.5);
        return mk(cat("noise ", o.masked_estimate), [o](auto x) {
            if constexpr (std::is_same_v<decltype(x), coarse_channel>) { x.set_noise_estimate(estimate_noise_power(x, o)); return x; }
            else return estimate_noise_power(x, o);
        });
    }
    case 7: {
        integrate_drifts_options o;
        o.desmear = r.chance(0.5); o.low_rate = r.range(-4, 0); o.high_rate = r.range(1, 5); o.rate_step_size = r.range(1, 2);
        return mk(cat("integrate ", o.low_rate, "..", o.high_rate), [o](auto x) { return integrate_drifts(x, o); });
    }
    case 8: {
        hit_search_options o;
        o.method = r.chance(0.5) ? hit_search_methods::CONNECTED_COMPONENTS : hit_search_methods::LOCAL_MAXIMA;
        o.snr_threshold = (float)r.pick({2.0, 4.0}); o.neighbor_l1_dist = (int)r.range(1, 4);
        return mk(cat("search ", (int)o.method), [o](auto x) {
            if constexpr (std::is_same_v<decltype(x), coarse_channel>) { x.set_hits(hit_search(x, o)); return x; }
            else return hit_search(x, o);
        });
    }
    default: { filter_options o; o.filter_zero_drift = r.chance(0.5); return mk("filter hits", [o](auto x) { return filter_hits(x, o); }); }
    }
}
// everything a user can read from a channel
struct Snap {
    bool threw = false;
    std::string data, mask, noise, plane, hits, meta;
    std::vector<double> freqs; // frequencies may be computed along different paths: compared to 1e-9 MHz
    bool same_freqs(const Snap &o) const {
        if (freqs.size() != o.freqs.size()) return false;
        for (size_t i = 0; i < freqs.size(); ++i) if (std::abs(freqs[i] - o.freqs[i]) > 1e-9) return false;
        return true;
    }
    bool operator==(const Snap &o) const { return same_freqs(o) && threw == o.threw && data == o.data && mask == o.mask && noise == o.noise && plane == o.plane && hits == o.hits && meta == o.meta; }
    std::string diff(const Snap &o) const {
        std::string s;
        auto f = [&](const char *n, const std::string &a, const std::string &b) {
            if (a == b) return;
            size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
            s += cat(" ", n, " differ at byte ", i, " of ", a.size(), "/", b.size());
            if (!strcmp(n, "hits") || !strcmp(n, "noise")) s += cat(": ", a.substr(0, 200), " | ", b.substr(0, 200));
        };
        if (!same_freqs(o)) s += " frequencies differ: " + vec(freqs) + " | " + vec(o.freqs);
        if (threw != o.threw) s += cat(" exception ", threw, "/", o.threw);
        f("data", data, o.data); f("mask", mask, o.mask); f("noise", noise, o.noise); f("plane", plane, o.plane); f("hits", hits, o.hits); f("metadata", meta, o.meta);
        return s;
    }
};
std::string bytes(const bland::ndarray &a) {
    std::string s = vec(a.shape());
    if (a.dtype().code == kDLFloat) for (auto x : fvals(a)) s.append((char *)&x, 4);
    else for (auto x : bvals(a)) s += (char)x;
    return s;
}
std::string hit_str(const hit &h) {
    std::string s = cat(h.start_freq_index, ",", h.start_time_sec, ",", h.duration_sec, ",", h.rate_index, ",", h.drift_rate_Hz_per_sec, ",", h.power, ",", h.time_span_steps, ",", h.snr, ",", h.bandwidth, ",", h.binwidth, ",", h.coarse_channel_number);
    for (auto &k : h.rfi_counts) if (k.second) s += cat(" ", (int)k.first, ":", (int)k.second);
    return s;
}
Snap snap(coarse_channel cc, Rng &r) {
    Snap s;
    std::vector<double> hf;
    for (int k : r.chance(0.5) ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{4, 3, 2, 1, 0}) {
        if (k == 0) s.data = bytes(cc.data());
        if (k == 1) s.mask = bytes(cc.mask());
        if (k == 2) try { auto n = cc.noise_estimate(); s.noise = cat(n.noise_floor(), " ", n.noise_power()); } catch (const std::logic_error &) { s.noise = "none"; }
        if (k == 3) try {
            auto p = cc.integrated_drift_plane();
            s.plane = bytes(p.integrated_drift_plane());
            auto f = p.integrated_rfi();
            s.plane += bytes(f.filter_rolloff) + bytes(f.low_spectral_kurtosis) + bytes(f.high_spectral_kurtosis);
            for (auto &d : p.drift_rate_info()) s.plane += cat(d.index_in_plane, " ", d.drift_rate_Hz_per_sec, ";");
        } catch (const std::runtime_error &) { s.plane = "none"; }
        if (k == 4) try {
            std::vector<std::pair<std::string, double>> hs;
            for (auto &x : cc.hits()) hs.push_back({hit_str(x), x.start_freq_MHz});
            std::sort(hs.begin(), hs.end());
            for (auto &x : hs) { s.hits += x.first + "; "; hf.push_back(x.second); }
            s.hits += cat(hs.size());
        } catch (const std::logic_error &) { s.hits = "none"; }
    }
    s.freqs = hf;
    s.freqs.push_back(cc.fch1());
    s.meta = cat(cc.foff(), " ", cc.nchans(), cc.ntsteps(), cc.source_name(), cc.tstart(), cc.tsamp(), cc._coarse_channel_number);
    return s;
}
Snap snap_read(scan &sc, int i, Rng &r) {
    Snap s;
    try { s = snap(*sc.read_coarse_channel(i), r); } catch (const std::exception &e) { s = Snap(); s.threw = true; }
    return s;
}
Snap snap_direct(coarse_channel cc, const std::vector<Stage> &st, size_t n, Rng &r) {
    Snap s;
    try {
        std::vector<coarse_channel> chain{cc};
        for (size_t i = 0; i < n; ++i) chain.push_back(st[i].c(chain.back()));
        s = snap(chain.back(), r);
    } catch (const std::exception &e) { s = Snap(); s.threw = true; }
    return s;
}
struct Built { scan sc; std::vector<coarse_channel> base; };
// a scan over a file or memory, and its channels rebuilt independently of it
Built build(H &h, Rng &r, const Meta &m, int64_t T, int64_t N, int64_t nc, bool file, const std::string &name) {
    std::vector<std::vector<float>> ch;
    std::vector<float> all(T * N * nc);
    double base = r.pick({10.0, 100.0});
    for (int64_t t = 0; t < T; ++t) for (int64_t c = 0; c < N * nc; ++c) all[t * N * nc + c] = (float)(base + r.normal());
    for (int64_t i = 0; i < nc; ++i) {
        int64_t f = r.range(0, N - 1), drift = r.range(-3, 3);
        for (int64_t t = 0; t < T; ++t) { int64_t x = f + std::llround((double)drift * t / std::max<int64_t>(1, T - 1)); if (x >= 0 && x < N) all[t * N * nc + i * N + x] += (float)r.uni(20, 40); }
    }
    Built b;
    for (int64_t i = 0; i < nc; ++i) {
        ch.push_back(slice_chan(all, T, N * nc, i * N, N));
        Meta mi = m;
        mi.fch1 = m.fch1 + m.foff * (double)(N * i);
        b.base.push_back(make_cc(f32({T, N}, ch.back()), u8({T, N}, std::vector<uint8_t>(T * N, 0)), mi, T, N, i));
    }
    if (file) { auto p = scratch(h, name); write_fb(p, std_fb(T, N * nc, m, all)); b.sc = scan(p, (int)N); }
    else b.sc = mem_scan(m, T, N, ch, &r);
    return b;
}
std::vector<Stage> rand_stages(Rng &r, int64_t N, std::string *d) {
    std::vector<Stage> st;
    bool full = r.chance(0.5);
    if (full) { // a workable pipeline, steps dropped or doubled now and then
        for (int k : {4, 5, 0, 1, 3, 2, 6, 7, 8, 9}) { if (k < 6 && r.chance(0.5)) continue; if (r.chance(0.03)) continue; st.push_back(rand_stage(r, N, true, k)); if (k < 6 && r.chance(0.1)) st.push_back(rand_stage(r, N, true, k)); }
        for (size_t i = 0; i + 1 < st.size() && r.chance(0.3); ++i) if (r.chance(0.3)) std::swap(st[i], st[i + 1]);
        if (r.chance(0.3)) for (int k : {6, 7, 8}) if (k == 8 || r.chance(0.4)) st.push_back(rand_stage(r, N, true, k)); // searched again, with other options
    } else { int n = (int)r.range(1, 7); for (int i = 0; i < n; ++i) st.push_back(rand_stage(r, N, false, 0)); }
    for (auto &s : st) *d += "; " + s.name;
    return st;
}

noise_stats stats_of_channel(float floor, float power) {
    noise_stats n;
    n.set_noise_floor(f32({1}, {floor}));
    n.set_noise_power(f32({1}, {power}));
    return n;
}
void C04(H &h) {
    quiet();
    h.rule = "a pipeline of at least two stages on a scan of which every intermediate object was read in random order and compared with the stages applied to each channel alone";
    h.cases("pipeline", 350, 9000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(2, 6), N = r.range(6, 24), nc = r.range(1, 4);
        if (r.chance(0.04)) T = 2, N = 6, nc = r.range(20, 70);
        bool lengthy = r.chance(0.04); // many stages
        if (lengthy) T = 2, N = 8, nc = r.range(1, 2);
        if (sk_N(m) > 1e6) m.foff = 2.79e-6;
        bool file = r.chance(0.5);
        std::string d = cat(file ? "file" : "memory", " T ", T, " N ", N, " x", nc);
        auto st = rand_stages(r, N, &d);
        if (lengthy) for (int64_t n = r.range(15, 45); (int64_t)st.size() < n;) { // the later ones leave a mark too
            auto x = rand_stage(r, N, true, (int)r.pick({0, 1, 2, 4, 5}));
            d += "; " + x.name;
            st.push_back(x);
        }
        h.describe(d);
        auto b = build(h, r, m, T, N, nc, file, "c04.h5");
        // objects after every prefix of the pipeline, with reads and slices in between
        std::vector<scan> objs{b.sc};
        for (size_t k = 0; k < st.size(); ++k) {
            if (r.chance(0.3)) (void)snap_read(objs.back(), (int)r.range(0, nc - 1), r);
            if (r.chance(0.1)) { try { (void)objs.back().hits(); } catch (const std::exception &) {} }
            objs.push_back(st[k].s(objs.back()));
        }
        bool any_hits = false;
        std::map<std::pair<size_t, int>, Snap> want;
        auto expect = [&](size_t k, int i) -> const Snap & {
            auto it = want.find({k, i});
            if (it == want.end()) it = want.emplace(std::make_pair(k, i), snap_direct(b.base[i], st, k, r)).first;
            return it->second;
        };
        for (int step = 0; step < 14; ++step) {
            size_t k = r.chance(0.4) ? st.size() : r.range(0, (int64_t)st.size());
            int i = (int)r.range(0, nc - 1);
            auto got = snap_read(objs[k], i, r);
            auto &w = expect(k, i);
            h.check(got == w, "differs-from-direct", [&] { return cat("after ", k, " stages, channel ", i, ", read ", step, ":", got.diff(w)); });
            h.count("channels_read");
            h.count(w.threw ? "refused_reads" : "good_reads");
            if (w.hits != "none" && w.hits != "0" && !w.threw) any_hits = true;
            if (r.chance(0.2)) { // a slice taken after the stages carries them along
                int64_t s = r.range(0, nc - 1);
                auto sl = objs[k].slice_scan_channels(s, -1);
                auto g2 = snap_read(sl, 0, r);
                auto &w2 = expect(k, (int)s);
                h.check(g2 == w2, "slice-after-stages", [&] { return cat("after ", k, " stages, slice from ", s, ":", g2.diff(w2)); });
            }
            if (r.chance(0.25)) { // a peek gives the channel as a read would, or nothing when it was not read yet
                std::shared_ptr<coarse_channel> pk;
                Snap g3;
                bool threw = false;
                try { pk = objs[k].peak_coarse_channel(i); } catch (const std::exception &) { threw = true; }
                if (!file || threw || pk) h.count("peeked");
                if (pk) { g3 = snap(*pk, r); h.check(g3 == w, "peek-differs", [&] { return cat("after ", k, " stages, channel ", i, ":", g3.diff(w)); }); }
                else h.check(threw ? w.threw : file, "peek-lost", [&] { return cat("after ", k, " stages, channel ", i, " threw ", threw); });
            }
            if (r.chance(0.15)) { // reading a whole channel object twice gives the same
                try {
                    auto cc = objs[k].read_coarse_channel(i);
                    auto a = snap(*cc, r), c = snap(*cc, r);
                    h.check(a == c, "second-read-differs", [&] { return a.diff(c); });
                } catch (const std::exception &) {}
            }
            if (r.chance(0.2)) { // all hits of a scan are the hits of its channels
                bool threw = false;
                std::vector<std::string> got_h, want_h;
                try { for (auto &x : objs[k].hits()) got_h.push_back(hit_str(x)); } catch (const std::exception &) { threw = true; }
                bool usable = true;
                for (int c = 0; c < nc; ++c) {
                    if (expect(k, c).threw) { usable = false; break; }
                    try {
                        std::vector<coarse_channel> chain{b.base[c]};
                        for (size_t q = 0; q < k; ++q) chain.push_back(st[q].c(chain.back()));
                        for (auto &x : chain.back().hits()) want_h.push_back(hit_str(x));
                    } catch (const std::logic_error &) {}
                }
                if (usable) { std::sort(got_h.begin(), got_h.end()); std::sort(want_h.begin(), want_h.end()); h.check(!threw && got_h == want_h, "scan-hits", [&] { return cat("threw ", threw, " ", got_h.size(), " hits, expected ", want_h.size()); }); }
            }
        }
        if (any_hits) h.count("pipelines_with_hits");
        if (st.size() > 1) h.nontrivial(d);
        if (file) unlink(scratch(h, "c04.h5").c_str());
    });
    // a channel made of functions, or given functions for its plane and hits, is the channel made of their results;
    // what is set on a copy of a channel, or where it is told to live, is nothing to the original
    h.cases("made", 500, 12000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(2, 8), N = r.range(4, 24), num = r.range(0, 50);
        auto noisy = [&] { std::vector<float> v((size_t)(T * N)); for (auto &x : v) x = (float)(50 + r.normal() * 3 + (r.chance(0.02) ? 60 : 0)); return v; };
        auto flags = [&] { std::vector<uint8_t> v((size_t)(T * N)); for (auto &x : v) x = (uint8_t)(r.chance(0.1) ? r.range(1, 63) : 0); return v; };
        auto dv = noisy(); auto mv = flags();
        auto base = make_cc(f32({T, N}, dv), u8({T, N}, mv), m, T, N, num);
        base.set_noise_estimate(stats_of_channel((float)r.uni(40, 60), (float)r.uni(1, 30)));
        integrate_drifts_options io;
        io.low_rate = (int)-r.range(0, 3); io.high_rate = (int)r.range(1, 3); io.rate_step_size = 1; io.desmear = r.chance(0.5);
        auto with_plane = integrate_drifts(base, io);
        hit_search_options so;
        so.method = r.chance(0.5) ? hit_search_methods::CONNECTED_COMPONENTS : hit_search_methods::LOCAL_MAXIMA;
        so.snr_threshold = (float)r.pick({1.0, 2.0, 4.0}); so.neighbor_l1_dist = (int)r.range(2, 4);
        auto plane = with_plane.integrated_drift_plane();
        auto found = hit_search(with_plane, so);
        with_plane.set_hits(found);
        Snap want = snap(with_plane, r);
        // the same made another way
        int way = (int)r.range(0, 3);
        auto calls = std::make_shared<int>(0);
        auto D = [dv, T, N, calls] { ++*calls; return f32({T, N}, dv); };
        auto M = [mv, T, N, calls] { ++*calls; return u8({T, N}, mv); };
        coarse_channel cc = way & 1 ? coarse_channel(std::function<bland::ndarray()>(D), std::function<bland::ndarray()>(M), m.fch1, m.foff, m.machine_id, m.nbits, N, T, m.nifs, m.source_name, m.src_dej, m.src_raj, m.telescope_id, m.tsamp, m.tstart, m.data_type, m.az_start, m.za_start, num)
                                    : make_cc(f32({T, N}, dv), u8({T, N}, mv), m, T, N, num);
        cc.set_noise_estimate(base.noise_estimate());
        bool gen_plane = r.chance(0.5), gen_hits = r.chance(0.5);
        if (gen_plane) cc.set_integrated_drift_plane(std::function<frequency_drift_plane()>([plane] { return plane; })); else cc.set_integrated_drift_plane(plane);
        if (gen_hits) { auto self = cc; cc.set_hits(std::function<std::list<hit>()>([self, so]() mutable { return hit_search(self, so); })); } else cc.set_hits(hit_search(cc, so));
        std::string prog;
        auto judge = [&](const char *key, coarse_channel &c, const Snap &w) { auto g = snap(c, r); h.check(g == w, key, [&] { return cat(h.desc, prog, ":", g.diff(w)); }); };
        h.describe(cat("T ", T, " N ", N, way & 1 ? " from functions" : " from arrays", gen_plane ? ", plane generated" : "", gen_hits ? ", hits generated" : "", " "));
        judge("made-differs", cc, want);
        int steps = (int)r.range(1, 8);
        for (int k = 0; k < steps; ++k) {
            coarse_channel other = cc;
            switch ((int)r.range(0, 9)) {
            case 0: cc.set_device("cpu"); prog += " device"; break;
            case 1: cc.push_device(); prog += " push"; break;
            case 2: { auto p = cc.integrated_drift_plane(); p.set_device("cpu"); p.push_device(); prog += " push-plane"; h.check(p.integration_steps() == plane.integration_steps() && p.drift_rate_info().size() == plane.drift_rate_info().size(), "plane-info", [&] { return cat(p.integration_steps()); }); break; }
            case 3: { // only the copy changes
                auto v = noisy(); other.set_data(f32({T, N}, v)); prog += " copy.data";
                h.check(biteq(fvals(other.data()), v), "copy-set-data", [&] { return firstdiff(fvals(other.data()), v); });
                break;
            }
            case 4: { auto v = flags(); other.set_mask(u8({T, N}, v)); prog += " copy.mask"; h.check(bvals(other.mask()) == v, "copy-set-mask", [&] { return vec(bvals(other.mask())); }); break; }
            case 5: { other.set_hits(std::list<hit>{}); prog += " copy.hits"; h.check(other.hits().empty(), "copy-set-hits", [&] { return cat(other.hits().size()); }); break; }
            case 6: { other.set_noise_estimate(stats_of_channel(7, 9)); prog += " copy.noise"; h.check(other.noise_estimate().noise_floor() == 7 && other.noise_estimate().noise_power() == 9, "copy-set-noise", [&] { return cat(other.noise_estimate().noise_floor()); }); break; }
            case 7: { auto v = noisy(); other.set_data(bland::ndarray_deferred([v, T, N] { return f32({T, N}, v); })); prog += " copy.deferred"; h.check(biteq(fvals(other.data()), v), "copy-set-deferred", [&] { return firstdiff(fvals(other.data()), v); }); break; }
            case 8: { // another plane on the copy
                auto o2 = io; o2.low_rate -= 1;
                auto p2 = integrate_drifts(base, o2);
                int64_t rows = (int64_t)p2.integrated_drift_plane().drift_rate_info().size();
                if (r.chance(0.5)) other.set_integrated_drift_plane(p2.integrated_drift_plane()); else { auto q = p2.integrated_drift_plane(); other.set_integrated_drift_plane(std::function<frequency_drift_plane()>([q] { return q; })); }
                prog += " copy.plane";
                h.check((int64_t)other.integrated_drift_plane().drift_rate_info().size() == rows, "copy-set-plane", [&] { return cat(rows); });
                break;
            }
            default: { auto again = other; judge("copy-differs", again, want); prog += " copy"; }
            }
            if (r.chance(0.6)) judge("changed-by-its-copy", cc, want);
        }
        judge("changed-by-its-copy", cc, want);
        if (gen_plane || gen_hits || (way & 1)) h.nontrivial(cat(h.desc, prog));
        h.count("hits", (int64_t)found.size());
    });
}

void C06(H &h) {
    quiet();
    h.rule = "a target or cadence with more than one scan, its consistency judged, or a pipeline applied to it with every scan compared with the stages applied directly";
    h.cases("consistency", 700, 15000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(1, 3), N = r.range(2, 6), nc = r.range(1, 4), nobs = r.range(1, 3);
        if (r.chance(0.04)) nobs = r.range(4, 12);
        int odd = (int)r.range(0, 5); // 0,1: all agree
        std::vector<int64_t> ns;
        int64_t total = 0;
        for (int64_t o = 0; o < nobs; ++o) { ns.push_back(nobs < 4 && r.chance(0.04) ? r.range(5, 20) : r.range(1, 3)); total += ns.back(); }
        int64_t which = r.range(0, total - 1);
        if (total == 1) odd = 0;
        std::vector<observation_target> obs;
        std::vector<std::vector<double>> starts(nobs);
        int64_t id = 0;
        bool twonames = r.chance(0.3);
        std::string other = r.pick<std::string>({"OTHER", "SRC", "SRC01", "RC0", ""});
        for (int64_t o = 0; o < nobs; ++o) {
            std::vector<scan> scs;
            for (int64_t s = 0; s < ns[o]; ++s, ++id) {
                Meta ms = m;
                ms.tstart = 50000 + id;
                ms.source_name = cat("SRC", o);
                if (twonames && o == 0 && s == 1) ms.source_name = other;
                int64_t n = N, c = nc;
                if (odd >= 2 && id == which) {
                    double sgn = r.chance(0.5) ? 1 : -1;
                    if (odd == 2) ms.fch1 += sgn * r.pick({1e-5, 1e-3, 1.0, 500.0});
                    if (odd == 3) ms.foff = r.chance(0.5) ? m.foff + sgn * r.pick({3e-6, 1e-5, 0.1}) : (std::abs(m.foff) > 1e-6 ? -m.foff : 0.5);
                    if (std::abs(ms.foff) < 1e-7) ms.foff = 0.5; // no spectrum has channels of no width
                    if (odd == 4) n += r.range(1, 3);
                    if (odd == 5) c += r.range(1, 2);
                }
                starts[o].push_back(ms.tstart);
                std::vector<std::vector<float>> ch(c, std::vector<float>(T * n, (float)id));
                scs.push_back(mem_scan(ms, T, n, ch));
            }
            obs.push_back(observation_target(scs));
        }
        cadence cad(obs);
        h.describe(cat("targets with ", vec(ns), " scans, odd ", odd, " at ", which));
        int64_t base = 0;
        bool cons = odd < 2;
        for (int64_t o = 0; o < nobs; ++o) {
            bool mine = cons || ns[o] == 1 || !(which >= base && which < base + ns[o]);
            h.check(obs[o].validate_scan_consistency() == mine, mine ? "consistent-target-refused" : "inconsistent-target-accepted", [&] { return cat("target ", o); });
            int got = -1;
            bool ref = refused([&] { got = obs[o].get_number_coarse_channels(); });
            h.check(ref == !mine && (ref || odd == 5 || got == nc), "target-channel-count", [&] { return cat("target ", o, " ", ref, " ", got); });
            bool fref = refused([&] { got = obs[o].get_coarse_channel_with_frequency(obs[o]._scans[0].fch1() + obs[o]._scans[0].foff() * 0.4); });
            h.check(fref == !mine && (fref || got == 0), "target-lookup", [&] { return cat("target ", o, " ", fref, " ", got); });
            base += ns[o];
            // every scan kept, in order
            bool keep = (int64_t)cad._observations.size() == nobs && (int64_t)cad._observations[o]._scans.size() == ns[o];
            for (int64_t s = 0; keep && s < ns[o]; ++s) keep = cad._observations[o]._scans[s].tstart() == starts[o][s] && obs[o]._scans[s].tstart() == starts[o][s];
            h.check(keep, "scans-kept", [&] { return cat("target ", o); });
            bool two = twonames && o == 0 && ns[0] > 1;
            auto nm = obs[o]._target_name;
            if (two && !other.empty()) { // both names are told
                std::string a = "SRC0", b = other;
                if (a.size() < b.size()) std::swap(a, b);
                auto at = nm.find(a);
                auto rest = at == std::string::npos ? std::string() : nm.substr(0, at) + "|" + nm.substr(at + a.size());
                h.check(rest.find(b) != std::string::npos, "target-name", [&] { return cat(nm, " from SRC0 and ", other); });
            } else h.check(nm == cat("SRC", o), "target-name", [&] { return nm; });
        }
        h.check(cad.validate_scan_consistency() == cons, cons ? "consistent-cadence-refused" : "inconsistent-cadence-accepted", [&] { return std::string(); });
        int got = -1;
        bool ref = refused([&] { got = cad.get_number_coarse_channels(); });
        h.check(ref == !cons && (ref || got == nc), "cadence-channel-count", [&] { return cat(ref, " ", got); });
        bool fref = refused([&] { got = cad.get_coarse_channel_with_frequency(m.fch1 + m.foff * 0.4); });
        h.check(fref == !cons && (fref || got == 0), "cadence-lookup", [&] { return cat(fref, " ", got); });
        h.count(cons ? "consistent" : "inconsistent");
        if (total > 1) h.nontrivial(h.desc);
    });
    h.cases("empty", 8, 20, [&] {
        observation_target t; cadence c;
        h.check(refused([&] { (void)t.get_number_coarse_channels(); }) && refused([&] { (void)c.get_number_coarse_channels(); }) && refused([&] { (void)t.get_coarse_channel_with_frequency(1); }) && refused([&] { (void)c.get_coarse_channel_with_frequency(1); }), "empty-answers", [&] { return std::string(); });
        cadence c2(std::vector<observation_target>{observation_target()});
        h.check(refused([&] { (void)c2.get_number_coarse_channels(); }), "empty-answers", [&] { return std::string("cadence of an empty target"); });
    });
    h.cases("some-empty", 60, 1200, [&] { // targets without scans among targets with scans: they stay in their places and the others answer
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(1, 3), N = r.range(2, 6), nc = r.range(1, 4), nobs = r.range(2, 5), total = 0;
        std::vector<observation_target> obs;
        std::vector<int64_t> ns;
        for (int64_t o = 0; o < nobs; ++o) {
            ns.push_back(r.chance(0.5) ? 0 : r.range(1, 2));
            if (o == nobs - 1 && !total) ns.back() = 1;
            total += ns.back();
            std::vector<scan> scs;
            for (int64_t s = 0; s < ns.back(); ++s) {
                Meta ms = m;
                ms.tstart = 50000 + o * 10 + s;
                std::vector<std::vector<float>> ch;
                for (int64_t c = 0; c < nc; ++c) ch.push_back(std::vector<float>(T * N, (float)(o * 100 + s * 10 + c)));
                scs.push_back(mem_scan(ms, T, N, ch));
            }
            obs.push_back(observation_target(scs));
        }
        cadence cad(obs);
        h.describe(cat("targets with ", vec(ns), " scans x", nc));
        h.check(cad.validate_scan_consistency(), "consistent-cadence-refused", [&] { return std::string(); });
        int got = -1;
        bool ref = refused([&] { got = cad.get_number_coarse_channels(); });
        h.check(!ref && got == nc, "cadence-channel-count", [&] { return cat(ref, " ", got); });
        ref = refused([&] { got = cad.get_coarse_channel_with_frequency(m.fch1 + m.foff * (0.4 + N * (nc - 1))); });
        h.check(!ref && got == nc - 1, "cadence-lookup", [&] { return cat(ref, " ", got); });
        int64_t s0 = r.range(0, nc - 1), cnt = r.range(1, nc - s0);
        auto sl = cad.slice_cadence_channels(s0, cnt);
        bool keep = (int64_t)sl._observations.size() == nobs;
        for (int64_t o = 0; keep && o < nobs; ++o) {
            auto &t = sl._observations[o];
            keep = (int64_t)t._scans.size() == ns[o] && t._target_name == obs[o]._target_name;
            for (int64_t s = 0; keep && s < ns[o]; ++s) {
                auto cc = t._scans[s].read_coarse_channel(0);
                keep = t._scans[s].get_number_coarse_channels() == cnt && cc->tstart() == 50000 + o * 10 + s && fvals(cc->data())[0] == (float)(o * 100 + s * 10 + s0);
            }
        }
        h.check(keep, "slice-moves-targets", [&] { return cat("slice ", s0, " ", cnt, ": ", sl._observations.size(), " targets"); });
        h.count("cadences_with_empty_targets");
        if (total > 1) h.nontrivial(h.desc);
    });
    h.cases("creeping", 40, 600, [&] { // every scan close to the one before it, the last one far from the first
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        m.fch1 = r.uni(100, 12000);
        int64_t n = r.range(4, 14);
        bool by_foff = r.chance(0.4), back = r.chance(0.3);
        double step = r.pick({9e-7, -9e-7, 6e-7, -6e-7});
        std::vector<scan> scs;
        for (int64_t s = 0; s < n; ++s) {
            Meta ms = m;
            int64_t k = back && s == n - 1 ? 0 : s; // or only those in between
            (by_foff ? ms.foff : ms.fch1) += step * (double)k;
            scs.push_back(mem_scan(ms, 1, 4, {std::vector<float>(4, 1)}));
        }
        if (by_foff) for (auto &s : scs) if (s.foff() == 0) return;
        h.describe(cat(n, " scans, ", by_foff ? "foff" : "fch1", " creeping by ", step, back ? " and back" : ""));
        observation_target t(scs);
        h.check(!t.validate_scan_consistency(), "inconsistent-target-accepted", [&] { return h.desc; });
        h.check(refused([&] { (void)t.get_number_coarse_channels(); }), "target-channel-count", [&] { return h.desc; });
        std::vector<observation_target> obs;
        for (size_t s = 0; s < scs.size();) { // split over targets at random
            std::vector<scan> part;
            for (int64_t k = r.range(1, 3); k-- && s < scs.size(); ++s) part.push_back(scs[s]);
            obs.push_back(observation_target(part));
        }
        cadence c(obs);
        h.check(!c.validate_scan_consistency(), "inconsistent-cadence-accepted", [&] { return h.desc; });
        h.check(refused([&] { (void)c.get_coarse_channel_with_frequency(m.fch1); }), "cadence-lookup", [&] { return h.desc; });
        h.count("creeping");
        h.nontrivial(h.desc);
    });
    h.cases("stages", 160, 4000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        if (sk_N(m) > 1e6) m.foff = 2.79e-6;
        int64_t T = r.range(2, 5), N = r.range(6, 16), nc = r.range(1, 3), nobs = r.range(1, 3);
        if (r.chance(0.06)) nobs = r.range(4, 10), T = 2, N = 6;
        std::string d = cat("T ", T, " N ", N, " x", nc, " targets ", nobs);
        auto st = rand_stages(r, N, &d);
        std::vector<std::vector<Built>> bs(nobs);
        std::vector<observation_target> obs;
        int id = 0;
        for (int64_t o = 0; o < nobs; ++o) {
            std::vector<scan> scs;
            int64_t ns = r.range(1, 3);
            for (int64_t s = 0; s < ns; ++s) {
                Meta ms = m;
                ms.tstart += id;
                bs[o].push_back(build(h, r, ms, T, N, nc, r.chance(0.3), cat("c06_", id, ".h5")));
                ++id;
                scs.push_back(bs[o].back().sc);
            }
            obs.push_back(observation_target(scs));
        }
        int64_t s0 = r.range(0, nc - 1), cnt = r.range(1, nc - s0);
        size_t cut = r.range(0, (int64_t)st.size()); // slice in between
        bool slice = r.chance(0.5), as_cad = r.chance(0.5);
        if (slice) d += cat("; slice [", s0, ",", cnt, "] after ", cut);
        h.describe(cat(as_cad ? "cadence " : "targets ", d));
        auto originals = obs;
        if (as_cad) {
            cadence c(obs);
            for (size_t k = 0; k <= st.size(); ++k) { if (slice && k == cut) c = c.slice_cadence_channels(s0, cnt); if (k < st.size()) c = st[k].d(c); }
            obs = c._observations;
        } else
            for (auto &t : obs) for (size_t k = 0; k <= st.size(); ++k) { if (slice && k == cut) t = t.slice_observation_channels(s0, cnt); if (k < st.size()) t = st[k].t(t); }
        h.check((int64_t)obs.size() == nobs, "targets-lost", [&] { return cat(obs.size()); });
        for (int64_t o = 0; o < nobs && o < (int64_t)obs.size(); ++o) {
            if (!h.check(obs[o]._scans.size() == bs[o].size() && obs[o]._target_name == originals[o]._target_name, "scans-lost", [&] { return cat("target ", o, " ", obs[o]._scans.size(), " ", obs[o]._target_name); })) continue;
            for (size_t s = 0; s < bs[o].size(); ++s)
                for (int64_t i = 0; i < (slice ? cnt : nc); ++i) {
                    if (r.chance(0.3)) continue;
                    auto got  = snap_read(obs[o]._scans[s], (int)i, r);
                    auto want = snap_direct(bs[o][s].base[i + (slice ? s0 : 0)], st, st.size(), r);
                    h.check(got == want, "stage-on-every-scan", [&] { return cat("target ", o, " scan ", s, " channel ", i, ":", got.diff(want)); });
                    h.count("channels_compared");
                }
            // the originals are unaffected
            auto got = snap_read(originals[o]._scans[0], 0, r), want = snap_direct(bs[o][0].base[0], st, 0, r);
            h.check(got == want, "original-changed", [&] { return cat("target ", o, ":", got.diff(want)); });
        }
        for (int k = 0; k < id; ++k) unlink(scratch(h, cat("c06_", k, ".h5")).c_str());
        if (id > 1) h.nontrivial(h.desc);
    });
}
} // namespace

int main(int argc, char **argv) {
    return vh::run_main(argc, argv, {{"C04", C04}, {"C06", C06}, {"F01", F01}, {"F02", F02}, {"F03", F03}, {"F04", F04}, {"N01", N01}, {"N02", N02}, {"N03", N03}});
}
