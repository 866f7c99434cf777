// D01-D09: drift integration, hit search, hit filtering, events
#include "bx.hpp"
#include <core/event.hpp>
#include <core/protohit.hpp>
#include <drift_search/connected_components.hpp>
#include <drift_search/event_search.hpp>
#include <drift_search/local_maxima.hpp>
#include <drift_search/protohit_search.hpp>
#include <kernels/drift_integration_bland.hpp>
using namespace bx;

namespace {
const uint8_t ROLL = 1, LOWSK = 2, HIGHSK = 4;
using DR = frequency_drift_plane::drift_rate;

// ---- reference: which channel offsets a drift line visits at each step; an offset is open when the exact line sits on a
// rounding tie that floating point may resolve either way
struct Line { std::vector<std::vector<int64_t>> off; int64_t span, desmear; bool neg; };
Line ref_line(int64_t span, int64_t T, bool desmear_on, bool *open_desmear = nullptr) {
    Line l;
    l.span = span;
    l.neg  = span < 0;
    double slope = (double)span / (T - 1);
    // desmear width: channels crossed per step, at least one; half way between two widths is left open
    double a = std::abs(slope);
    l.desmear = desmear_on ? std::max<int64_t>(1, (int64_t)std::floor(a + 0.5)) : 1;
    bool pow2 = ((T - 1) & (T - 2)) == 0; // then slope and slope * t are exact in binary
    if (open_desmear) *open_desmear = desmear_on && a > 1 && !pow2 && std::abs(a - std::floor(a) - 0.5) < 1e-6;
    for (int64_t t = 0; t < T; ++t) {
        int64_t num = 2 * span * t, den = 2 * (T - 1); // twice the exact position
        int64_t q = num / 2, whole = q / (T - 1), rem = q % (T - 1);
        (void)den;
        std::vector<int64_t> o;
        int64_t twice = 2 * std::abs(rem);
        int64_t away = whole + (span < 0 ? -1 : 1);
        if (twice > T - 1) o = {away};
        else if (twice < T - 1) o = {whole};
        else if (pow2) o = {away};      // exact tie: round half away from zero
        else o = {whole, away};         // the float slope decides
        l.off.push_back(o);
    }
    return l;
}
// visit every sample position on the line of cell f: g(t, candidate positions (-1: nothing), desmear index)
template <class G> void walk(const Line &l, int64_t f, int64_t T, int64_t N, G g) {
    if (l.neg && f < -l.span) return; // the line would leave the lower edge: the cell stays empty
    for (int64_t t = 0; t < T; ++t)
        for (int64_t k = 0; k < l.desmear; ++k) {
            std::vector<int64_t> pos;
            for (auto o : l.off[t]) {
                int64_t p = l.neg ? f + o - k : f + o + k;
                pos.push_back(p >= 0 && p < N ? p : -1);
            }
            g(t, pos);
        }
}

struct Grid {
    int64_t T, N;
    std::vector<float> d;
    std::vector<uint8_t> m;
    Meta md;
    integrate_drifts_options o;
};
std::string text(const Grid &g) {
    return cat("T ", g.T, " N ", g.N, " drifts ", g.o.low_rate, "..", g.o.high_rate, " step ", g.o.rate_step_size, g.o.desmear ? " desmeared" : "", " foff ", g.md.foff, " tsamp ", g.md.tsamp);
}
Grid rand_grid(Rng &r, bool longlines, bool tall = false, bool vast = false) {
    Grid g;
    g.T = longlines ? r.range(200, 330) : r.pick({(int64_t)2, (int64_t)3, (int64_t)5, (int64_t)9, (int64_t)16, (int64_t)17, r.range(2, 24)});
    g.N = longlines ? r.range(1, 12) : r.pick({r.range(1, 5), r.range(1, 40), r.range(20, 90)});
    int64_t w = r.pick({r.range(1, 4), r.range(1, 20), r.range(1, 3 * g.N + 5)});
    int64_t c = r.chance(0.6) ? -(w / 2) : r.pick({(int64_t)0, r.range(-2 * g.N, 2 * g.N), -w, r.range(-5 * g.T, 5 * g.T)});
    if (longlines) w = r.range(1, 6), c = r.range(-4, 2);
    if (tall) { // many steps and wide lines together
        g.T = r.pick({(int64_t)33, (int64_t)65, (int64_t)129, (int64_t)257, r.range(25, 300)});
        g.N = r.range(40, 400);
        w = r.range(1, 40);
        c = r.pick({-(w / 2), r.range(-2 * g.T, 2 * g.T), r.range(-g.N, g.N)});
    }
    int sort = vast ? (int)r.range(0, 2) : -1;
    if (sort == 0) g.T = r.range(2, 5), g.N = r.range(3, 9), w = r.range(4000, 9000), c = r.pick({-(w / 2), -w, (int64_t)-3}); // very many drifts
    if (sort == 1) { // channels and offsets beyond 16 bits
        g.T = r.range(2, 4), g.N = r.range(66000, 80000), w = r.range(1, 3);
        c = (r.chance(0.5) ? 1 : -1) * r.pick({r.range(32700, 32800), r.range(33000, g.N), r.range(65530, 65540), r.range(0, 9)});
    }
    if (sort == 2) g.T = r.pick({(int64_t)513, (int64_t)1025, r.range(500, 1400)}), g.N = r.range(4, 30), w = r.range(1, 5), c = r.pick({-(w / 2), r.range(-g.N, g.N)}); // very many steps
    g.o.low_rate = c;
    g.o.high_rate = c + w;
    g.o.rate_step_size = r.pick({(int64_t)1, (int64_t)1, (int64_t)2, (int64_t)3, r.range(1, 2 * w)});
    g.o.desmear = r.chance(0.6);
    if (sort == 0) g.o.rate_step_size = 1;
    if (sort == 0 || (sort == 1 && std::abs(c) > 20)) g.o.desmear = false;
    g.md = rand_meta(r);
    g.d.resize(g.T * g.N);
    int kind = (int)r.range(0, 3);
    for (auto &x : g.d) x = kind == 0 ? (float)r.range(0, 1000) : kind == 1 ? (float)(100 + 10 * r.normal()) : kind == 2 ? (float)r.uni(-1e3, 1e3) : (r.chance(0.1) ? (float)r.range(1, 100) : 0.0f);
    g.m.resize(g.T * g.N);
    double dens = r.pick({0.02, 0.3, 1.0});
    for (auto &x : g.m) x = r.chance(dens) ? (longlines && r.chance(0.7) ? 255 : (uint8_t)r.range(0, 255)) : 0;
    return g;
}
coarse_channel cc_of(Rng &r, const Grid &g, double pview = 0.4) {
    return make_cc(f32v(r, {g.T, g.N}, g.d, pview), u8v(r, {g.T, g.N}, g.m, pview), g.md, g.T, g.N, 0);
}
// a channel that went through the search before: other options, other samples or flags, a plane of its own
coarse_channel searched_before(H &h, Rng &r, const Grid &g) {
    auto o = g.o;
    if (r.chance(0.5)) { int64_t by = r.range(-5, 5); o.low_rate += by; o.high_rate += by; }
    if (r.chance(0.4)) o.desmear = !o.desmear;
    if (r.chance(0.3)) o.high_rate += r.range(1, 4);
    int what = (int)r.range(0, 3);
    Grid q = g;
    if (what & 1) for (auto &x : q.d) x = 3 * x + 1;
    if (what & 2) for (auto &x : q.m) x = (uint8_t)(r.next() & 7);
    auto cc = cc_of(r, q, 0);
    auto done = integrate_drifts(cc, o);
    (void)done.integrated_drift_plane();
    if (r.chance(0.3)) done = cc; // the channel itself, of which a plane was made
    if (what & 1) done.set_data(f32({g.T, g.N}, g.d));
    if (what & 2) done.set_mask(u8({g.T, g.N}, g.m));
    h.count("channels_searched_before");
    return done;
}
int64_t ref_count(const integrate_drifts_options &o) { int64_t n = 0; for (int64_t s = o.low_rate; s < o.high_rate; s += o.rate_step_size) ++n; return n; }

void D01(H &h) {
    h.rule = "an integrated plane in which cells were compared with the sum along their line, distinguished by geometry, range and content kind";
    auto body = [&](bool second, bool tall = false, bool vast = false) {
        Rng &r = h.rng;
        Grid g = rand_grid(r, !tall && !vast && r.chance(0.03), tall, vast);
        h.describe(cat(text(g), second ? " (array implementation)" : ""));
        auto cc = !vast && r.chance(0.15) ? searched_before(h, r, g) : cc_of(r, g);
        auto out = integrate_drifts(cc, g.o);
        auto plane = out.integrated_drift_plane();
        auto rates = plane.drift_rate_info();
        if (second) { auto data = cc.data(); auto mask = cc.mask(); plane = integrate_linear_rounded_bins_bland(data, mask, rates, g.o); }
        auto arr = plane.integrated_drift_plane();
        int64_t n = ref_count(g.o);
        if (!h.check(arr.shape() == std::vector<int64_t>({n, g.N}), "plane-shape", [&] { return cat(shp(arr), " expected ", n, "x", g.N); })) return;
        auto v = fvals(arr);
        ref::keep(h, arr, "integration");
        auto fl = plane.integrated_rfi();
        std::vector<std::vector<uint8_t>> cnt{bvals(fl.filter_rolloff), bvals(fl.low_spectral_kurtosis), bvals(fl.high_spectral_kurtosis)};
        std::string bad, badc;
        uint64_t cells = 0, empty = 0, edge = 0;
        for (int64_t i = 0; i < n; ++i) {
            bool open;
            Line l = ref_line(g.o.low_rate + i * g.o.rate_step_size, g.T, g.o.desmear, &open);
            if (open) { h.count("rows_left_open"); continue; }
            for (int64_t f = 0; f < g.N; ++f) {
                double lo = 0, hi = 0, mag = 0;
                int64_t on = 0, off = 0, clo[3] = {0, 0, 0}, chi[3] = {0, 0, 0};
                walk(l, f, g.T, g.N, [&](int64_t t, const std::vector<int64_t> &pos) {
                    double a = 1e300, b = -1e300;
                    int fa[3] = {1, 1, 1}, fb[3] = {0, 0, 0};
                    for (auto p : pos) {
                        double x = p < 0 ? 0 : g.d[t * g.N + p];
                        (p < 0 ? off : on)++;
                        a = std::min(a, x); b = std::max(b, x); mag += std::abs(x);
                        for (int q = 0; q < 3; ++q) { int s = p >= 0 && (g.m[t * g.N + p] & (1 << q)); fa[q] = std::min(fa[q], s); fb[q] = std::max(fb[q], s); }
                    }
                    lo += a; hi += b;
                    for (int q = 0; q < 3; ++q) clo[q] += fa[q], chi[q] += fb[q];
                });
                double s = (double)l.desmear * g.T, tol = 2e-6 * mag / s * std::sqrt((double)std::max<int64_t>(1, on)) + 1e-30;
                float x = v[i * g.N + f];
                if (!(x >= lo / s - tol && x <= hi / s + tol) && bad.empty())
                    bad = cat("drift ", l.span, " channel ", f, ": ", x, " expected ", lo / s, lo == hi ? "" : cat(" .. ", hi / s), " (", on, " samples on the line, ", off, " beyond an edge, smeared over ", l.desmear, ")");
                if (second) for (int q = 0; q < 3; ++q) {
                    int64_t c = cnt[q][i * g.N + f];
                    if (chi[q] <= 255 && (c < clo[q] || c > chi[q]) && badc.empty()) badc = cat("drift ", l.span, " channel ", f, " flag ", 1 << q, ": ", c, " expected ", clo[q]);
                }
                ++cells; if (!on) ++empty; if (off && on) ++edge;
            }
        }
        h.check(bad.empty(), second ? "array-plane-cell" : "plane-cell", [&] { return bad; });
        if (second) h.check(badc.empty(), "array-flag-count", [&] { return badc; });
        h.check(biteq(fvals(cc.data()), g.d) && bvals(cc.mask()) == g.m, "source-changed", [&] { return std::string(); });
        h.check(plane.integration_steps() == g.T, "integration-steps", [&] { return cat(plane.integration_steps()); });
        h.count("cells_compared", cells); h.count("cells_empty", empty); h.count("cells_cut_by_an_edge", edge);
        if (cells) h.nontrivial(h.desc);
    };
    h.cases("plane", 2500, 60000, [&] { body(false); });
    h.cases("array implementation", 250, 4000, [&] { body(true); });
    h.cases("tall", 60, 1500, [&] { body(false, true); });
    h.cases("vast", 16, 300, [&] { body(false, false, true); });
    h.cases("vast array implementation", 4, 60, [&] { body(true, false, true); });
}

void D02(H &h) {
    h.rule = "a plane whose flag counts were compared with the flagged samples on every line (including lines with more than 255 of them)";
    auto body = [&](bool lng, bool vast = false) {
        Rng &r = h.rng;
        Grid g = rand_grid(r, lng, false, vast);
        if (!lng && !vast && r.chance(0.3)) { // one flag at a time: every line through it must show it
            std::fill(g.m.begin(), g.m.end(), 0);
            g.m[r.range(0, g.T * g.N - 1)] = (uint8_t)(1 << r.range(0, 7));
        }
        h.describe(text(g));
        auto cc = !vast && r.chance(0.15) ? searched_before(h, r, g) : cc_of(r, g);
        auto plane = integrate_drifts(cc, g.o).integrated_drift_plane();
        auto fl = plane.integrated_rfi();
        int64_t n = ref_count(g.o);
        std::vector<bland::ndarray> arrs{fl.filter_rolloff, fl.low_spectral_kurtosis, fl.high_spectral_kurtosis};
        for (int q = 0; q < 3; ++q) {
            auto c = bvals(arrs[q]);
            ref::keep(h, arrs[q], "flag counts");
            if (!h.check((int64_t)c.size() == n * g.N, "counts-shape", [&] { return shp(arrs[q]); })) return;
            std::string bad;
            uint64_t sat = 0, nz = 0;
            for (int64_t i = 0; i < n; ++i) {
                bool open;
                Line l = ref_line(g.o.low_rate + i * g.o.rate_step_size, g.T, g.o.desmear, &open);
                if (open) continue;
                for (int64_t f = 0; f < g.N; ++f) {
                    int64_t lo = 0, hi = 0;
                    walk(l, f, g.T, g.N, [&](int64_t t, const std::vector<int64_t> &pos) {
                        int a = 1, b = 0;
                        for (auto p : pos) { int s = p >= 0 && (g.m[t * g.N + p] & (1 << q)); a = std::min(a, s); b = std::max(b, s); }
                        lo += a; hi += b;
                    });
                    int64_t got = c[i * g.N + f], wl = std::min<int64_t>(lo, 255), wh = std::min<int64_t>(hi, 255);
                    sat += lo > 255; nz += lo > 0;
                    if ((got < wl || got > wh) && bad.empty()) bad = cat("flag ", 1 << q, " drift ", l.span, " channel ", f, ": ", got, " expected ", wl, wl == wh ? "" : cat("..", wh), lo > 255 ? cat(" (", lo, " samples)") : "");
                }
            }
            h.check(bad.empty(), "flag-count", [&] { return bad; });
            h.count("cells_with_flags", nz); h.count("cells_saturated", sat); h.count("cells_compared", n * g.N);
        }
        h.nontrivial(h.desc);
    };
    h.cases("counts", 1800, 40000, [&] { body(false); });
    h.cases("long lines", 120, 2500, [&] { body(true); });
    h.cases("vast", 12, 200, [&] { body(false, true); });
}

void D03(H &h) {
    h.rule = "a requested search range whose whole rate table was compared, or a range that was refused";
    h.cases("rates", 3000, 80000, [&] {
        Rng &r = h.rng;
        Grid g = rand_grid(r, false);
        g.N = r.range(1, 6);
        if (r.chance(0.3)) g.o.low_rate = -r.range(0, 500), g.o.high_rate = g.o.low_rate + r.range(1, 1000), g.o.rate_step_size = r.range(1, 50);
        if (r.chance(0.1)) g.o.low_rate = r.pick({(int64_t)-1000000, (int64_t)999000}), g.o.high_rate = g.o.low_rate + r.range(1, 40), g.o.desmear = r.chance(0.1);
        if (r.chance(0.003)) { // more rates than a 16-bit number counts
            g.T = r.range(2, 4), g.N = 1, g.o.rate_step_size = r.range(1, 3), g.o.low_rate = -r.range(0, 60000);
            g.o.high_rate = g.o.low_rate + g.o.rate_step_size * r.pick({r.range(32760, 32780), r.range(65530, 65545), r.range(33000, 100000)});
        }
        g.d.assign(g.T * g.N, 1.0f); g.m.assign(g.T * g.N, 0);
        h.describe(text(g));
        auto cc = cc_of(r, g, 0.1);
        auto plane = integrate_drifts(cc, g.o).integrated_drift_plane();
        auto info = plane.drift_rate_info();
        int64_t n = ref_count(g.o);
        if (!h.check((int64_t)info.size() == n, "number-of-rates", [&] { return cat(info.size(), " expected ", n); })) return;
        h.check(plane.integrated_drift_plane().shape() == std::vector<int64_t>({n, g.N}), "plane-rows", [&] { return shp(plane.integrated_drift_plane()); });
        for (int64_t i = 0; i < n; ++i) {
            int64_t span = g.o.low_rate + i * g.o.rate_step_size;
            double slope = (double)span / (g.T - 1), hz = slope * g.md.foff * 1e6 / g.md.tsamp;
            bool open;
            Line l = ref_line(span, g.T, g.o.desmear, &open);
            auto &x = info[i];
            h.check(x.index_in_plane == i, "rate-index", [&] { return cat(x.index_in_plane, " expected ", i); });
            h.check(x.drift_channels_span == span, "rate-span", [&] { return cat("row ", i, ": ", x.drift_channels_span, " expected ", span); });
            h.check(close(x.drift_rate_slope, slope, 1e-6), "rate-slope", [&] { return cat("row ", i, ": ", x.drift_rate_slope, " expected ", slope); });
            h.check(close(x.drift_rate_Hz_per_sec, hz, 1e-6, 1e-300), "rate-hz", [&] { return cat("row ", i, ": ", x.drift_rate_Hz_per_sec, " expected ", hz); });
            h.check(open || x.desmeared_bins == l.desmear, "rate-desmear", [&] { return cat("row ", i, " span ", span, ": ", x.desmeared_bins, " expected ", l.desmear); });
        }
        h.count("rates_compared", n);
        h.nontrivial(h.desc);
    });
    h.cases("refusals", 800, 10000, [&] {
        Rng &r = h.rng;
        Grid g = rand_grid(r, false);
        int k = (int)r.range(0, 8);
        bool must = true, single = false;
        const int64_t big = INT64_MAX, small = INT64_MIN;
        bool badmask = false;
        switch (k) {
        case 0: g.o.rate_step_size = r.pick({(int64_t)0, (int64_t)-1, r.range(-100, 0), small}); break;
        case 1: g.o.high_rate = g.o.low_rate - r.pick({(int64_t)0, (int64_t)1, r.range(0, 100)}); break;
        case 2: single = true; g.T = 1; break;
        case 3: g.o.low_rate = r.pick({small, small + 1, -((int64_t)1 << 40)}); g.o.high_rate = g.o.low_rate + r.range(1, 3); g.o.rate_step_size = r.pick({(int64_t)1, big}); break;
        case 4: g.o.high_rate = r.pick({big, big - 1, (int64_t)1 << 40}); g.o.low_rate = g.o.high_rate - r.range(1, 3); g.o.rate_step_size = r.pick({(int64_t)1, big}); break;
        case 5: g.o.low_rate = small; g.o.high_rate = big; g.o.rate_step_size = r.pick({big, big / 2, (int64_t)1 << 61}); break;
        case 6:
        case 7: badmask = true; break;
        case 8: g.o.high_rate = big; g.o.low_rate = r.range(-4, 4); g.o.rate_step_size = r.pick({big, big / 3}); must = false; break; // only small rates are really searched
        }
        g.d.assign(g.T * g.N, 1.0f); g.m.assign(g.T * g.N, 0);
        h.describe(cat(text(g), " kind ", k));
        std::string why;
        bool ref = refused([&] {
            int64_t mt = g.T, mn = g.N;
            if (badmask) { if (r.chance(0.5)) mt = std::max<int64_t>(1, mt - 1), mn = mt == g.T ? mn + 1 : mn; else mn = mn > 1 ? mn - 1 : mn + 1; }
            auto cc = make_cc(f32({g.T, g.N}, g.d), u8({mt, mn}, std::vector<uint8_t>(mt * mn, 0)), g.md, g.T, g.N, 0);
            (void)single;
            auto p = integrate_drifts(cc, g.o).integrated_drift_plane();
            auto v = fvals(p.integrated_drift_plane());
            if (k == 8) {
                auto info = p.drift_rate_info();
                h.check(!info.empty() && info[0].drift_channels_span == g.o.low_rate, "first-rate", [&] { return cat(info.size()); });
            }
        }, &why);
        h.check(!must || ref, "accepted-impossible", [&] { return cat("kind ", k, " not refused"); });
        h.count(ref ? "refused" : "accepted");
        h.nontrivial(cat(k, " ", text(g)));
    });
}

// ------------------------------------------------------------------------------------------------------ hit search
struct Plane {
    int64_t R, N, T;
    std::vector<float> v;
    std::vector<uint8_t> c[3];
    std::vector<DR> rates;
    float floor, power;
    Meta md;
    hit_search_options o;
    std::vector<float> noise;
    float snr(int64_t i) const { return (v[i] - floor) / noise[i / N]; }
};
frequency_drift_plane plane_of(Rng &r, const Plane &p) {
    integrated_flags f(p.R, p.N);
    f.filter_rolloff = u8v(r, {p.R, p.N}, p.c[0]);
    f.low_spectral_kurtosis = u8v(r, {p.R, p.N}, p.c[1]);
    f.high_spectral_kurtosis = u8v(r, {p.R, p.N}, p.c[2]);
    return frequency_drift_plane(f32v(r, {p.R, p.N}, p.v), f, p.T, p.rates);
}
noise_stats stats_of(float floor, float power) {
    noise_stats s;
    s.set_noise_floor(f32({1}, {floor}));
    s.set_noise_power(f32({1}, {power}));
    return s;
}
coarse_channel cc_of(Rng &r, const Plane &p, int64_t number = 0) {
    auto cc = make_cc(f32({p.T, p.N}, std::vector<float>(p.T * p.N, p.floor)), u8({p.T, p.N}, std::vector<uint8_t>(p.T * p.N, 0)), p.md, p.T, p.N, number);
    cc.set_integrated_drift_plane(plane_of(r, p));
    cc.set_noise_estimate(stats_of(p.floor, p.power));
    return cc;
}
Plane rand_plane(Rng &r, hit_search_methods m, int size = 0) {
    bool big = size == 1, vast = size == 2;
    Plane p;
    p.R = r.pick({r.range(1, 4), r.range(1, 12), r.range(5, 30)});
    p.N = r.pick({r.range(1, 8), r.range(5, 40), r.range(20, 100)});
    if (big) p.R = r.range(3, 40), p.N = r.pick({r.range(200, 700), r.range(500, 2500)});
    if (vast) { // channels, or drifts, beyond 16 or 8 bits
        if (r.chance(0.6)) p.R = r.range(3, 4), p.N = r.range(65600, 72000);
        else p.R = r.pick({r.range(257, 700), r.range(32770, 33000)}), p.N = r.range(3, 6);
    }
    p.T = r.range(2, 40);
    if (p.N <= 100 && r.chance(0.03)) p.T = p.N <= 8 && r.chance(0.3) ? r.pick({(int64_t)32768, r.range(30000, 70000)}) : r.pick({(int64_t)128, (int64_t)256, r.range(120, 300), r.range(300, 5000)}); // long observations
    p.md = rand_meta(r);
    p.floor = (float)r.pick({0.0, 10.0, -5.0, 1000.0});
    p.power = (float)r.pick({1.0, 3.5, 0.25});
    p.o.method = m;
    p.o.snr_threshold = (float)r.pick({10.0, 3.0, 5.5, 1.0, 0.4});
    p.o.neighbor_l1_dist = (int)r.pick({(int64_t)7, (int64_t)1, (int64_t)2, (int64_t)3, r.range(1, 9)});
    if (m == hit_search_methods::LOCAL_MAXIMA && p.o.neighbor_l1_dist < 2) p.o.neighbor_l1_dist = 2;
    if (vast) p.o.neighbor_l1_dist = 2;
    // planes of which every quantity is exact in floating point, so that cells lie on the thresholds themselves
    bool exact = r.chance(0.2);
    if (exact) { p.T = r.pick({4, 16}); p.floor = (float)r.pick({0.0, 8.0, -4.0}); p.power = (float)r.pick({1.0, 0.25, 4.0}); p.o.snr_threshold = (float)r.pick({8.0, 4.0, 2.0}); }
    int64_t low = -r.range(0, p.R);
    for (int64_t i = 0; i < p.R; ++i) {
        DR d;
        d.index_in_plane = (int)i;
        d.drift_channels_span = (int)(low + i);
        d.drift_rate_slope = (double)d.drift_channels_span / (p.T - 1);
        d.drift_rate_Hz_per_sec = d.drift_rate_slope * p.md.foff * 1e6 / p.md.tsamp;
        d.desmeared_bins = r.chance(0.5) ? 1 : (int)std::max(1.0, std::round(std::abs(d.drift_rate_slope)));
        if (r.chance(0.2)) d.desmeared_bins = (int)r.range(1, 9);
        if (exact) d.desmeared_bins = (int)r.pick({1, 1, 4, 16});
        p.rates.push_back(d);
        p.noise.push_back((float)((double)p.power / std::sqrt((double)p.T * d.desmeared_bins)));
    }
    // content in units of SNR
    std::vector<double> s(p.R * p.N);
    int kind = (int)r.range(0, 4);
    double thr = p.o.snr_threshold, dens = r.pick({0.01, 0.05, 0.3, 0.7});
    for (auto &x : s) {
        x = r.normal() * 0.3;
        if (kind >= 1 && r.chance(dens)) x = thr * r.uni(0.2, 2.5);
        if (kind == 2 && r.chance(dens)) x = thr * r.pick({0.4, 0.6, 0.9, 1.2, 3.0, 50.0});
        if (kind == 3) x = thr * (double)r.range(-1, 6) * 0.37; // many equal values
    }
    if (kind == 4 || r.chance(0.3)) { // blobs: pyramids
        int64_t nb = r.range(1, 4);
        for (int64_t b = 0; b < nb; ++b) {
            int64_t cr = r.range(0, p.R - 1), cf = r.range(0, p.N - 1), w = vast ? r.range(1, 4) : big ? r.pick({r.range(1, 8), r.range(50, 700)}) : r.range(1, 8);
            double a = thr * r.pick({0.9, 1.3, 4.0, 20.0});
            for (int64_t i = 0; i < p.R; ++i) for (int64_t f = 0; f < p.N; ++f) {
                int64_t d = std::abs(i - cr) + std::abs(f - cf);
                if (d < w) s[i * p.N + f] = std::max(s[i * p.N + f], a * (1 - (double)d / w) + (big && w > 8 ? 0 : 0.01 * r.uni()));
            }
        }
    }
    if (exact) for (auto &x : s) x = thr / 4 * std::floor(4 * x / thr);
    for (int64_t i = 0; i < p.R * p.N; ++i) {
        float n = p.noise[i / p.N];
        p.v.push_back((float)(p.floor + s[i] * n));
        if (exact) continue;
        // keep clear of the two thresholds so that floating point cannot decide
        for (int guard = 0; guard < 8; ++guard) {
            double q = p.snr(i), e = 1e-3 * thr + 1e-5 * std::abs(p.floor) / n;
            if (std::abs(q - thr) < e || std::abs(q - thr / 2) < e) p.v.back() = (float)(p.v.back() - 3 * e * n); else break;
        }
    }
    for (auto &c : p.c) { c.resize(p.R * p.N); for (auto &x : c) x = r.chance(0.3) ? (uint8_t)r.range(0, 255) : 0; }
    return p;
}
std::string text(const Plane &p) {
    return cat("plane ", p.R, "x", p.N, " T ", p.T, " floor ", p.floor, " power ", p.power, " threshold ", p.o.snr_threshold, " distance ", p.o.neighbor_l1_dist, p.v.size() <= 60 ? cat(" values ", vec(p.v)) : cat(" hash ", vh::fnv(vec(p.v, 100000))));
}
struct Uf { std::vector<int64_t> p; Uf(int64_t n) : p(n) { for (int64_t i = 0; i < n; ++i) p[i] = i; } int64_t f(int64_t x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } void u(int64_t a, int64_t b) { p[f(a)] = f(b); } };

bool rfi_ok(const Plane &p, const rfi &m, int64_t cell) {
    auto get = [&](flag_values k) { auto i = m.find(k); return i == m.end() ? -1 : (int)i->second; };
    return get(flag_values::filter_rolloff) == p.c[0][cell] && get(flag_values::low_spectral_kurtosis) == p.c[1][cell] && get(flag_values::high_spectral_kurtosis) == p.c[2][cell];
}

void D04(H &h) {
    h.rule = "a plane with at least one cell above threshold whose clusters were judged, or a mask partitioned into components";
    auto clusters = [&](int big) {
        Rng &r = h.rng;
        Plane p = rand_plane(r, hit_search_methods::CONNECTED_COMPONENTS, big);
        h.describe(text(p));
        auto fdp = plane_of(r, p);
        auto ph = protohit_search(fdp, stats_of(p.floor, p.power), p.o);
        int64_t n = p.R * p.N, d = p.o.neighbor_l1_dist;
        float thr = p.o.snr_threshold;
        std::vector<char> seed(n), half(n);
        uint64_t seeds = 0;
        for (int64_t i = 0; i < n; ++i) { seed[i] = p.snr(i) > thr; half[i] = p.snr(i) > thr / 2; seeds += seed[i]; }
        Uf must(n), may(n);
        for (int64_t i = 0; i < n; ++i) if (half[i])
            for (int64_t a = -d; a <= d; ++a) for (int64_t b = -(d - std::abs(a)); b <= d - std::abs(a); ++b) {
                int64_t y = i / p.N + a, x = i % p.N + b;
                if (y < 0 || y >= p.R || x < 0 || x >= p.N || !half[y * p.N + x]) continue;
                if (std::abs(a) + std::abs(b) < d) must.u(i, y * p.N + x);
                if (std::abs(a) + std::abs(b) < d || a) may.u(i, y * p.N + x);
            }
        std::vector<int64_t> owner(n, -1);
        bool ok = true;
        for (size_t k = 0; k < ph.size() && ok; ++k) {
            auto &c = ph[k];
            ok = h.check(!c.locations.empty(), "empty-cluster", [&] { return cat("cluster ", k); });
            bool any = false;
            int64_t best = -1, comp = -1;
            for (auto &l : c.locations) {
                bool in = l.drift_index >= 0 && l.drift_index < p.R && l.frequency_channel >= 0 && l.frequency_channel < p.N;
                if (!h.check(in, "location-outside", [&] { return cat(l.drift_index, ",", l.frequency_channel); })) { ok = false; break; }
                int64_t i = l.drift_index * p.N + l.frequency_channel;
                if (!h.check(owner[i] < 0, "cell-twice", [&] { return cat("cell ", l.drift_index, ",", l.frequency_channel, " is in clusters ", owner[i], " and ", k); })) ok = false;
                owner[i] = (int64_t)k;
                if (!h.check(half[i], "cell-below-half-threshold", [&] { return cat("snr ", p.snr(i)); })) ok = false;
                any |= seed[i];
                if (best < 0 || p.snr(i) > p.snr(best)) best = i;
                if (comp < 0) comp = may.f(i);
                if (!h.check(comp == may.f(i), "unlinked-cells-joined", [&] { return cat("cells of cluster ", k, " that no chain joins, e.g. ", l.drift_index, ",", l.frequency_channel); })) ok = false;
            }
            if (!ok) break;
            h.check(any, "cluster-below-threshold", [&] { return cat("cluster ", k, " has no cell above threshold"); });
            int64_t im = c.index_max.drift_index * p.N + c.index_max.frequency_channel;
            bool inb = c.index_max.drift_index >= 0 && c.index_max.drift_index < p.R && c.index_max.frequency_channel >= 0 && c.index_max.frequency_channel < p.N;
            if (!h.check(inb && owner[im] == (int64_t)k && close(p.snr(im), p.snr(best), 1e-5), "cluster-maximum", [&] { return cat("reported ", c.index_max.drift_index, ",", c.index_max.frequency_channel, " but ", best / p.N, ",", best % p.N, " has snr ", p.snr(best)); })) break;
            h.check(close(c.snr, p.snr(im), 1e-4), "cluster-snr", [&] { return cat(c.snr, " expected ", p.snr(im)); });
            h.check(c.max_integration == p.v[im], "cluster-value", [&] { return cat(c.max_integration, " expected ", p.v[im]); });
            h.check(close(c.desmeared_noise, p.noise[im / p.N], 1e-5), "cluster-noise", [&] { return cat(c.desmeared_noise, " expected ", p.noise[im / p.N]); });
            h.check(rfi_ok(p, c.rfi_counts, im), "cluster-flags", [&] { return cat("cell ", im / p.N, ",", im % p.N); });
            int64_t lo = im % p.N, hi = lo;
            for (auto &l : c.locations) if (l.drift_index == im / p.N) lo = std::min(lo, l.frequency_channel), hi = std::max(hi, l.frequency_channel);
            h.check(c.binwidth == hi - lo && c.index_center.drift_index == im / p.N && c.index_center.frequency_channel == (hi + lo) / 2, "cluster-extent",
                    [&] { return cat("width ", c.binwidth, " centre ", c.index_center.drift_index, ",", c.index_center.frequency_channel, " expected ", lo, "..", hi); });
            h.count("clusters_judged");
            h.count("cells_in_clusters", c.locations.size());
        }
        if (!ok) return;
        std::string miss, split;
        std::map<int64_t, int64_t> first;
        for (int64_t i = 0; i < n; ++i) {
            if (seed[i] && owner[i] < 0 && miss.empty()) miss = cat("cell ", i / p.N, ",", i % p.N, " snr ", p.snr(i));
            if (owner[i] >= 0) {
                auto it = first.emplace(must.f(i), owner[i]).first;
                if (it->second != owner[i] && split.empty()) split = cat("clusters ", it->second, " and ", owner[i]);
            }
        }
        h.check(miss.empty(), "significant-cell-unreported", [&] { return miss; });
        h.check(split.empty(), "close-cells-split", [&] { return split; });
        h.count("cells_above_threshold", seeds);
        if (seeds) h.nontrivial(h.desc); else h.count("planes_without_signal");
    };
    h.cases("clusters", 2500, 60000, [&] { clusters(0); });
    h.cases("large planes", 24, 600, [&] { clusters(1); });
    h.cases("vast planes", 8, 120, [&] { clusters(2); });
    h.cases("mask components", 800, 15000, [&] {
        Rng &r = h.rng;
        int64_t R = r.range(1, 14), N = r.range(1, 30), n = R * N;
        double dens = r.pick({0.05, 0.3, 0.6, 1.0});
        std::vector<uint8_t> m(n);
        for (auto &x : m) x = r.chance(dens) ? (uint8_t)r.pick({1, 1, 255, 7}) : 0;
        std::vector<std::pair<int64_t, int64_t>> nb; // symmetric neighbourhood
        int k = (int)r.range(0, 3);
        if (k == 0) nb = {{0, 1}, {0, -1}, {1, 0}, {-1, 0}};
        else if (k == 1) { for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) if (a || b) nb.push_back({a, b}); }
        else { int c = (int)r.range(0, 5); for (int i = 0; i < c; ++i) { int64_t a = r.range(-3, 3), b = r.range(-3, 3); nb.push_back({a, b}); nb.push_back({-a, -b}); } }
        std::vector<bland::nd_coords> nc;
        for (auto &x : nb) nc.push_back({x.first, x.second});
        h.describe(cat("mask ", R, "x", N, " neighbours ", nb.size(), " hash ", vh::fnv(vec(m, 100000))));
        auto arr = u8v(r, {R, N}, m);
        auto ph = find_components_in_binary_mask(arr, nc);
        Uf uf(n);
        for (int64_t i = 0; i < n; ++i) if (m[i]) for (auto &x : nb) { int64_t y = i / N + x.first, z = i % N + x.second; if (y >= 0 && y < R && z >= 0 && z < N && m[y * N + z]) uf.u(i, y * N + z); }
        std::set<int64_t> roots;
        for (int64_t i = 0; i < n; ++i) if (m[i]) roots.insert(uf.f(i));
        std::vector<int64_t> owner(n, -1);
        std::string bad;
        if (ph.size() != roots.size()) bad = cat(ph.size(), " components expected ", roots.size());
        for (size_t k = 0; k < ph.size() && bad.empty(); ++k) for (auto &l : ph[k].locations) {
            int64_t i = l.drift_index * N + l.frequency_channel;
            if (l.drift_index < 0 || l.drift_index >= R || l.frequency_channel < 0 || l.frequency_channel >= N || !m[i] || owner[i] >= 0) { bad = cat("cell ", l.drift_index, ",", l.frequency_channel, " wrong or twice"); break; }
            owner[i] = (int64_t)k;
            if (uf.f(i) != uf.f(ph[k].locations[0].drift_index * N + ph[k].locations[0].frequency_channel)) { bad = "unconnected cells joined"; break; }
        }
        for (int64_t i = 0; i < n && bad.empty(); ++i) if (m[i] && owner[i] < 0) bad = cat("cell ", i / N, ",", i % N, " in no component");
        h.check(bad.empty(), "mask-components", [&] { return bad; });
        h.check(bvals(arr) == m, "mask-changed", [&] { return std::string(); });
        h.count("components_judged", ph.size());
        if (!roots.empty()) h.nontrivial(h.desc);
    });
}

// exclusive frequency edges around a maximum: walk while the signal keeps falling and stays above threshold
std::pair<int64_t, int64_t> ref_edges(const Plane &p, int64_t cell) {
    int64_t row = cell / p.N, f = cell % p.N, lo = f, hi = f;
    float last = p.v[cell];
    for (--lo; lo >= 0 && p.snr(row * p.N + lo) > p.o.snr_threshold && p.v[row * p.N + lo] < last; --lo) last = p.v[row * p.N + lo];
    last = p.v[cell];
    for (++hi; hi < p.N && p.snr(row * p.N + hi) > p.o.snr_threshold && p.v[row * p.N + hi] < last; ++hi) last = p.v[row * p.N + hi];
    return {lo, hi};
}
void D05(H &h) {
    h.rule = "a plane with at least one cell above threshold in which every cell was judged: must be, may be, or must not be a maximum";
    auto maxima = [&](int big) {
        Rng &r = h.rng;
        Plane p = rand_plane(r, hit_search_methods::LOCAL_MAXIMA, big);
        h.describe(text(p));
        auto fdp = plane_of(r, p);
        auto ph = protohit_search(fdp, stats_of(p.floor, p.power), p.o);
        int64_t n = p.R * p.N, d = p.o.neighbor_l1_dist;
        std::vector<int> rep(n, 0);
        for (auto &c : ph) {
            bool inb = c.index_max.drift_index >= 0 && c.index_max.drift_index < p.R && c.index_max.frequency_channel >= 0 && c.index_max.frequency_channel < p.N;
            if (!h.check(inb, "maximum-outside", [&] { return cat(c.index_max.drift_index, ",", c.index_max.frequency_channel); })) return;
            int64_t i = c.index_max.drift_index * p.N + c.index_max.frequency_channel;
            ++rep[i];
            h.check(close(c.snr, p.snr(i), 1e-4), "maximum-snr", [&] { return cat(c.snr, " expected ", p.snr(i)); });
            h.check(c.max_integration == p.v[i], "maximum-value", [&] { return cat(c.max_integration, " expected ", p.v[i]); });
            h.check(close(c.desmeared_noise, p.noise[i / p.N], 1e-5), "maximum-noise", [&] { return cat(c.desmeared_noise, " expected ", p.noise[i / p.N]); });
            h.check(rfi_ok(p, c.rfi_counts, i), "maximum-flags", [&] { return cat("cell ", i / p.N, ",", i % p.N); });
            auto e = ref_edges(p, i);
            h.check(c.binwidth == e.second - e.first && c.index_center.drift_index == i / p.N && c.index_center.frequency_channel == (e.first + e.second) / 2, "maximum-edges",
                    [&] { return cat("width ", c.binwidth, " centre ", c.index_center.drift_index, ",", c.index_center.frequency_channel, " expected edges ", e.first, " and ", e.second); });
            h.count("maxima_judged");
        }
        std::string miss, extra, twice;
        uint64_t musts = 0, nots = 0, open = 0, above = 0;
        for (int64_t i = 0; i < n; ++i) {
            bool must = p.snr(i) > p.o.snr_threshold, not_ = !must;
            above += must;
            for (int64_t a = -d; a <= d && (must || !not_); ++a) for (int64_t b = -(d - std::abs(a)); b <= d - std::abs(a); ++b) {
                if (!a && !b) continue;
                int64_t y = i / p.N + a, x = i % p.N + b;
                bool in = y >= 0 && y < p.R && x >= 0 && x < p.N;
                bool lower = in && p.snr(y * p.N + x) < p.snr(i) - 1e-5f * std::abs(p.snr(i)) - 1e-5f;
                bool notlower = !in || p.snr(y * p.N + x) >= p.snr(i);
                if (in && y == i / p.N) { lower = p.v[y * p.N + x] < p.v[i] && p.snr(y * p.N + x) < p.snr(i); notlower = !lower; }
                // whether a neighbour at exactly the link distance counts is left open, as far as it does now
                if (!lower && (std::abs(a) + std::abs(b) < d || a < 0)) must = false;
                if (notlower && std::abs(a) + std::abs(b) < d) not_ = true;
            }
            if (must && !rep[i] && miss.empty()) miss = cat("cell ", i / p.N, ",", i % p.N, " snr ", p.snr(i));
            if (not_ && rep[i] && extra.empty()) extra = cat("cell ", i / p.N, ",", i % p.N, " snr ", p.snr(i));
            if (rep[i] > 1 && twice.empty()) twice = cat("cell ", i / p.N, ",", i % p.N);
            musts += must; nots += not_; open += !must && !not_;
        }
        h.check(miss.empty(), "maximum-unreported", [&] { return miss; });
        h.check(extra.empty(), "not-a-maximum", [&] { return extra; });
        h.check(twice.empty(), "maximum-twice", [&] { return twice; });
        h.count("cells_that_must_be_reported", musts); h.count("cells_that_must_not", nots); h.count("cells_left_open", open);
        if (above) h.nontrivial(h.desc); else h.count("planes_without_signal");
    };
    h.cases("maxima", 3000, 80000, [&] { maxima(0); });
    h.cases("large planes", 24, 600, [&] { maxima(1); });
    h.cases("vast planes", 8, 120, [&] { maxima(2); });
}

void D06(H &h) {
    h.rule = "a search that returned hits, every field of each compared with the cell, the row and the channel it came from";
    auto body = [&](bool vast) {
        Rng &r = h.rng;
        auto m = r.chance(0.5) ? hit_search_methods::CONNECTED_COMPONENTS : hit_search_methods::LOCAL_MAXIMA;
        Plane p = rand_plane(r, m, vast ? 2 : r.chance(0.01) ? 1 : 0);
        int64_t number = r.pick({(int64_t)0, r.range(0, 500), r.range(0, 100000)});
        int level = (int)r.range(0, 1);
        h.describe(cat(text(p), " method ", (int)m, " channel ", number, " level ", level, " fch1 ", p.md.fch1, " foff ", p.md.foff));
        auto cc = cc_of(r, p, number);
        std::list<hit> hits;
        int64_t want_number = number;
        if (level == 0) hits = hit_search(cc, p.o);
        else {
            std::map<int, std::shared_ptr<coarse_channel>> mp;
            mp[0] = std::make_shared<coarse_channel>(cc);
            hits = hit_search(scan(mp), p.o).hits();
        }
        auto fdp = plane_of(r, p);
        auto ph = protohit_search(fdp, stats_of(p.floor, p.power), p.o);
        if (!h.check(hits.size() == ph.size(), "number-of-hits", [&] { return cat(hits.size(), " expected ", ph.size()); })) return;
        std::set<std::pair<int64_t, int64_t>> seen;
        for (auto &x : hits) {
            bool inb = x.rate_index >= 0 && x.rate_index < p.R && x.start_freq_index >= 0 && x.start_freq_index < p.N;
            if (!h.check(inb, "hit-outside", [&] { return cat(x.rate_index, ",", x.start_freq_index); })) return;
            h.check(seen.insert({x.rate_index, x.start_freq_index}).second, "hit-twice", [&] { return cat(x.rate_index, ",", x.start_freq_index); });
            int64_t i = x.rate_index * p.N + x.start_freq_index;
            const protohit *q = nullptr;
            for (auto &c : ph) if (c.index_max.drift_index == x.rate_index && c.index_max.frequency_channel == x.start_freq_index) q = &c;
            if (!h.check(q, "hit-without-cell", [&] { return cat(x.rate_index, ",", x.start_freq_index); })) return;
            int64_t lo, hi;
            if (m == hit_search_methods::LOCAL_MAXIMA) { auto e = ref_edges(p, i); lo = e.first; hi = e.second; }
            else { lo = hi = x.start_freq_index; for (auto &l : q->locations) if (l.drift_index == x.rate_index) lo = std::min(lo, l.frequency_channel), hi = std::max(hi, l.frequency_channel); }
            int64_t centre = (lo + hi) / 2;
            double f = p.md.fch1 + p.md.foff * (double)centre;
            double pw = (double)p.v[i] - p.floor, nz = p.noise[x.rate_index];
            double ptol = 1e-6 * std::max(std::abs((double)p.v[i]), std::abs((double)p.floor));
            auto ck = [&](bool ok, const char *k, double got, double want) { h.check(ok, k, [&] { return cat(got, " expected ", want, " (cell ", x.rate_index, ",", x.start_freq_index, ")"); }); };
            ck(std::abs(x.start_freq_MHz - f) <= 1e-9 + 1e-12 * std::abs(f), "hit-frequency", x.start_freq_MHz, f);
            ck(close(x.drift_rate_Hz_per_sec, p.rates[x.rate_index].drift_rate_Hz_per_sec, 1e-9), "hit-drift", x.drift_rate_Hz_per_sec, p.rates[x.rate_index].drift_rate_Hz_per_sec);
            ck(close(x.power, pw, 1e-5, ptol), "hit-power", x.power, pw);
            ck(close(x.snr, pw / nz, 1e-4, 2 * ptol / nz), "hit-snr", x.snr, pw / nz);
            ck(x.binwidth == hi - lo, "hit-binwidth", (double)x.binwidth, (double)(hi - lo));
            ck(close(x.bandwidth, (hi - lo) * std::abs(p.md.foff) * 1e6, 1e-5), "hit-bandwidth", x.bandwidth, (hi - lo) * std::abs(p.md.foff) * 1e6);
            ck(close(x.start_time_sec, p.md.tstart * 86400, 1e-12), "hit-start-time", x.start_time_sec, p.md.tstart * 86400);
            ck(close(x.duration_sec, p.md.tsamp * p.T, 1e-9), "hit-duration", x.duration_sec, p.md.tsamp * p.T);
            ck(x.time_span_steps == p.T, "hit-steps", (double)x.time_span_steps, (double)p.T);
            ck(x.coarse_channel_number == want_number, "hit-channel", (double)x.coarse_channel_number, (double)want_number);
            h.check(rfi_ok(p, x.rfi_counts, i), "hit-flags", [&] { return cat("cell ", x.rate_index, ",", x.start_freq_index); });
            h.count("hits_compared");
        }
        if (!hits.empty()) h.nontrivial(h.desc);
    };
    h.cases("hits", 2500, 60000, [&] { body(false); });
    h.cases("vast planes", 8, 120, [&] { body(true); });
}

hit rand_hit(Rng &r) {
    hit x;
    x.start_freq_index = r.range(0, 1 << 20);
    x.start_freq_MHz = r.uni(1000, 11000);
    x.start_time_sec = 5e9 + r.uni(0, 1e6);
    x.duration_sec = r.uni(1, 1000);
    x.rate_index = r.range(0, 2000);
    x.drift_rate_Hz_per_sec = r.pick({0.0, -0.0, 5e-7, -5e-7, 2e-6, -2e-6, 1e-9, r.uni(-4, 4), r.uni(-4, 4), r.uni(-4, 4)});
    x.power = r.uni(1, 1e6);
    x.time_span_steps = r.range(2, 100);
    x.snr = (float)r.uni(1, 1000);
    x.bandwidth = (float)r.uni(0, 100);
    x.binwidth = r.range(0, 40);
    x.coarse_channel_number = r.range(0, 500);
    int k = (int)r.range(0, 3);
    for (auto f : {flag_values::filter_rolloff, flag_values::low_spectral_kurtosis, flag_values::high_spectral_kurtosis, flag_values::magnitude, flag_values::sigma_clip})
        if (k == 0 ? false : k == 1 ? true : r.chance(0.5)) x.rfi_counts[f] = r.chance(0.6) ? 0 : (uint8_t)r.pick({1, 2, 255, 128});
    return x;
}
bool same_hit(const hit &a, const hit &b) {
    auto cnt = [](const hit &h) { std::map<int, int> m; for (auto &k : h.rfi_counts) if (k.second) m[(int)k.first] = k.second; return m; };
    return a.start_freq_index == b.start_freq_index && a.start_freq_MHz == b.start_freq_MHz && a.start_time_sec == b.start_time_sec && a.duration_sec == b.duration_sec && a.rate_index == b.rate_index && a.drift_rate_Hz_per_sec == b.drift_rate_Hz_per_sec && a.power == b.power && a.time_span_steps == b.time_span_steps && a.snr == b.snr && a.bandwidth == b.bandwidth && a.binwidth == b.binwidth && a.coarse_channel_number == b.coarse_channel_number && cnt(a) == cnt(b);
}
bool same_hits(const std::list<hit> &a, const std::list<hit> &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), same_hit); }

void D07(H &h) {
    h.rule = "a hit list with hits to remove and hits to keep, filtered directly or inside a channel, scan, target or cadence";
    h.cases("filter", 4000, 100000, [&] {
        Rng &r = h.rng;
        filter_options o;
        o.filter_zero_drift = r.chance(0.5);
        int level = (int)r.range(0, 4);
        int n = (int)r.pick({r.range(0, 2), r.range(0, 12), r.range(0, 60), r.chance(0.05) ? r.range(200, 1500) : 5});
        if (r.chance(0.004)) n = (int)r.pick({r.range(2000, 10000), r.range(30000, 70000)}); // a search with a low threshold
        std::list<hit> in;
        for (int i = 0; i < n; ++i) { if (i && r.chance(0.1)) in.push_back(in.back()); else in.push_back(rand_hit(r)); }
        std::list<hit> want;
        auto cnt = [](const hit &x, flag_values k) { auto i = x.rfi_counts.find(k); return i == x.rfi_counts.end() ? 0 : (int)i->second; };
        for (auto &x : in) if (!cnt(x, flag_values::filter_rolloff) && !cnt(x, flag_values::low_spectral_kurtosis) && !(o.filter_zero_drift && std::abs(x.drift_rate_Hz_per_sec) < 1e-6)) want.push_back(x);
        h.describe(cat(n, " hits, ", want.size(), " to keep, zero drift ", o.filter_zero_drift, " level ", level));
        std::list<hit> out, keep = in;
        Meta md = rand_meta(r);
        auto cc = make_cc(f32({2, 3}, std::vector<float>(6, 1)), u8({2, 3}, std::vector<uint8_t>(6, 0)), md, 2, 3, 0);
        bool lazy = r.chance(0.5);
        if (lazy) cc.set_hits([in]() { return in; }); else cc.set_hits(in);
        bool twice = r.chance(0.2);
        auto sc = [&] { std::map<int, std::shared_ptr<coarse_channel>> m; m[0] = std::make_shared<coarse_channel>(cc); return scan(m); };
        if (level == 0) { out = filter_hits(in, o); if (twice) out = filter_hits(out, o); h.check(same_hits(in, keep), "input-changed", [&] { return std::string(); }); }
        else if (level == 1) { auto f = filter_hits(cc, o); out = f.hits(); if (twice) out = filter_hits(f, o).hits(); h.check(same_hits(cc.hits(), keep), "input-changed", [&] { return std::string("channel"); }); }
        else if (level == 2) { auto s = sc(); auto f = filter_hits(s, o); out = f.hits(); if (twice) out = filter_hits(f, o).hits(); h.check(same_hits(s.hits(), keep), "input-changed", [&] { return std::string("scan"); }); }
        else if (level == 3) { observation_target t(std::vector<scan>{sc(), sc()}); auto f = filter_hits(t, o); out = f._scans.at(r.range(0, 1)).hits(); h.check(same_hits(t._scans.at(0).hits(), keep), "input-changed", [&] { return std::string("target"); }); }
        else { cadence c(std::vector<observation_target>{observation_target(std::vector<scan>{sc()}), observation_target(std::vector<scan>{sc(), sc()})}); auto f = filter_hits(c, o); out = f._observations.at(1)._scans.at(r.range(0, 1)).hits(); h.check(same_hits(c._observations.at(1)._scans.at(0).hits(), keep), "input-changed", [&] { return std::string("cadence"); }); }
        h.check(same_hits(out, want), "filtered-list", [&] { return cat(out.size(), " kept, expected ", want.size()); });
        h.count("hits_kept", want.size()); h.count("hits_removed", in.size() - want.size());
        if (!want.empty() && want.size() < in.size()) h.nontrivial(cat(h.desc, " ", vh::fnv(cat(in.front().power, in.back().snr))));
    });
    h.cases("no hits", 20, 100, [&] {
        auto cc = make_cc(f32({2, 3}, std::vector<float>(6, 1)), u8({2, 3}, std::vector<uint8_t>(6, 0)), rand_meta(h.rng), 2, 3, 0);
        h.describe("a channel that was never searched");
        h.check(refused([&] { filter_hits(cc, filter_options{}); }), "unsearched-channel-accepted", [&] { return std::string(); });
    });
}

// -------------------------------------------------------------------------------------------------- D08: pipeline
struct Signal { int64_t f0, span; double amp; int64_t D; };
void D08(H &h) {
    h.rule = "a scan with injected signals searched end to end: every signal found where it was put, nothing strong elsewhere";
    h.cases("pipeline", 260, 6000, [&] {
        Rng &r = h.rng;
        int64_t T = r.pick({(int64_t)16, (int64_t)17, (int64_t)24, (int64_t)32, r.range(12, 40)});
        int64_t L = r.pick({(int64_t)8, (int64_t)16, 2 * T}), d = r.range(2, 7), step = L > 8 ? r.pick({(int64_t)1, (int64_t)1, (int64_t)2}) : 1;
        bool lm = r.chance(0.5), desmear = r.chance(0.7), file = r.chance(0.5), filter = r.chance(0.6);
        if (L > T) desmear = true; // signals that cross several channels per step need it
        int64_t margin = 2 * L + 24, N = 2 * margin + r.pick({(int64_t)40, (int64_t)150, (int64_t)300});
        int64_t nc = r.range(1, 3);
        if (file) N += N % 2;
        double mean = r.pick({100.0, 1e4, 5.0}), sd = mean / std::sqrt(51.0);
        Meta m = rand_meta(r);
        m.foff = r.pick({-2.7939677238464355e-06, 2.7939677238464355e-06});
        m.tsamp = 18.253611008;
        int64_t reach = (d + 2) * step + 1;
        int64_t smax = L - reach;
        std::vector<Signal> sig;
        int64_t ns = r.range(0, 3);
        for (int64_t k = 0; k < ns; ++k) {
            Signal s;
            if (smax < 1 + step) break;
            s.span = r.range(-smax, smax);
            if (filter && std::abs(s.span) <= step) s.span = step + 1; // its maximum may not land on the row of zero drift
            s.f0 = r.range(margin, N - margin);
            bool far = true;
            for (auto &o : sig) if (std::abs(o.f0 - s.f0) < 4 * L + 4 * d + 20) far = false;
            if (!far) continue;
            double slope = std::abs((double)s.span / (T - 1));
            s.D = desmear ? std::max<int64_t>(1, std::llround(slope)) : 1;
            if (!desmear && slope > 1.2) s.span = std::max<int64_t>(-T + 1, std::min<int64_t>(T - 1, s.span));
            s.amp = r.pick({45.0, 60.0, 150.0}) * sd / std::sqrt((double)T * s.D) * s.D * (step > 1 ? 1.6 : 1);
            sig.push_back(s);
        }
        std::vector<float> base(T * N);
        for (auto &x : base) x = (float)(mean + sd * r.normal());
        for (auto &s : sig) for (int64_t t = 0; t < T; ++t) {
            int64_t o = std::llround((double)s.span * t / (T - 1));
            for (int64_t k = 0; k < s.D; ++k) { int64_t p = s.span < 0 ? s.f0 + o - k : s.f0 + o + k; if (p >= 0 && p < N) base[t * N + p] += (float)(s.amp / s.D); }
        }
        std::string st;
        for (auto &s : sig) st += cat(" (channel ", s.f0, " span ", s.span, " amplitude ", s.amp / sd, " sd)");
        h.describe(cat("T ", T, " N ", N, " x", nc, file ? " file" : " memory", " drifts ", -L, "..", L, " step ", step, desmear ? " desmeared" : "", lm ? " local maxima" : " components", " distance ", d, filter ? " filtered" : "", " signals", st));
        // the same spectrum in every coarse channel: the result may not depend on where it sits
        std::string path = scratch(h, "d08.h5");
        scan sc;
        if (file) {
            std::vector<float> all(T * N * nc);
            for (int64_t t = 0; t < T; ++t) for (int64_t c = 0; c < nc; ++c) std::copy_n(&base[t * N], N, &all[t * N * nc + c * N]);
            FB fb = std_fb(T, N * nc, m, all);
            write_fb(path, fb);
            sc = scan(path, (int)N);
        } else sc = mem_scan(m, T, N, std::vector<std::vector<float>>(nc, base), &r);
        float roll = (float)r.uni(0, 0.02);
        std::vector<int> order{0, 1, 2};
        std::swap(order[r.range(0, 2)], order[r.range(0, 2)]);
        bool norm = r.chance(0.4);
        if (norm) sc = normalize(sc);
        std::string stages;
        for (int k : order) {
            if (r.chance(0.4)) continue;
            stages += cat(k);
            if (k == 0) sc = flag_filter_rolloff(sc, roll);
            if (k == 1) sc = flag_spectral_kurtosis(sc, 0.01f, 50.0f, 2.0f);
            if (k == 2) sc = flag_sigmaclip(sc, 5, 4.0f, 4.0f);
        }
        h.describe(h.desc + " flags " + stages);
        noise_power_estimate_options no;
        no.estimator_method = noise_power_estimator::STDDEV;
        no.masked_estimate = r.chance(0.6);
        sc = estimate_noise_power(sc, no);
        integrate_drifts_options io;
        io.desmear = desmear; io.low_rate = -L; io.high_rate = L; io.rate_step_size = step;
        sc = integrate_drifts(sc, io);
        hit_search_options so;
        so.method = lm ? hit_search_methods::LOCAL_MAXIMA : hit_search_methods::CONNECTED_COMPONENTS;
        so.snr_threshold = 10; so.neighbor_l1_dist = (int)d;
        sc = hit_search(sc, so);
        if (filter) { filter_options fo; fo.filter_zero_drift = true; sc = filter_hits(sc, fo); }
        std::vector<std::vector<hit>> per(nc);
        for (int64_t c = 0; c < nc; ++c) {
            auto cc = sc.read_coarse_channel((int)c);
            auto mask = bvals(cc->mask());
            for (auto &s : sig) for (int64_t t = 0; t < T; ++t) for (int64_t f = std::max<int64_t>(0, s.f0 - L - 3); f < std::min(N, s.f0 + L + 3); ++f) if (filter && (mask[t * N + f] & (ROLL | LOWSK))) { h.count("signals_flagged"); if (file) unlink(path.c_str()); return; }
            for (auto &x : cc->hits()) per[c].push_back(x);
            std::sort(per[c].begin(), per[c].end(), [](const hit &a, const hit &b) { return std::tie(a.start_freq_index, a.rate_index) < std::tie(b.start_freq_index, b.rate_index); });
        }
        auto all = sc.hits();
        size_t total = 0;
        for (auto &v : per) total += v.size();
        h.check(all.size() == total, "scan-collects-hits", [&] { return cat(all.size(), " expected ", total); });
        for (int64_t c = 0; c < nc; ++c) {
            for (auto &s : sig) {
                bool found = false;
                std::string near;
                int64_t row = s.span + L; // in units of one channel
                for (auto &x : per[c]) {
                    int64_t df = std::abs(x.start_freq_index - s.f0), ds = std::abs(x.rate_index * step - row);
                    if (df <= s.D + step + 1 && ds <= s.D + step) found = true;
                    if (df < 3 * L) near += cat(" ", x.start_freq_index, "@", x.rate_index * step - L, " snr ", x.snr);
                }
                h.check(found, "signal-not-found", [&] { return cat("coarse channel ", c, " signal at ", s.f0, " span ", s.span, "; hits nearby:", near, " of ", per[c].size()); });
                if (!lm) {
                    int64_t cl = 0;
                    for (auto &x : per[c]) if (std::abs(x.start_freq_index - s.f0) <= s.D + step + 1 && std::abs(x.rate_index * step - row) <= s.D + step) ++cl;
                    h.check(cl <= 1, "signal-found-twice", [&] { return cat(cl, " hits:", near); });
                }
                h.count("signals_searched");
            }
            for (auto &x : per[c]) {
                bool ok = false;
                for (auto &s : sig) {
                    int64_t df = std::abs(x.start_freq_index - s.f0), ds = std::abs(x.rate_index * step - L - s.span);
                    if (df <= ds + 2 * L / T + s.D + d + 3) ok = true;
                }
                h.check(ok, "hit-without-signal", [&] { return cat("coarse channel ", c, " hit at ", x.start_freq_index, " row ", x.rate_index, " snr ", x.snr); });
                double f = m.fch1 + m.foff * (double)(c * N + x.start_freq_index);
                h.check(std::abs(x.start_freq_MHz - f) <= std::abs(m.foff) * (2 * L + 20), "hit-frequency-in-band", [&] { return cat(x.start_freq_MHz, " expected about ", f); });
                h.check(x.coarse_channel_number == c, "hit-coarse-channel", [&] { return cat(x.coarse_channel_number, " expected ", c); });
                double hz = (double)(x.rate_index * step - L) / (T - 1) * m.foff * 1e6 / m.tsamp;
                h.check(close(x.drift_rate_Hz_per_sec, hz, 1e-5, 1e-12), "hit-rate", [&] { return cat(x.drift_rate_Hz_per_sec, " expected ", hz); });
                h.count("hits_judged");
            }
            bool same = per[c].size() == per[0].size();
            for (size_t k = 0; same && k < per[c].size(); ++k) same = per[c][k].start_freq_index == per[0][k].start_freq_index && per[c][k].rate_index == per[0][k].rate_index && per[c][k].snr == per[0][k].snr && per[c][k].binwidth == per[0][k].binwidth;
            h.check(same, "depends-on-channel", [&] { return cat("coarse channel ", c, " has ", per[c].size(), " hits, channel 0 ", per[0].size()); });
        }
        if (nc > 1 && r.chance(0.5)) { // a slice of the scan gives the hits of its channels
            int64_t c = r.range(0, nc - 1);
            auto sl = sc.slice_scan_channels(c, 1);
            h.check(sl.hits().size() == per[c].size(), "slice-hits", [&] { return cat(sl.hits().size(), " expected ", per[c].size()); });
        }
        if (file) unlink(path.c_str());
        if (!sig.empty()) h.nontrivial(h.desc);
    });
}

// ------------------------------------------------------------------------------------------------------ D09: events
double ref_distance(const hit &a, const hit &b) {
    double A = a.drift_rate_Hz_per_sec, B = b.drift_rate_Hz_per_sec;
    double dd = std::abs(A - B) / ((double)1e-8f + A * A + B * B);
    double t0 = std::min(a.start_time_sec, b.start_time_sec), t1 = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec), mid = (t0 + t1) / 2;
    double fa = a.start_freq_MHz * 1e6 + A * (mid - a.start_time_sec), fb = b.start_freq_MHz * 1e6 + B * (mid - b.start_time_sec);
    return 0.01 * std::abs(fa - fb) + 10 * dd * dd;
}
struct RefEvent { std::vector<hit> hits; double start, end; };
bool lt(const hit &a, const hit &b) { return std::tie(a.start_freq_MHz, a.drift_rate_Hz_per_sec, a.start_time_sec, a.power) < std::tie(b.start_freq_MHz, b.drift_rate_Hz_per_sec, b.start_time_sec, b.power); }
void D09(H &h) {
    h.rule = "a cadence whose events were compared with a reference search over the same hit lists, at least one candidate pair existing";
    auto search = [&](int mode) { // 1: many scans, 2: many hits in a scan
        Rng &r = h.rng;
        int non = (int)(mode == 1 ? r.range(5, 9) : mode == 2 ? r.range(2, 3) : r.range(1, 4)), nofft = (int)(mode == 1 ? r.range(0, 7) : mode == 2 ? r.range(0, 1) : r.range(0, 3));
        bool flat = r.chance(0.25); // every strength and width alike: only where and when tell hits apart
        Meta m = rand_meta(r);
        m.foff = 2.79e-6; m.tsamp = r.pick({18.0, 1.0}); m.fch1 = 8000 + r.range(0, 100);
        int64_t T = 16;
        double dur = m.tsamp * T;
        // signals: base frequency at time zero and drift; present in some scans
        struct Sg { double f, drift; };
        std::vector<Sg> sg;
        int nsg = (int)(mode == 2 ? r.range(40, 90) : r.range(0, 5));
        for (int i = 0; i < nsg; ++i) sg.push_back({m.fch1 * 1e6 + r.uni(0, 2e6), r.pick({r.uni(-2, 2), r.uni(-0.2, 0.2), 0.0, 0.5})});
        double jit = r.pick({0.0, 1.0, 100.0, 2500.0, 4900.0, 6000.0}), djit = r.pick({0.0, 0.0, 0.01, 0.2});
        double t = m.tstart * 86400;
        auto mk = [&](double f, double drift, double start) {
            hit x = rand_hit(r);
            x.start_freq_MHz = f / 1e6; x.drift_rate_Hz_per_sec = drift; x.start_time_sec = start; x.duration_sec = dur; x.time_span_steps = T;
            if (flat) x.snr = 25, x.power = 1000, x.bandwidth = 8, x.binwidth = 3;
            return x;
        };
        auto mkscan = [&](bool on, std::vector<hit> &list, double ts, int nth) {
            Meta mi = m;
            mi.tstart = ts / 86400;
            for (auto &s : sg) if (r.chance(on ? 0.8 : 0.25)) {
                int copies = r.chance(0.1) ? 2 : 1;
                for (int k = 0; k < copies; ++k) list.push_back(mk(s.f + s.drift * (ts - t) + r.uni(-jit, jit), s.drift * (1 + r.uni(-djit, djit)), mi.tstart * 86400));
            }
            int noise = (int)(mode == 2 ? r.range(0, 60) : r.range(0, 3));
            for (int k = 0; k < noise; ++k) list.push_back(mk(m.fch1 * 1e6 + r.uni(0, 2e6), r.uni(-2, 2), mi.tstart * 86400));
            if (r.chance(0.1) && !list.empty()) list.push_back(list.front());
            std::map<int, std::shared_ptr<coarse_channel>> mp;
            int64_t nc = r.range(1, 2);
            for (int64_t c = 0; c < nc; ++c) {
                Meta mc = mi; mc.fch1 = m.fch1 + m.foff * 4 * c;
                auto cc = make_cc(f32({T, 4}, std::vector<float>(4 * T, 1)), u8({T, 4}, std::vector<uint8_t>(4 * T, 0)), mc, T, 4, c);
                std::list<hit> part;
                for (size_t k = 0; k < list.size(); ++k) if ((int64_t)k * nc / (int64_t)list.size() == c) part.push_back(list[k]);
                if (r.chance(0.5)) cc.set_hits(part); else cc.set_hits([part] { return part; });
                mp[(int)c] = std::make_shared<coarse_channel>(cc);
            }
            (void)nth;
            return scan(mp);
        };
        std::vector<std::vector<hit>> on(non), off;
        std::vector<double> tstart;
        std::vector<scan> ons;
        std::vector<std::vector<scan>> offs(nofft);
        double now = t;
        for (int i = 0; i < non; ++i) {
            ons.push_back(mkscan(true, on[i], now, i));
            tstart.push_back(now);
            now += dur + r.uni(1, 60);
            for (int o = 0; o < nofft; ++o) if (r.chance(0.6)) { off.emplace_back(); offs[o].push_back(mkscan(false, off.back(), now, i)); now += dur + r.uni(1, 60); }
        }
        std::vector<observation_target> ts{observation_target(ons)};
        for (auto &o : offs) if (!o.empty()) ts.push_back(observation_target(o));
        std::string d = cat("ON");
        for (auto &x : on) d += cat(" ", x.size());
        d += " OFF";
        for (auto &x : off) d += cat(" ", x.size());
        h.describe(cat(d, " signals ", nsg, " jitter ", jit, " Hz ", djit, " case ", h.case_no));
        auto ev = event_search(cadence(ts));
        // what holds for any sensible search
        std::vector<hit> used;
        for (auto &e : ev) {
            h.check(e.hits.size() >= 2, "event-of-one-hit", [&] { return cat(e.hits.size()); });
            std::set<int> scans;
            double sd = 0, sp = 0, ss = 0, sb = 0;
            for (auto &x : e.hits) {
                int w = -1;
                for (int i = 0; i < non; ++i) if (std::abs(x.start_time_sec - tstart[i]) < 0.5) w = i;
                bool in = w >= 0;
                if (in) { in = false; for (auto &y : on[w]) in |= same_hit(x, y); }
                h.check(in, "event-hit-unknown", [&] { return cat("frequency ", x.start_freq_MHz, " time ", x.start_time_sec); });
                h.check(scans.insert(w).second, "event-uses-scan-twice", [&] { return cat("scan ", w); });
                sd += x.drift_rate_Hz_per_sec; sp += x.power; ss += x.snr; sb += x.bandwidth;
                used.push_back(x);
            }
            double n = (double)e.hits.size();
            h.check(close(e.average_drift_rate_Hz_per_sec, sd / n, 1e-5, 1e-9), "event-average-drift", [&] { return cat(e.average_drift_rate_Hz_per_sec, " expected ", sd / n); });
            h.check(close(e.average_power, sp / n, 1e-5), "event-average-power", [&] { return cat(e.average_power, " expected ", sp / n); });
            h.check(close(e.average_snr, ss / n, 1e-5), "event-average-snr", [&] { return cat(e.average_snr, " expected ", ss / n); });
            h.check(close(e.average_bandwidth, sb / n, 1e-5), "event-average-bandwidth", [&] { return cat(e.average_bandwidth, " expected ", sb / n); });
            h.check(close(e.starting_frequency_Hz, e.hits.front().start_freq_MHz * 1e6, 1e-12), "event-frequency", [&] { return cat(e.starting_frequency_Hz); });
            h.check(std::abs(e.event_start_seconds - e.hits.front().start_time_sec) < 0.01, "event-start", [&] { return cat(e.event_start_seconds, " first hit starts ", e.hits.front().start_time_sec); });
            double last = 0;
            for (auto &x : e.hits) last = std::max(last, x.start_time_sec + x.duration_sec);
            h.check(e.event_end_seconds > e.hits.front().start_time_sec + e.hits.front().duration_sec - 0.01 && e.event_end_seconds < last + 0.01, "event-end", [&] { return cat(e.event_end_seconds, " first hit ends ", e.hits.front().start_time_sec + e.hits.front().duration_sec, " the last one ", last); });
            for (auto &o : off) for (auto &x : o) {
                double q = 0;
                for (auto &y : e.hits) q += ref_distance(x, y);
                h.check(q / n > 50 * 0.999, "event-seen-off-source", [&] { return cat("an OFF hit at mean distance ", q / n); });
            }
            h.count("events_judged");
        }
        // reference search; stops where two answers are too close to call
        bool open = false;
        uint64_t pairs = 0;
        auto rem = on;
        std::vector<RefEvent> want;
        auto near = [&](double a, double b) { return std::abs(a - b) <= 1e-4 * std::max(std::abs(a), std::abs(b)) + 1e-4; };
        for (int i = 0; i < non && !open; ++i) for (auto &s : rem[i]) {
            RefEvent c{{s}, tstart[i], 0};
            for (int j = i + 1; j < non; ++j) {
                double best = 1e300; size_t bi = 0; int ties = 0;
                for (size_t k = 0; k < rem[j].size(); ++k) {
                    double low = 1e300;
                    for (auto &x : c.hits) low = std::min(low, ref_distance(x, rem[j][k]));
                    ++pairs;
                    if (best < 1e299 && near(low, best) && !same_hit(rem[j][k], rem[j][bi])) { ++ties; if (low < best) best = low, bi = k; }
                    else if (low < best && !(best < 1e299 && near(low, best))) { best = low; bi = k; ties = 0; }
                }
                if (best < 1e299 && near(best, 50)) open = true;
                if (best < 50) { if (ties) open = true; c.hits.push_back(rem[j][bi]); rem[j].erase(rem[j].begin() + bi); }
            }
            int inoff = 0;
            for (auto &o : off) for (auto &x : o) {
                double q = 0;
                for (auto &y : c.hits) q += ref_distance(x, y);
                q /= c.hits.size();
                if (near(q, 50)) open = true;
                inoff += q < 50;
            }
            if (c.hits.size() > 1 && !inoff) want.push_back(c);
            if (c.hits.size() > 1 && inoff) h.count("candidates_rejected_by_off");
        }
        if (open) { h.count("too_close_to_call"); return; }
        auto key = [](std::vector<hit> v) { std::string s; std::sort(v.begin(), v.end(), lt); for (auto &x : v) s += cat(x.start_freq_MHz, ",", x.drift_rate_Hz_per_sec, ",", x.start_time_sec, ",", x.power, ",", x.snr, ",", x.coarse_channel_number, ";"); return s; };
        std::multiset<std::string> A, B;
        for (auto &e : ev) A.insert(key({e.hits.begin(), e.hits.end()}));
        for (auto &e : want) B.insert(key(e.hits));
        h.check(A == B, "events", [&] { std::string s = cat(ev.size(), " events, expected ", want.size(), ";"); for (auto &x : B) if (!A.count(x)) s += " missing " + x; for (auto &x : A) if (!B.count(x)) s += " unexpected " + x; return s; });
        h.count("events_expected", want.size());
        h.count("pairs_considered", pairs);
        if (pairs) h.nontrivial(h.desc);
    };
    h.cases("cadence", 1500, 40000, [&] { search(0); });
    h.cases("many scans", 150, 4000, [&] { search(1); });
    h.cases("many hits", 30, 800, [&] { search(2); });
    // a signal in every ON scan and no OFF scan is one event; one that also shows in an OFF scan is none
    h.cases("clear signal", 400, 8000, [&] {
        Rng &r = h.rng;
        int non = (int)r.range(2, 4);
        Meta m = rand_meta(r);
        m.foff = 2.79e-6; m.tsamp = 18; m.fch1 = 8000;
        bool inoff = r.chance(0.5);
        double drift = r.uni(0.05, 3) * (r.chance(0.5) ? 1 : -1), f0 = 8.0005e9, t0 = m.tstart * 86400;
        h.describe(cat(non, " ON scans, drift ", drift, inoff ? ", also in an OFF scan" : ""));
        int where = (int)r.range(0, non - 1);
        std::vector<scan> on, off;
        auto mkscan = [&](double ts, bool with, bool other) {
            Meta mi = m; mi.tstart = ts / 86400;
            auto cc = make_cc(f32({16, 4}, std::vector<float>(64, 1)), u8({16, 4}, std::vector<uint8_t>(64, 0)), mi, 16, 4, 0);
            std::list<hit> l;
            auto mk = [&](double f, double dr) { hit x = rand_hit(r); x.start_freq_MHz = f / 1e6; x.drift_rate_Hz_per_sec = dr; x.start_time_sec = mi.tstart * 86400; x.duration_sec = 288; x.rfi_counts.clear(); return x; };
            if (with) l.push_back(mk(f0 + drift * (ts - t0), drift));
            if (other) l.push_back(mk(f0 + r.uni(2e5, 3e5) * (r.chance(0.5) ? 1 : -1), drift)); // far away
            cc.set_hits(l);
            std::map<int, std::shared_ptr<coarse_channel>> mp; mp[0] = std::make_shared<coarse_channel>(cc);
            return scan(mp);
        };
        for (int i = 0; i < non; ++i) { on.push_back(mkscan(t0 + i * 600, true, false)); off.push_back(mkscan(t0 + i * 600 + 300, inoff && i == where, r.chance(0.7))); }
        auto ev = event_search(cadence(std::vector<observation_target>{observation_target(on), observation_target(off)}));
        if (inoff) h.check(ev.empty(), "off-source-signal-reported", [&] { return cat(ev.size(), " events"); });
        else h.check(ev.size() == 1 && (int)ev[0].hits.size() == non, "on-source-signal-missed", [&] { return cat(ev.size(), " events", ev.empty() ? "" : cat(" of ", ev[0].hits.size(), " hits")); });
        h.nontrivial(h.desc);
    });
}
} // namespace
int main(int argc, char **argv) {
    bx::quiet();
    return vh::run_main(argc, argv, {{"D01", D01}, {"D02", D02}, {"D03", D03}, {"D04", D04}, {"D05", D05}, {"D06", D06}, {"D07", D07}, {"D08", D08}, {"D09", D09}});
}
