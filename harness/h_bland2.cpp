// B04 reductions, B05 masked statistics, B08 raw files, B09 deferred arrays, B10 lifetime and DLPack
#include "bref.hpp"
#include <bland/ops/ops_frequency.hpp>
#include <dlpack/dlpack.h>
#include <fstream>
#include <memory>
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes(); // absent from builds without ASan
#include <sys/stat.h>
using namespace ref;
using namespace vh;
using bland::ndarray;
using bland::ndarray_deferred;
using bland::ndarray_slice;

typedef long double LD;
struct Stat { LD sum = 0, sabs = 0, mean = 0, var = 0, ms = 0, mx = -INFINITY; int64_t n = 0; };
static Stat stat_of(const std::vector<double> &v) {
    Stat s;
    s.n = v.size();
    for (double x : v) { s.sum += x; s.sabs += std::fabs((LD)x); s.ms += (LD)x * x; s.mx = std::max(s.mx, (LD)x); }
    if (s.n) { s.mean = s.sum / s.n; s.ms /= s.n; for (double x : v) s.var += (x - s.mean) * (x - s.mean); s.var /= s.n; }
    return s;
}
static bool is_f(DT t) { return t == F32; }
// single-precision results of a single-pass double accumulation
static bool ok_mean(double g, const Stat &s, DT out) {
    LD tol = 1e-12L * s.sabs / s.n;
    if (is_f(out)) return std::isfinite(g) && std::fabs(g - (double)s.mean) <= (double)(tol + 3e-7L * std::fabs(s.mean));
    tol += 1e-6L * std::fabs(s.mean);
    LD lo = std::trunc(s.mean - tol), hi = std::trunc(s.mean + tol);
    return g >= lo && g <= hi;
}
static bool ok_std(double g, const Stat &s, DT out) {
    LD t = 1e-12L * s.ms + 1e-13L;
    LD lo = std::sqrt(std::max((LD)0, s.var - t)) * (1 - 1e-5L), hi = std::sqrt(s.var + t) * (1 + 1e-5L);
    if (is_f(out)) return std::isfinite(g) && g >= lo && g <= hi;
    return g >= std::trunc(lo) && g <= std::trunc(hi);
}
static bool ok_var(double g, const Stat &s, DT out) {
    LD t = 1e-12L * s.ms + 1e-13L;
    if (is_f(out)) return std::isfinite(g) && g >= (s.var - t) * (1 - 2e-5L) - 1e-30L && g <= (s.var + t) * (1 + 2e-5L);
    return true; // judged by consistency with stddev
}
static bool ok_sum(double g, const Stat &s, DT out) {
    if (is_f(out)) return std::isfinite(g) && std::fabs(g - (double)s.sum) <= (double)((6e-8L * (s.n + 2)) * s.sabs + 1e-30L);
    int64_t w = (int64_t)s.sum; // modulo the width of the output
    return out == U8 ? g == (double)(uint8_t)w : out == I32 ? g == (double)(int32_t)w : g == (double)(uint32_t)w;
}
static std::function<double()> data_gen(Rng &r, DT t, std::string &kind) {
    Rng *p = &r;
    if (t != F32) {
        if (r.chance(0.2)) { double c = t == U8 ? r.range(0, 255) : t == I32 ? r.range(-100000, 100000) : r.range(0, 100000); kind = cat("const ", c); return [c] { return c; }; }
        if (t == U8) { kind = "u8 full range"; return [p] { return (double)p->range(0, 255); }; }
        kind = "int";
        return gen_for(r, t);
    }
    switch (r.range(0, 6)) {
    case 0: { double c = (float)(r.normal() * std::pow(10, r.range(-3, 5))); kind = cat("const ", c); return [c] { return c; }; }
    case 1: { double m = (float)(r.normal() * 1e5); kind = cat("offset ", m); return [p, m] { return (double)(float)(m + p->normal()); }; }
    case 2: kind = "exponential"; return [p] { return (double)(float)(-std::log(p->uni() + 1e-12)); };
    case 3: { double sc = std::pow(10, r.range(-6, 6)); kind = cat("scaled ", sc); return [p, sc] { return (double)(float)(p->normal() * sc); }; }
    case 4: { double c = (float)(r.normal() * 1000); kind = cat("nearly const ", c); return [p, c] { return p->chance(0.05) ? (double)std::nextafterf((float)c, 1e30f) : c; }; }
    case 5: kind = "small ints"; return [p] { return (double)p->range(-3, 3); };
    default: kind = "mixed"; return gen_for(r, F32);
    }
}
// groups of flat row-major positions per output element
static void groups(const Shape &s, const std::vector<int64_t> &axes, Shape &os, std::vector<std::vector<int64_t>> &g) {
    std::vector<bool> red(s.size(), axes.empty());
    for (auto a : axes) red[a] = true;
    os.clear();
    for (size_t d = 0; d < s.size(); ++d) if (!red[d]) os.push_back(s[d]);
    g.assign(numel(os), {});
    Shape i(s.size(), 0);
    int64_t n = numel(s);
    for (int64_t k = 0; k < n; ++k) {
        int64_t o = 0;
        for (size_t d = 0; d < s.size(); ++d) if (!red[d]) o = o * s[d] + i[d];
        g[o].push_back(k);
        inc(i, s);
    }
    if (os.empty()) os = {1};
}
static std::vector<int64_t> rand_axes(Rng &r, size_t nd) {
    std::vector<int64_t> ax;
    if (r.chance(0.2)) return ax;
    for (size_t d = 0; d < nd; ++d) if (r.chance(0.5)) ax.push_back(d);
    if (ax.empty()) ax.push_back(r.range(0, nd - 1));
    for (size_t k = ax.size(); k > 1; --k) std::swap(ax[k - 1], ax[r.next() % k]);
    return ax;
}
using Judge = std::function<bool(double, const Stat &, DT)>;
struct OutCheck { Made m; std::set<int64_t> touched; };
static Made out_view(Rng &r, const Shape &os, DT t) { return make(r, t, os, [&r, t] { return t == U8 ? 77.0 : 777.0; }, 0.8); }
static bool outside_ok(const Made &m) {
    size_t es = m.view.dtype().bits / 8;
    std::set<int64_t> touched;
    for (auto q : positions(m.view)) touched.insert((m.view.data_ptr<char>() + q * (int64_t)es - m.base.data_ptr<char>()) / (int64_t)es);
    auto nw = snapshot(m.base);
    for (size_t k = 0; k < nw.size(); ++k) if (!touched.count(k) && nw[k] != m.base_copy[k]) return false;
    return true;
}
// axes that are not axes of the array, or given twice, cannot be reduced
static void bad_axes(H &h, bool masked) {
    h.cases("bad-axes", 600, 8000, [&] {
        Rng &r = h.rng;
        Shape s = rshape(r, 4, 100);
        Made a = make(r, F32, s, [&] { return (double)r.range(-9, 9); });
        Made mk = make(r, U8, s, [&] { return 0.0; });
        int64_t nd = s.size();
        std::vector<int64_t> ax;
        for (int64_t d = 0; d < nd; ++d) if (r.chance(0.5)) ax.push_back(d);
        if (!ax.empty() && r.chance(0.4)) ax.push_back(ax[r.next() % ax.size()]);
        else ax.push_back(r.pick<int64_t>({-1, -2, -nd, nd, nd + 1, 100, INT32_MAX, INT64_MAX, INT64_MIN, INT64_C(1) << 32}));
        std::swap(ax[r.next() % ax.size()], ax.back());
        Shape os;
        for (int64_t d = 0; d < nd; ++d) if (std::find(ax.begin(), ax.end(), d) == ax.end()) os.push_back(s[d]);
        if (os.empty()) os = {1};
        Made o = out_view(r, os, F32), o2 = out_view(r, os, F32);
        ndarray v = o.view, v2 = o2.view;
        int which = (int)r.range(0, masked ? 7 : 14);
        h.describe(cat("call ", which, masked ? " masked " : " ", a.desc, " axes ", vec(ax)));
        bool t = throws([&] {
            if (masked) switch (which) {
                case 0: bland::masked_mean(a.view, mk.view, ax); break;
                case 1: bland::masked_mean(a.view, mk.view, v, ax); break;
                case 2: bland::masked_stddev(a.view, mk.view, ax); break;
                case 3: bland::masked_stddev(a.view, mk.view, v, ax); break;
                case 4: bland::masked_var(a.view, mk.view, ax); break;
                case 5: bland::masked_var(a.view, mk.view, v, ax); break;
                case 6: bland::masked_mean_stddev(a.view, mk.view, ax); break;
                default: bland::masked_mean_stddev(a.view, mk.view, v, v2, ax); break;
            } else switch (which) {
                case 0: bland::sum(a.view, ax); break;
                case 1: bland::sum(a.view, v, ax); break;
                case 2: bland::mean(a.view, ax); break;
                case 3: bland::mean(a.view, v, ax); break;
                case 4: bland::stddev(a.view, ax); break;
                case 5: bland::stddev(a.view, v, ax); break;
                case 6: bland::var(a.view, ax); break;
                case 7: bland::var(a.view, v, ax); break;
                case 8: bland::max(a.view, ax); break;
                case 9: bland::max(a.view, v, ax); break;
                case 10: bland::mean_stddev(a.view, ax); break;
                case 11: bland::mean_stddev(a.view, v, v2, ax); break;
                case 12: bland::standardized_moment(a.view, 4, ax); break;
                case 13: bland::standardized_moment(a.view, 3, v, ax); break;
                default: bland::median(a.view, ax); break;
            }
        });
        h.check(t, "bad-axes-accepted", [&] { return h.desc; });
        h.check(unchanged(a) && unchanged(mk) && unchanged(o) && unchanged(o2), "bad-axes-wrote", [&] { return h.desc; });
        h.nontrivial(h.desc);
    });
}
static void reductions(H &h, bool masked) {
    h.cases(masked ? "masked" : "reduce", masked ? 8000 : 8000, masked ? 150000 : 150000, [&] {
        Rng &r = h.rng;
        DT t = r.chance(0.7) ? F32 : (DT)r.range(1, 3);
        Shape s = rshape(r, 4, r.chance(0.1) ? 4000 : 200);
        std::string kind;
        auto gen = data_gen(r, t, kind);
        Made a = make(r, t, s, gen);
        auto axes = rand_axes(r, s.size());
        Shape os;
        std::vector<std::vector<int64_t>> g;
        groups(s, axes, os, g);
        Made mk;
        std::vector<double> av = mat(a.view).v, mv;
        bool allzero = false, somefull = false;
        if (masked) {
            double pm = r.pick({0.0, 0.05, 0.3, 0.5, 0.9});
            allzero = pm == 0;
            bool full = r.chance(0.06);
            mk = make(r, U8, s, [&] { return r.chance(pm) ? (double)r.pick({1, 2, 4, 16, 32, 128, 255}) : 0.0; });
            // mask entries follow the view, so adjust inside the view only: every group keeps at least one sample
            auto mp = positions(mk.view);
            for (auto &grp : g) {
                bool any = false;
                for (auto k : grp) any |= rd(mk.view.data_ptr<void>(), U8, mp[k]) == 0;
                if (!any && !full) wr(mk.view.data_ptr<void>(), U8, mp[grp[r.next() % grp.size()]], 0);
            }
            if (full && !g.empty()) { for (auto k : g[r.next() % g.size()]) wr(mk.view.data_ptr<void>(), U8, mp[k], 1); somefull = true; }
            mk.base_copy = snapshot(mk.base);
            mv = mat(mk.view).v;
            // poison masked samples
            auto ap = positions(a.view);
            if (r.chance(0.6))
                for (size_t k = 0; k < ap.size(); ++k)
                    if (mv[k] != 0) wr(a.view.data_ptr<void>(), t, ap[k], t == F32 ? r.pick<double>({NAN, INFINITY, -INFINITY, 1e30, -1e30}) : t == U8 ? 255 : 2000000000.0);
            a.base_copy = snapshot(a.base);
        }
        h.describe(cat(a.desc, " ", kind, " axes ", vec(axes), masked ? cat(" mask ", mk.desc, allzero ? " all zero" : "", somefull ? " one group fully masked" : "") : std::string()));
        std::vector<Stat> st;
        for (auto &grp : g) {
            std::vector<double> v;
            for (auto k : grp) if (!masked || mv[k] == 0) v.push_back(av[k]);
            st.push_back(stat_of(v));
        }
        std::vector<double> last_std, last_var;
        auto judge = [&](const ndarray &o, const Judge &j, const std::string &op, DT ot) {
            Arr m = mat(o);
            keep(h, o, op);
            if (!h.check(m.shape == os, op + "-shape", [&] { return cat("shape ", vec(m.shape), " expected ", vec(os)); })) return false;
            if (!h.check(dtof(o) == ot, op + "-dtype", [&] { return std::string("dtype differs"); })) return false;
            for (size_t k = 0; k < st.size(); ++k)
                if (!h.check(j(m.v[k], st[k], ot), op + (std::isfinite(m.v[k]) ? "-value" : "-nonfinite"), [&] { return cat("output ", k, " is ", m.v[k], "; reference n ", st[k].n, " sum ", (double)st[k].sum, " mean ", (double)st[k].mean, " std ", (double)std::sqrt(st[k].var), " max ", (double)st[k].mx); })) return false;
            return true;
        };
        DT ot = t;
        // the out form may ask for another dtype and any layout
        bool keep_dt = false;
        auto out_dt = [&]() { return keep_dt ? t : t == F32 ? F32 : r.chance(0.5) ? F32 : t; };
        bool out_form = r.chance(0.4);
        std::string sfx = out_form ? "-out" : "";
        std::string pre = masked ? "masked-" : "";
        auto one = [&](const std::string &op, const Judge &j, const std::function<ndarray()> &plain, const std::function<ndarray(ndarray &)> &into) {
            if (!out_form) { ndarray o = plain(); return judge(o, j, pre + op, ot) ? mat(o).v : std::vector<double>(); }
            DT d = out_dt();
            Made o = out_view(r, os, d);
            h.describe(cat(h.desc, " ", op, " into ", o.desc));
            ndarray v = o.view;
            ndarray ret = into(v);
            if (!judge(o.view, j, pre + op + sfx, d)) return std::vector<double>();
            if (!judge(ret, j, pre + op + sfx + "-returned", d)) return std::vector<double>();
            if (!h.check(outside_ok(o), pre + op + sfx + "-outside-view", [&] { return std::string("elements outside the output view changed"); })) return std::vector<double>();
            return mat(o.view).v;
        };
        if (!masked) {
            int which = (int)r.range(0, 5);
            if (which == 0) one("sum", ok_sum, [&] { return bland::sum(a.view, axes); }, [&](ndarray &o) { return bland::sum(a.view, o, axes); });
            if (which == 1) one("mean", ok_mean, [&] { return bland::mean(a.view, axes); }, [&](ndarray &o) { return bland::mean(a.view, o, axes); });
            if (which == 2) {
                auto sd = one("stddev", ok_std, [&] { return bland::stddev(a.view, axes); }, [&](ndarray &o) { return bland::stddev(a.view, o, axes); });
                ndarray v = bland::var(a.view, axes), s2 = bland::stddev(a.view, axes);
                auto vv = mat(v).v, ss = mat(s2).v;
                for (size_t k = 0; k < vv.size(); ++k)
                    if (!h.check(t == U8 ? vv[k] == (double)(uint8_t)(int64_t)(ss[k] * ss[k]) : close(vv[k], ss[k] * ss[k], 2e-5, 1e-12 * (double)st[k].ms + 1e-12), "var-is-stddev-squared", [&] { return cat("var ", vv[k], " stddev ", ss[k]); })) break;
            }
            if (which == 3) one("var", ok_var, [&] { return bland::var(a.view, axes); }, [&](ndarray &o) { return bland::var(a.view, o, axes); });
            if (which == 4) {
                if (out_form) {
                    Made om = out_view(r, os, ot), osd = out_view(r, os, ot);
                    h.describe(cat(h.desc, " mean_stddev into ", om.desc, " and ", osd.desc));
                    ndarray v1 = om.view, v2 = osd.view;
                    auto p = bland::mean_stddev(a.view, v1, v2, axes);
                    judge(om.view, ok_mean, "mean_stddev-out-mean", ot) && judge(osd.view, ok_std, "mean_stddev-out-stddev", ot) && judge(p.first, ok_mean, "mean_stddev-ret-mean", ot) && judge(p.second, ok_std, "mean_stddev-ret-stddev", ot);
                    h.check(outside_ok(om) && outside_ok(osd), "mean_stddev-outside-view", [] { return std::string("elements outside the output views changed"); });
                } else {
                    auto p = bland::mean_stddev(a.view, axes);
                    judge(p.first, ok_mean, "mean_stddev-mean", ot) && judge(p.second, ok_std, "mean_stddev-stddev", ot);
                }
            }
            if (which == 5) {
                keep_dt = true;
                one("max", [](double gv, const Stat &s, DT) { return gv == (double)s.mx; }, [&] { return bland::max(a.view, axes); }, [&](ndarray &o) { return bland::max(a.view, o, axes); });
                auto v = av;
                std::sort(v.begin(), v.end());
                double lo = v[(v.size() - 1) / 2], hi = v[v.size() / 2];
                std::vector<int64_t> all(s.size());
                for (size_t d = 0; d < all.size(); ++d) all[d] = (int64_t)(all.size() - 1 - d);
                double m = r.chance(0.3) ? bland::median(a.view, all) : bland::median(a.view);
                h.check(close(m, (lo + hi) / 2, 1e-6, 1e-30), "median-value", [&] { return cat("median ", m, " of ", v.size(), " middle values ", lo, " ", hi); });
            }
        } else {
            int which = (int)r.range(0, 3);
            if (somefull) {
                std::string op = which == 0 ? "mean" : which == 1 ? "stddev" : which == 2 ? "var" : "mean_stddev";
                bool t1 = throws([&] {
                    if (which == 0) bland::masked_mean(a.view, mk.view, axes);
                    if (which == 1) bland::masked_stddev(a.view, mk.view, axes);
                    if (which == 2) bland::masked_var(a.view, mk.view, axes);
                    if (which == 3) bland::masked_mean_stddev(a.view, mk.view, axes);
                });
                h.check(t1, "masked-" + op + "-no-samples-accepted", [] { return std::string("a statistic of no samples was returned"); });
            } else {
                if (which == 0) one("mean", ok_mean, [&] { return bland::masked_mean(a.view, mk.view, axes); }, [&](ndarray &o) { return bland::masked_mean(a.view, mk.view, o, axes); });
                if (which == 1) one("stddev", ok_std, [&] { return bland::masked_stddev(a.view, mk.view, axes); }, [&](ndarray &o) { return bland::masked_stddev(a.view, mk.view, o, axes); });
                if (which == 2) one("var", ok_var, [&] { return bland::masked_var(a.view, mk.view, axes); }, [&](ndarray &o) { return bland::masked_var(a.view, mk.view, o, axes); });
                if (which == 3) {
                    if (out_form) {
                        Made om = out_view(r, os, ot), osd = out_view(r, os, ot);
                        h.describe(cat(h.desc, " masked_mean_stddev into ", om.desc, " and ", osd.desc));
                        ndarray v1 = om.view, v2 = osd.view;
                        auto p = bland::masked_mean_stddev(a.view, mk.view, v1, v2, axes);
                        judge(om.view, ok_mean, "masked_mean_stddev-out-mean", ot) && judge(osd.view, ok_std, "masked_mean_stddev-out-stddev", ot) && judge(p.first, ok_mean, "masked_mean_stddev-ret-mean", ot) && judge(p.second, ok_std, "masked_mean_stddev-ret-stddev", ot);
                        h.check(outside_ok(om) && outside_ok(osd), "masked_mean_stddev-outside-view", [] { return std::string("elements outside the output views changed"); });
                    } else {
                        auto p = bland::masked_mean_stddev(a.view, mk.view, axes);
                        judge(p.first, ok_mean, "masked_mean_stddev-mean", ot) && judge(p.second, ok_std, "masked_mean_stddev-stddev", ot);
                    }
                }
                if (allzero) {
                    ndarray x = bland::masked_mean(a.view, mk.view, axes), y = bland::mean(a.view, axes), u = bland::masked_stddev(a.view, mk.view, axes), w = bland::stddev(a.view, axes);
                    auto X = mat(x).v, Y = mat(y).v, U = mat(u).v, W = mat(w).v;
                    for (size_t k = 0; k < X.size(); ++k)
                        if (!h.check(t != F32 || (close(X[k], Y[k], 1e-6, 1e-12 * (double)st[k].sabs) && close(U[k], W[k], 1e-5, std::sqrt(1e-12 * (double)st[k].ms + 1e-13))), "zero-mask-equals-unmasked", [&] { return cat("masked ", X[k], " ", U[k], " plain ", Y[k], " ", W[k]); })) break;
                }
            }
            h.check(unchanged(mk), "mask-modified", [] { return std::string("the mask changed"); });
        }
        h.check(unchanged(a), "input-modified", [] { return std::string("the input changed"); });
        h.nontrivial(h.desc);
    });
    again(h, masked ? "masked" : "reduce", 500, 10000, 16, 250);
}
// moments about the mean in units of the sample deviation (n-1 in both)
static void moments(H &h) {
    h.cases("moments", 1200, 20000, [&] {
        Rng &r = h.rng;
        Shape s = rshape(r, 4, 300);
        int64_t deg = r.range(2, 6);
        double mean = r.pick({0.0, 0.0, 3.0, -40.0}), sd = r.pick({1.0, 0.05, 20.0});
        int kind = (int)r.range(0, 3);
        double c = (double)r.range(-9, 9);
        Made a = make(r, F32, s, [&] { return kind == 0 ? c : (double)(float)(mean + sd * (kind == 1 ? r.normal() : kind == 2 ? -std::log(1 - r.uni()) : r.chance(0.1) ? 8.0 : r.uni())); });
        auto axes = rand_axes(r, s.size());
        Shape os;
        std::vector<std::vector<int64_t>> g;
        groups(s, axes, os, g);
        bool out_form = r.chance(0.4);
        Made o = out_view(r, os, F32);
        h.describe(cat("moment ", deg, " of ", a.desc, " kind ", kind, " axes ", vec(axes), out_form ? cat(" into ", o.desc) : std::string()));
        auto av = mat(a.view).v;
        ndarray v = o.view;
        ndarray m = out_form ? bland::standardized_moment(a.view, (int)deg, v, axes) : bland::standardized_moment(a.view, (int)deg, axes);
        Arr got = mat(m);
        keep(h, m, "moments");
        h.check(got.shape == os, "moment-shape", [&] { return cat("shape ", vec(got.shape), " expected ", vec(os)); });
        if (out_form) h.check(mat(o.view).v == got.v || g[0].size() < 2, "moment-out-value", [&] { return std::string("the output array differs from the returned one"); }), h.check(outside_ok(o), "moment-outside-view", [&] { return std::string("elements outside the output view changed"); });
        for (size_t k = 0; k < g.size() && k < got.v.size() && g[k].size() > 1; ++k) {
            std::vector<double> e;
            for (auto q : g[k]) e.push_back(av[q]);
            Stat st = stat_of(e);
            LD n = e.size(), var = st.var * n / (n - 1), mom = 0, mabs = 0, slope = 0;
            for (double x : e) { mom += std::pow(x - st.mean, (LD)deg) / (n - 1); mabs += std::pow(std::fabs(x - st.mean), (LD)deg) / (n - 1); slope += deg * std::pow(std::fabs(x - st.mean), (LD)(deg - 1)) / (n - 1); }
            if (st.var == 0) { if (!h.check(std::fabs(got.v[k]) < 1e-6, std::isfinite(got.v[k]) ? "moment-of-constant" : "moment-nonfinite", [&] { return cat("output ", k, " is ", got.v[k]); })) return; continue; }
            if (std::sqrt(var) < 1e-3) continue; // the kernel's epsilon decides
            LD scale = std::pow(std::sqrt(var), (LD)deg), want = mom / scale;
            // the kernel takes the mean and the deviations in single precision
            LD dx = 2e-7L * (std::fabs(st.mean) + std::sqrt(var)) , tol = 1e-5L * mabs / scale + 2 * dx * slope / scale + mabs / scale * deg * dx / std::sqrt(var) + 1e-6L / scale * mabs / scale + 1e-7L;
            if (!h.check(std::fabs(got.v[k] - (double)want) <= (double)tol, "moment-value", [&] { return cat("output ", k, " is ", got.v[k], " expected ", (double)want, " from ", e.size(), " elements"); })) return;
            h.count("moments_compared");
        }
        h.check(unchanged(a), "input-modified", [] { return std::string("the input changed"); });
        h.nontrivial(h.desc);
    });
    again(h, "moments", 100, 2000, 8, 120);
}
static void B04(H &h) {
    h.rule = "random shapes (rank 1-4), layouts, dtypes, value families (constant, offset, scaled, mixed) and axis sets; sum/mean/stddev/var/"
             "mean_stddev/max/median/standardized moments, returning and output-array forms with strided outputs, against two-pass long-double statistics; axes out of range or repeated must be refused. "
             "Distinct: (shape, layout, dtype, values, axes, operation).";
    reductions(h, false);
    moments(h);
    bad_axes(h, false);
}
static void B05(H &h) {
    h.rule = "as B04 with a mask of its own random layout and density; masked samples are poisoned with NaN/inf/1e30 in most cases; groups without "
             "samples must be refused. Distinct: (data layout, mask layout, density, values, axes, operation).";
    reductions(h, true);
    bad_axes(h, true);
    h.cases("mask-shape", 150, 2000, [&] {
        Rng &r = h.rng;
        Shape s = rshape(r, 3, 60), m = s;
        size_t d = r.range(0, (int64_t)s.size() - 1);
        if (r.chance(0.3)) m.insert(m.begin(), 1);
        else m[d] += r.range(1, 3);
        Made a = make(r, F32, s, gen_for(r, F32)), k = make(r, U8, m, [] { return 0.0; });
        if (r.chance(0.5) && m.size() == s.size()) { a = make(r, F32, m, gen_for(r, F32)); k = make(r, U8, s, [] { return 0.0; }); }
        h.describe(cat(a.desc, " mask ", k.desc));
        h.check(throws([&] { bland::masked_mean(a.view, k.view); }), "mask-of-other-shape-accepted", [] { return std::string("masked_mean"); });
        h.check(throws([&] { bland::masked_stddev(a.view, k.view); }), "mask-of-other-shape-accepted", [] { return std::string("masked_stddev"); });
        h.check(throws([&] { bland::masked_mean_stddev(a.view, k.view); }), "mask-of-other-shape-accepted", [] { return std::string("masked_mean_stddev"); });
        h.nontrivial(h.desc);
    });
}

// ---------------------------------------------------------------- B08
static std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
static void B08(H &h) {
    h.rule = "random float arrays and views written and read back bit for bit, files of every byte length for every dtype, missing files, directories, "
             "unwritable targets. Distinct: (layout, shape) or (file length, dtype, kind of fault).";
    h.cases("roundtrip", 500, 8000, [&] {
        Rng &r = h.rng;
        Shape s = rshape(r, 4, 400);
        Made a = make(r, F32, s, [&] { uint32_t b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); return std::isnan(f) ? 0.0 : (double)f; });
        h.describe(cat("write ", a.desc));
        std::string path = h.scratch + "/raw.bin";
        if (r.chance(0.3)) { std::ofstream f(path); f << std::string(r.range(0, 5000), 'x'); } // an older, possibly longer file
        bland::write_to_file(a.view, path);
        auto want = mat(a.view).v;
        std::string bytes = slurp(path);
        if (!h.check(bytes.size() == want.size() * 4, "written-length", [&] { return cat(bytes.size(), " bytes for ", want.size(), " floats"); })) return;
        for (size_t k = 0; k < want.size(); ++k) {
            float f;
            memcpy(&f, bytes.data() + 4 * k, 4);
            if (!h.check((double)f == want[k] && std::signbit(f) == std::signbit(want[k]), "written-value", [&] { return cat("element ", k, " written as ", f, " expected ", want[k]); })) return;
        }
        ndarray b = bland::read_from_file(path, ndarray::datatype::float32);
        if (!h.check(b.shape() == Shape{(int64_t)want.size()} && b.dtype().code == kDLFloat && b.dtype().bits == 32, "read-shape", [&] { return vec(b.shape()); })) return;
        auto got = mat(b).v;
        for (size_t k = 0; k < want.size(); ++k)
            if (!h.check(got[k] == want[k], "read-value", [&] { return cat("element ", k, " read as ", got[k], " expected ", want[k]); })) return;
        h.check(unchanged(a), "input-modified", [] { return std::string("writing changed the array"); });
        h.nontrivial(h.desc);
    });
    h.cases("read-any-length", 500, 6000, [&] {
        Rng &r = h.rng;
        std::vector<std::pair<DLDataType, std::string>> dts = {{ndarray::datatype::float32, "f32"}, {ndarray::datatype::float64, "f64"}, {ndarray::datatype::int32, "i32"}, {ndarray::datatype::uint8, "u8"}, {ndarray::datatype::uint32, "u32"}, {ndarray::datatype::uint16, "u16"}};
        auto &dt = dts[r.next() % dts.size()];
        int64_t len = r.chance(0.5) ? r.range(0, 40) : r.range(0, 3000), es = dt.first.bits / 8;
        std::string path = h.scratch + "/len.bin", data;
        for (int64_t i = 0; i < len; ++i) data += (char)r.next();
        { std::ofstream f(path, std::ios::binary); f << data; }
        h.describe(cat("read ", len, " bytes as ", dt.second));
        bool threw = false;
        try {
            ndarray b = bland::read_from_file(path, dt.first);
            if (len % es == 0) {
                if (h.check(b.shape() == Shape{len / es}, "read-length", [&] { return cat("shape ", vec(b.shape()), " from ", len, " bytes"); }))
                    h.check(len == 0 || memcmp(b.data_ptr<void>(), data.data(), len) == 0, "read-bytes", [] { return std::string("elements differ from the file"); });
            }
        } catch (const std::exception &) { threw = true; }
        h.check(threw == (len % es != 0), threw ? "valid-file-refused" : "partial-element-accepted", [&] { return cat(len, " bytes, element ", es); });
        h.nontrivial(h.desc);
    });
    h.cases("read-large", 12, 150, [&] {
        Rng &r = h.rng;
        auto dt = r.pick<DLDataType>({ndarray::datatype::float32, ndarray::datatype::float64, ndarray::datatype::int32, ndarray::datatype::uint8});
        int64_t es = dt.bits / 8, n = r.pick<int64_t>({(1 << 20) / es + 1, 1 << 20, 65537, 400009}) + r.range(0, 3), len = n * es;
        std::string path = h.scratch + "/large.bin", data(len, 0);
        for (int64_t i = 0; i + 8 <= len; i += 8) { uint64_t w = r.next(); memcpy(&data[i], &w, 8); }
        { std::ofstream f(path, std::ios::binary); f << data; }
        h.describe(cat("read ", len, " bytes as elements of ", es));
        ndarray b = bland::read_from_file(path, dt);
        if (!h.check(b.shape() == Shape{n}, "read-length", [&] { return cat("shape ", vec(b.shape()), " from ", len, " bytes"); })) return;
        const char *p = b.data_ptr<char>();
        int64_t at = 0;
        while (at < len && p[at] == data[at]) ++at;
        h.check(at == len, "read-bytes", [&] { return cat("byte ", at, " of ", len, " differs from the file"); });
        h.count("large_bytes_compared", len);
        h.nontrivial(h.desc);
    });
    h.cases("faults", 60, 600, [&] {
        Rng &r = h.rng;
        int k = (int)r.range(0, 4);
        Made a = make(r, F32, rshape(r, 3, 100), gen_for(r, F32));
        std::string d = h.scratch + "/dir";
        mkdir(d.c_str(), 0700);
        h.describe(cat("fault ", k, " ", a.desc));
        auto dt = r.pick<DLDataType>({ndarray::datatype::float32, ndarray::datatype::uint8, ndarray::datatype::int32});
        if (k == 0) h.check(throws([&] { bland::read_from_file(h.scratch + "/does-not-exist", dt); }), "missing-file-accepted", [] { return std::string(); });
        if (k == 1) h.check(throws([&] { bland::read_from_file(d, dt); }), "directory-read-accepted", [] { return std::string(); });
        if (k == 2) h.check(throws([&] { bland::write_to_file(a.view, d); }), "directory-write-accepted", [] { return std::string(); });
        if (k == 3) h.check(throws([&] { bland::write_to_file(a.view, h.scratch + "/no/such/place"); }), "unwritable-path-accepted", [] { return std::string(); });
        if (k == 4) {
            // other dtypes are refused or written exactly, never read beyond their buffer
            DT t = (DT)r.range(1, 3);
            Made b = make(r, t, rshape(r, 3, 60), gen_for(r, t));
            h.describe(cat("write of ", b.desc));
            try { bland::write_to_file(b.view, h.scratch + "/other.bin"); } catch (const std::exception &) {}
        }
        h.nontrivial(h.desc);
    });
    again(h, "roundtrip", 80, 1500, 24, 300);
}

// ---------------------------------------------------------------- B09
static void B09(H &h) {
    h.rule = "random histories over deferred arrays (policy, copies, device moves, conversions, reads interleaved) with a call counter in the "
             "callable; values and call counts are checked after every step. Distinct: (policy, history).";
    h.cases("history", 4000, 80000, [&] {
        Rng &r = h.rng;
        using P = ndarray_deferred::eval_policy;
        int kind = (int)r.range(0, 4); // memoize lazy eager data default
        auto calls = std::make_shared<int>(0);
        Shape s = rshape(r, 3, 60);
        Made src = make(r, F32, s, gen_for(r, F32));
        auto vals = mat(src.view).v;
        bool fresh = r.chance(0.5); // the callable makes a new array or hands out the same one
        bool varying = kind == 1 || kind == 4 ? r.chance(0.3) : false; // lazy: each call's own array
        ndarray view = src.view;
        std::function<ndarray()> fn = [calls, view, fresh, varying]() -> ndarray {
            ++*calls;
            if (varying) return bland::add(view, (float)*calls);
            return fresh ? bland::copy(view) : view;
        };
        std::string prog = cat(kind == 0 ? "memoize" : kind == 1 ? "lazy" : kind == 2 ? "eager" : kind == 3 ? "data" : "default", fresh ? " fresh" : " same", varying ? " varying" : "", " ", src.desc);
        h.describe(prog);
        std::vector<std::unique_ptr<ndarray_deferred>> ds;
        if (kind == 0) ds.emplace_back(new ndarray_deferred(fn, P::memoize));
        else if (kind == 1) ds.emplace_back(new ndarray_deferred(fn, P::lazy));
        else if (kind == 2) ds.emplace_back(new ndarray_deferred(fn, P::eager));
        else if (kind == 3) ds.emplace_back(new ndarray_deferred(src.view));
        else ds.emplace_back(new ndarray_deferred(fn));
        int reads = 0;
        bool lazy = kind == 1 || kind == 4;
        auto counts = [&](const char *when) {
            int want = kind == 3 ? 0 : kind == 2 ? 1 : lazy ? reads : (reads ? 1 : 0);
            return h.check(*calls == want, cat("calls-", kind == 0 ? "memoize" : lazy ? "lazy" : kind == 2 ? "eager" : "data"), [&] { return cat(when, ": called ", *calls, " times after ", reads, " reads, expected ", want); });
        };
        if (!counts("after construction")) return;
        int n = (int)r.range(2, 10);
        for (int i = 0; i < n; ++i) {
            size_t k = r.next() % ds.size();
            int op = (int)r.range(0, 9);
            if (op <= 4) {
                prog += cat("; read ", k);
                h.describe(prog);
                ndarray x = *ds[k];
                ++reads;
                Arr m = mat(x);
                if (!h.check(m.shape == s, "deferred-shape", [&] { return vec(m.shape); })) return;
                for (size_t q = 0; q < m.v.size(); ++q)
                    if (!h.check(varying ? close(m.v[q], vals[q] + *calls, 1e-5, 1e-4) : m.v[q] == vals[q], "deferred-value", [&] { return cat("element ", q, " is ", m.v[q], " expected ", vals[q], " call ", *calls); })) return;
            } else if (op == 5) {
                prog += cat("; copy ", k);
                ds.emplace_back(new ndarray_deferred(*ds[k]));
            } else if (op == 6) {
                prog += cat("; assign ", k);
                std::unique_ptr<ndarray_deferred> d(new ndarray_deferred());
                *d = *ds[k];
                ds.push_back(std::move(d));
            } else if (op == 7) {
                bool str = r.chance(0.5);
                prog += cat("; to cpu ", k, str ? " str" : "");
                if (str) ds.emplace_back(new ndarray_deferred(ds[k]->to("cpu")));
                else ds.emplace_back(new ndarray_deferred(ds[k]->to(ndarray::dev(ndarray::dev::cpu))));
            } else if (op == 8 && ds.size() > 1) {
                prog += cat("; drop ", k);
                ds.erase(ds.begin() + k);
            } else {
                prog += cat("; repr ", k);
                h.check(!ds[k]->repr().empty(), "deferred-repr", [] { return std::string(); });
            }
            if (op == 9 && r.chance(0.3)) { // nothing to evaluate yet
                ndarray_deferred none;
                if (r.chance(0.5)) (void)none.to(ndarray::dev(ndarray::dev::cpu));
                h.check(!none.repr().empty(), "empty-repr", [] { return std::string(); });
                bool threw = false;
                try { ndarray x = none; (void)x; } catch (const std::exception &) { threw = true; }
                h.check(threw, "deferred-from-nothing", [] { return std::string("a deferred array without data evaluated"); });
            }
            if (!counts(prog.c_str())) return;
        }
        h.check(unchanged(src), "deferred-source-modified", [] { return std::string(); });
        h.nontrivial(prog);
    });
}

// ---------------------------------------------------------------- B10
struct Foreign {
    std::unique_ptr<float[]> buf;
    std::vector<int64_t> shape, strides;
    DLManagedTensor t;
    int deleted = 0, live = 0; // live: arrays that (may) use it
    bool premature = false;
};
static void foreign_deleter(DLManagedTensor *t) {
    auto f = static_cast<Foreign *>(t->manager_ctx);
    f->deleted++;
    if (f->live > 0) f->premature = true;
}
struct Handle {
    std::unique_ptr<ndarray> a;
    std::shared_ptr<std::vector<double>> mem; // contents of the underlying buffer
    std::vector<int64_t> idx;                 // element of mem per index
    Shape shape;
    std::shared_ptr<Foreign> foreign;
};
struct Export { DLManagedTensor *t; std::vector<double> want; Shape shape; std::shared_ptr<std::vector<double>> mem; std::vector<int64_t> idx; std::shared_ptr<Foreign> foreign; };

static std::string b10_program(H &h, uint64_t seed, bool judge) {
    Rng r(seed);
    std::string prog;
    std::vector<Handle> hs;
    std::vector<Export> ex;
    std::vector<std::shared_ptr<Foreign>> fs;
    auto note = [&](const std::string &s) { prog += s; if (judge) h.describe(prog); };
    bool dead = false;
    auto fail = [&](const std::string &k, const std::string &d) { if (judge) h.check(false, k, [&] { return d; }); dead = true; };
    auto verify = [&] {
        for (size_t k = 0; k < hs.size() && !dead; ++k) {
            auto &x = hs[k];
            if (x.a->shape() != x.shape) { fail("handle-shape", cat("handle ", k, " shape ", vec(x.a->shape()), " expected ", vec(x.shape))); return; }
            Arr m = mat(*x.a);
            for (size_t q = 0; q < m.v.size(); ++q)
                if (m.v[q] != (*x.mem)[x.idx[q]]) { fail("handle-value", cat("handle ", k, " element ", q, " is ", m.v[q], " expected ", (*x.mem)[x.idx[q]])); return; }
        }
        for (size_t k = 0; k < ex.size() && !dead; ++k) {
            auto &e = ex[k];
            DLTensor &t = e.t->dl_tensor;
            if ((int64_t)t.ndim != (int64_t)e.shape.size()) { fail("export-ndim", cat(t.ndim)); return; }
            Shape sh(t.shape, t.shape + t.ndim);
            if (sh != e.shape) { fail("export-shape", vec(sh)); return; }
            const char *b = (const char *)t.data + t.byte_offset;
            Shape i(sh.size(), 0);
            for (int64_t q = 0; q < numel(sh); ++q) {
                int64_t l = 0;
                for (int d = 0; d < t.ndim; ++d) l += i[d] * t.strides[d];
                double g = ((const float *)b)[l];
                if (g != (*e.mem)[e.idx[q]]) { fail("export-value", cat("exported element ", q, " is ", g, " expected ", (*e.mem)[e.idx[q]])); return; }
                inc(i, sh);
            }
        }
        if (judge) h.count("handles_verified", hs.size() + ex.size());
        for (auto &f : fs)
            if (f->premature || f->deleted > 1) { fail(f->premature ? "foreign-deleter-too-early" : "foreign-deleter-twice", cat("deleted ", f->deleted, " live ", f->live)); return; }
    };
    auto drop = [&](size_t k) {
        auto f = hs[k].foreign;
        if (f) f->live--;
        hs.erase(hs.begin() + k);
    };
    int steps = (int)r.range(4, 22);
    for (int st = 0; st < steps && !dead; ++st) {
        int op = (int)r.range(0, 13);
        if (hs.empty() && op != 1) op = 0;
        size_t k = hs.empty() ? 0 : r.next() % hs.size();
        if (op == 0) {
            Shape s = rshape(r, 3, 40);
            note(cat("; new", vec(s)));
            Handle x;
            x.a.reset(new ndarray(s, 0.0f, ndarray::datatype::float32));
            x.mem = std::make_shared<std::vector<double>>(numel(s));
            x.shape = s;
            for (int64_t i = 0; i < numel(s); ++i) { (*x.mem)[i] = (float)r.normal(); x.a->data_ptr<float>()[i] = (float)(*x.mem)[i]; x.idx.push_back(i); }
            hs.push_back(std::move(x));
        } else if (op == 1) {
            // import a foreign tensor; its shape/strides arrays die right after the import
            Shape s = rshape(r, 3, 40);
            auto f = std::make_shared<Foreign>();
            int64_t pad = r.chance(0.4) ? r.range(1, 5) : 0;
            f->buf.reset(new float[numel(s) * 2 + pad + 1]);
            bool compact = r.chance(0.6), nullstr = compact && r.chance(0.4);
            Handle x;
            x.mem = std::make_shared<std::vector<double>>();
            for (int64_t i = 0; i < numel(s) * 2 + pad + 1; ++i) { f->buf[i] = (float)r.normal(); x.mem->push_back(f->buf[i]); }
            f->shape = s;
            f->strides.assign(s.size(), 1);
            for (int d = (int)s.size() - 2; d >= 0; --d) f->strides[d] = f->strides[d + 1] * s[d + 1];
            if (!compact) for (auto &v : f->strides) v *= 2;
            memset(&f->t, 0, sizeof f->t);
            auto shp = std::make_unique<std::vector<int64_t>>(f->shape), strd = std::make_unique<std::vector<int64_t>>(f->strides);
            f->t.dl_tensor.data = f->buf.get();
            f->t.dl_tensor.byte_offset = pad * 4;
            f->t.dl_tensor.device = DLDevice{kDLCPU, 0};
            f->t.dl_tensor.dtype = ndarray::datatype::float32;
            f->t.dl_tensor.ndim = (int32_t)s.size();
            f->t.dl_tensor.shape = shp->data();
            f->t.dl_tensor.strides = nullstr ? nullptr : strd->data();
            f->t.manager_ctx = f.get();
            f->t.deleter = foreign_deleter;
            note(cat("; import", vec(s), " strides ", nullstr ? std::string("null") : vec(f->strides), " byte_offset ", pad * 4));
            f->live = 1;
            x.a.reset(new ndarray(f->t));
            shp.reset();
            strd.reset();
            x.shape = s;
            x.foreign = f;
            Shape i(s.size(), 0);
            for (int64_t q = 0; q < numel(s); ++q) {
                int64_t l = pad;
                for (size_t d = 0; d < s.size(); ++d) l += i[d] * f->strides[d];
                x.idx.push_back(l);
                inc(i, s);
            }
            hs.push_back(std::move(x));
            fs.push_back(f);
        } else if (op == 2 || op == 3) {
            Handle x{nullptr, hs[k].mem, hs[k].idx, hs[k].shape, hs[k].foreign};
            if (op == 2) { note(cat("; copy ", k)); x.a.reset(new ndarray(*hs[k].a)); }
            else { note(cat("; move ", k)); x.a.reset(new ndarray(std::move(*hs[k].a))); }
            if (x.foreign) x.foreign->live++;
            if (op == 3) drop(k); // the moved-from array is only destroyed
            hs.push_back(std::move(x));
        } else if (op == 4 || op == 5) {
            size_t j = r.next() % hs.size();
            if (op == 5 && j == k) continue;
            note(cat("; assign ", op == 5 ? "moved " : "", j, " <- ", k));
            auto of = hs[j].foreign, nf = hs[k].foreign;
            // the target stops using its memory and starts using the source's
            if (nf) nf->live++;
            if (of) of->live--;
            if (op == 4) *hs[j].a = *hs[k].a;
            else *hs[j].a = std::move(*hs[k].a);
            hs[j].mem = hs[k].mem; hs[j].idx = hs[k].idx; hs[j].shape = hs[k].shape; hs[j].foreign = hs[k].foreign;
            if (op == 5) drop(k);
        } else if (op == 6 || op == 7) {
            int64_t d = r.range(0, (int64_t)hs[k].shape.size() - 1), n = hs[k].shape[d];
            int64_t a = r.range(0, n - 1), b = r.range(a + 1, n), s = r.pick({1, 1, 2, 3});
            note(cat("; slice ", k, " dim ", d, " ", a, ":", b, ":", s));
            Handle x{nullptr, hs[k].mem, {}, hs[k].shape, hs[k].foreign};
            if (x.foreign) x.foreign->live++;
            x.a.reset(new ndarray(bland::slice(*hs[k].a, d, a, b, s)));
            x.shape[d] = (b - a + s - 1) / s;
            Shape i(x.shape.size(), 0);
            for (int64_t q = 0; q < numel(x.shape); ++q) {
                int64_t l = 0;
                for (size_t e = 0; e < i.size(); ++e) l = l * hs[k].shape[e] + ((int64_t)e == d ? a + i[e] * s : i[e]);
                x.idx.push_back(hs[k].idx[l]);
                inc(i, x.shape);
            }
            hs.push_back(std::move(x));
        } else if (op == 8) {
            note(cat("; write through ", k));
            float v = (float)r.normal();
            bland::fill<float>(*hs[k].a, v);
            for (auto i : hs[k].idx) (*hs[k].mem)[i] = v;
        } else if (op == 9) {
            note(cat("; dense copy of ", k));
            Handle x;
            x.a.reset(new ndarray(bland::copy(*hs[k].a)));
            x.shape = hs[k].shape;
            x.mem = std::make_shared<std::vector<double>>();
            for (auto i : hs[k].idx) { x.mem->push_back((*hs[k].mem)[i]); x.idx.push_back(x.idx.size()); }
            hs.push_back(std::move(x));
        } else if (op == 10) {
            note(cat("; export ", k));
            Export e;
            e.t = hs[k].a->get_managed_tensor();
            e.shape = hs[k].shape; e.mem = hs[k].mem; e.idx = hs[k].idx; e.foreign = hs[k].foreign;
            if (e.foreign) e.foreign->live++;
            ex.push_back(std::move(e));
        } else if (op == 11 && !ex.empty()) {
            size_t j = r.next() % ex.size();
            note(cat("; release export ", j));
            auto t = ex[j].t;
            auto f = ex[j].foreign;
            ex.erase(ex.begin() + j);
            if (f) f->live--;
            t->deleter(t);
        } else {
            note(cat("; drop ", k));
            drop(k);
        }
        verify();
    }
    // drop everything, in random order
    while (!hs.empty()) drop(r.next() % hs.size());
    while (!ex.empty()) {
        size_t j = r.next() % ex.size();
        auto t = ex[j].t;
        auto f = ex[j].foreign;
        ex.erase(ex.begin() + j);
        if (f) f->live--;
        t->deleter(t);
    }
    if (!dead)
        for (auto &f : fs) {
            if (f->premature) fail("foreign-deleter-too-early", "deleted while in use");
            else if (f->deleted == 0) fail("foreign-deleter-never-called", "every array using the foreign tensor is gone and its deleter was not called");
            else if (f->deleted > 1) fail("foreign-deleter-twice", cat("called ", f->deleted, " times"));
        }
    return prog;
}
static void B10(H &h) {
    h.rule = "random histories of construction, copy, move, assignment, slicing, writing, DLPack export and import (compact, strided, null strides, "
             "byte offset; the producer's shape arrays die after the import) and destruction; after every step every live handle and export is read and "
             "compared with a model, ASan watches lifetimes, each history is repeated and must leave no allocated bytes. Distinct: history.";
    h.cases("history", 4000, 80000, [&] {
        uint64_t seed = h.rng.next();
        std::string prog = b10_program(h, seed, true);
        // the same history again: whatever it allocates must be freed again
        size_t before, after, grow = SIZE_MAX;
        for (int k = 0; k < 3; ++k) {
            before = (__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0);
            { b10_program(h, seed, false); }
            after = (__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0);
            grow = std::min(grow, after - before > (size_t)1 << 40 ? 0 : after - before);
        }
        h.check(grow == 0, "leak", [&] { return cat("each run of the history leaves ", grow, " bytes allocated"); });
        h.nontrivial(prog);
    });
}

// ---------------------------------------------------------------- B11
static void B11(H &h) {
    h.rule = "a power spectrum of a real series (any length, dense or a view) compared bin by bin with a direct transform in double precision; other dtypes, ranks and the unavailable complex transform must be refused. Distinct: (length, layout, series).";
    h.cases("spectrum", 2500, 40000, [&] {
        Rng &r = h.rng;
        int64_t N = r.chance(0.3) ? r.range(1, 9) : r.chance(0.8) ? r.range(1, 130) : r.pick<int64_t>({256, 255, 257, 509, 512, 1000, 1021, 1024});
        int kind = (int)r.range(0, 5);
        int64_t at = r.range(0, N - 1), f0 = r.range(0, N / 2);
        double sc = std::pow(10, r.range(-4, 4)), ph = r.uni() * 6.28;
        int64_t i = 0;
        Made a = make(r, F32, {N}, [&] { int64_t n = i++; return (double)(float)(sc * (kind == 0 ? r.normal() : kind == 1 ? (n == at) : kind == 2 ? 1.0 : kind == 3 ? std::cos(2 * M_PI * f0 * n / N + ph) : kind == 4 ? (n % 2 ? -1.0 : 1.0) : r.normal() + 50)); });
        h.describe(cat("spectrum of ", a.desc, " kind ", kind));
        auto x = mat(a.view).v;
        ndarray P = bland::fft_shift_mag_square(a.view);
        auto p = mat(P);
        keep(h, P, "spectrum");
        if (!h.check(p.shape == Shape{N}, "spectrum-shape", [&] { return vec(p.shape); })) return;
        double S = 0, e2 = 0, tot = 0;
        for (double v : x) S += std::fabs(v), e2 += v * v;
        for (int64_t b = 0; b < N; ++b) {
            int64_t f = b - N / 2; // zero frequency in the middle (after it for even lengths)
            double re = 0, im = 0;
            for (int64_t n = 0; n < N; ++n) { double w = 2 * M_PI * (double)((f * n) % N) / N; re += x[n] * std::cos(w), im -= x[n] * std::sin(w); }
            double want = re * re + im * im, d = 2e-6 * S, tol = 2 * d * std::sqrt(want) + d * d + 1e-6 * want + 1e-37;
            tot += p.v[b];
            if (!h.check(std::fabs(p.v[b] - want) <= tol, "spectrum-value", [&] { return cat("bin ", b, " of ", N, " is ", p.v[b], " expected ", want); })) return;
            h.count("bins_compared");
        }
        h.check(std::fabs(tot - N * e2) <= 1e-3 * N * e2 + 1e-30, "spectrum-energy", [&] { return cat("bins sum to ", tot, ", samples hold ", N * e2); });
        h.check(unchanged(a), "input-modified", [] { return std::string("the input changed"); });
        if (N > 1) h.nontrivial(h.desc);
    });
    h.cases("long", 40, 600, [&] {
        Rng &r = h.rng;
        int64_t N = r.chance(0.5) ? r.range(1025, 20000) : r.pick<int64_t>({2048, 4096, 4099, 8192, 16384, 32768, 32771, 65536, 65537, 131072});
        int kind = (int)r.range(0, 3);
        int64_t at = r.range(0, N - 1), f0 = r.range(0, N / 2), i = 0;
        double ph = r.uni() * 6.28;
        Made a = make(r, F32, {N}, [&] { int64_t n = i++; return (double)(float)(kind == 0 ? r.normal() : kind == 1 ? (n == at) : kind == 2 ? std::cos(2 * M_PI * (double)((f0 * n) % N) / N + ph) : r.normal() + 50); });
        h.describe(cat("spectrum of ", a.desc, " kind ", kind));
        auto x = mat(a.view).v;
        ndarray P = bland::fft_shift_mag_square(a.view);
        auto p = mat(P);
        keep(h, P, "spectrum");
        if (!h.check(p.shape == Shape{N}, "spectrum-shape", [&] { return vec(p.shape); })) return;
        double S = 0, e2 = 0, tot = 0;
        for (double v : x) S += std::fabs(v), e2 += v * v;
        for (double v : p.v) tot += v;
        std::vector<int64_t> bins = {0, 1, N / 2 - 1, N / 2, N / 2 + 1, N - 1, N / 2 + f0 - (N % 2 ? 0 : f0 == N / 2 ? N : 0), N / 2 - f0};
        for (int k = 0; k < 24; ++k) bins.push_back(r.range(0, N - 1));
        for (int64_t b : bins) {
            if (b < 0 || b >= N) continue;
            int64_t f = b - N / 2;
            double re = 0, im = 0;
            for (int64_t n = 0; n < N; ++n) { double w = 2 * M_PI * (double)((f * n) % N) / N; re += x[n] * std::cos(w), im -= x[n] * std::sin(w); }
            double want = re * re + im * im, d = 2e-6 * S, tol = 2 * d * std::sqrt(want) + d * d + 1e-6 * want + 1e-37;
            if (!h.check(std::fabs(p.v[b] - want) <= tol, "spectrum-value", [&] { return cat("bin ", b, " of ", N, " is ", p.v[b], " expected ", want); })) return;
            h.count("bins_compared");
        }
        h.check(std::fabs(tot - N * e2) <= 1e-3 * N * e2 + 1e-30, "spectrum-energy", [&] { return cat("bins sum to ", tot, ", samples hold ", N * e2); });
        h.check(unchanged(a), "input-modified", [] { return std::string("the input changed"); });
        h.nontrivial(h.desc);
    });
    h.cases("refusals", 200, 2000, [&] {
        Rng &r = h.rng;
        Shape s = rshape(r, 4, 60);
        DT t = (DT)r.range(0, 3);
        Made a = make(r, t, s, gen_for(r, t));
        h.describe(cat("spectrum of ", a.desc));
        bool bad = t != F32 || s.size() != 1;
        h.check(throws([&] { bland::fft_shift_mag_square(a.view); }) == bad, bad ? "bad-input-accepted" : "good-input-refused", [&] { return h.desc; });
        h.check(throws([&] { bland::fft(a.view); }), "missing-transform-answered", [&] { return h.desc; });
        h.check(unchanged(a), "input-modified", [] { return std::string("the input changed"); });
        h.nontrivial(h.desc);
    });
}
int main(int c, char **v) { return run_main(c, v, {{"B04", B04}, {"B05", B05}, {"B08", B08}, {"B09", B09}, {"B10", B10}, {"B11", B11}}); }
