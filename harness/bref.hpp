// Reference view of bland arrays: reads only the public shape/strides/offsets/data pointer.
#pragma once
#include "vh.hpp"
#include <cstring>
#include <deque>
#include <bland/bland.hpp>
#include <bland/ndarray.hpp>
#include <bland/ndarray_deferred.hpp>
#include <bland/ndarray_slice.hpp>
#include <bland/ops/creators.hpp>
#include <bland/ops/ops.hpp>
#include <bland/ops/ops_arithmetic.hpp>
#include <bland/ops/ops_comparison.hpp>
#include <bland/ops/ops_shape.hpp>
#include <bland/ops/ops_statistical.hpp>

namespace ref {
using bland::ndarray;
using Shape = std::vector<int64_t>;
using vh::cat;
using vh::Rng;
using vh::vec;

enum DT { F32, I32, U8, U32 };
inline DLDataType dl(DT t) {
    switch (t) {
    case F32: return ndarray::datatype::float32;
    case I32: return ndarray::datatype::int32;
    case U8: return ndarray::datatype::uint8;
    default: return ndarray::datatype::uint32;
    }
}
inline const char *dtname(DT t) { static const char *n[] = {"f32", "i32", "u8", "u32"}; return n[t]; }
inline DT dtof(const ndarray &a) {
    auto d = a.dtype();
    if (d.code == kDLFloat && d.bits == 32) return F32;
    if (d.code == kDLInt && d.bits == 32) return I32;
    if (d.code == kDLUInt && d.bits == 8) return U8;
    if (d.code == kDLUInt && d.bits == 32) return U32;
    throw std::logic_error("dtof: unexpected dtype");
}
inline double rd(void *p, DT t, int64_t i) {
    switch (t) {
    case F32: return ((float *)p)[i];
    case I32: return ((int32_t *)p)[i];
    case U8: return ((uint8_t *)p)[i];
    default: return ((uint32_t *)p)[i];
    }
}
inline void wr(void *p, DT t, int64_t i, double v) {
    switch (t) {
    case F32: ((float *)p)[i] = (float)v; break;
    case I32: ((int32_t *)p)[i] = (int32_t)(int64_t)v; break;
    case U8: ((uint8_t *)p)[i] = (uint8_t)(int64_t)v; break;
    default: ((uint32_t *)p)[i] = (uint32_t)(int64_t)v; break;
    }
}
inline int64_t numel(const Shape &s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
inline bool inc(Shape &i, const Shape &s) {
    for (int d = (int)s.size() - 1; d >= 0; --d) { if (++i[d] < s[d]) return true; i[d] = 0; }
    return false;
}
// linear buffer positions of every element in row-major index order
inline std::vector<int64_t> positions(const ndarray &a) {
    Shape s = a.shape(), st = a.strides(), of = a.offsets();
    std::vector<int64_t> out;
    int64_t n = numel(s);
    out.reserve(n);
    Shape i(s.size(), 0);
    int64_t base = 0;
    for (auto o : of) base += o;
    for (int64_t k = 0; k < n; ++k) {
        int64_t l = base;
        for (size_t d = 0; d < s.size(); ++d) l += i[d] * st[d];
        out.push_back(l);
        inc(i, s);
    }
    return out;
}
struct Arr {
    Shape shape;
    std::vector<double> v;
    double at(const Shape &i) const {
        int64_t l = 0;
        for (size_t d = 0; d < shape.size(); ++d) l = l * shape[d] + i[d];
        return v[l];
    }
};
inline Arr mat(const ndarray &a) {
    Arr r;
    r.shape = a.shape();
    auto p = positions(a);
    DT t = dtof(a);
    for (auto l : p) r.v.push_back(rd(a.data_ptr<void>(), t, l));
    return r;
}
// a result is its caller's: the calls that come after leave it as it is
inline void keep(vh::H &h, const ndarray &res, const std::string &what) {
    struct Kept { ndarray a; std::vector<double> was; std::string what; };
    static std::deque<Kept> kept;
    for (auto &k : kept) {
        auto now = mat(k.a).v;
        h.check(now.size() == k.was.size() && (now.empty() || !memcmp(now.data(), k.was.data(), now.size() * 8)), "earlier-result-changed", [&] { return cat("a result of ", k.what, " after ", what, ": ", vec(now, 24), " was ", vec(k.was, 24)); });
        h.count("earlier_results_compared");
        k.was = now;
    }
    if (res.numel() > 5000) return;
    kept.push_back(Kept{ndarray(res), mat(res).v, what});
    if (kept.size() > 3) kept.pop_front();
}
inline std::string show(const Arr &a) { return cat("shape ", vec(a.shape), " data ", vec(a.v, 48)); }

// 0: small shapes; 1: five to seven axes; 2: beyond 65536 elements; the workloads repeat their bodies under each
inline int g_shapes = 0;
inline Shape rshape(Rng &r, int maxd, int64_t maxn, bool longlast = true) {
    if (g_shapes == 1) {
        Shape s(r.range(5, 7));
        for (auto &x : s) x = r.chance(0.3) ? 1 : r.range(1, 4);
        while (numel(s) > 300) { auto &x = s[r.next() % s.size()]; if (x > 1) x = (x + 1) / 2; }
        return s;
    }
    if (g_shapes == 2) {
        int64_t n = r.pick<int64_t>({65536, 65537, 70001, 100003, 131071, 131072, 131073, 200003, 300007});
        int d = (int)r.range(1, 3);
        if (d == 1) return {n};
        int64_t a = r.chance(0.3) ? r.range(2, 5) : r.range(2, 300), b = d == 3 ? r.range(2, 7) : 1, c = n / (a * b) + 1;
        Shape s = d == 3 ? Shape{a, b, c} : Shape{a, c};
        if (r.chance(0.5)) std::swap(s.front(), s.back());
        return s;
    }
    int d = (int)r.range(1, maxd);
    Shape s(d);
    for (int i = 0; i < d; ++i) s[i] = r.chance(0.2) ? 1 : r.range(1, d >= 3 ? 5 : 9);
    if (longlast && r.chance(0.35)) s[d - 1] = r.range(7, 40);
    while (numel(s) > maxn) for (auto &x : s) if (x > 1) { x = (x + 1) / 2; }
    return s;
}
// the body of an earlier suite once more, on arrays of many axes and on large ones
inline void again(vh::H &h, const std::string &label, int64_t q1, int64_t t1, int64_t q2, int64_t t2) {
    auto body = h.bodies[label];
    for (int m = 1; m <= 2; ++m)
        h.cases(label + (m == 1 ? "/axes" : "/large"), m == 1 ? q1 : q2, m == 1 ? t1 : t2, [&] {
            struct Mode { Mode(int m) { g_shapes = m; } ~Mode() { g_shapes = 0; } } mode(m);
            body();
        });
}
struct Made {
    ndarray base;                 // dense owner
    ndarray view;                 // arbitrary layout
    std::vector<double> base_copy; // contents before the operation
    std::string desc;
};
inline std::vector<double> snapshot(const ndarray &base) { return mat(base).v; }
// an array whose view has the wanted shape; layout is dense, strided, offset or both
inline Made make(Rng &r, DT t, const Shape &want, const std::function<double()> &gen, double p_view = 0.7) {
    Shape bs(want.size()), st(want.size(), 1), off(want.size(), 0);
    bool view = r.chance(p_view);
    for (size_t d = 0; d < want.size(); ++d) {
        if (view) {
            st[d]  = g_shapes ? r.pick({1, 1, 1, 2}) : r.pick({1, 1, 2, 3});
            off[d] = r.pick({0, 0, 1, 2, 3});
            bs[d]  = off[d] + (want[d] - 1) * st[d] + 1 + r.pick({0, 0, 1, 2});
        } else
            bs[d] = want[d];
    }
    ndarray base(bs, dl(t));
    int64_t n = numel(bs);
    for (int64_t i = 0; i < n; ++i) wr(base.data_ptr<void>(), t, i, gen());
    // NB: never assign over an array that borrows; build the view step by step in fresh variables
    std::vector<ndarray> chain{base};
    for (size_t d = 0; d < want.size(); ++d)
        if (view) chain.push_back(bland::slice(chain.back(), (int64_t)d, off[d], off[d] + (want[d] - 1) * st[d] + 1, st[d]));
    ndarray v = chain.back();
    Made m{base, v, {}, cat(dtname(t), vec(want), view ? cat(" of ", vec(bs), " off ", vec(off), " step ", vec(st)) : std::string(" dense"))};
    m.base_copy = snapshot(base);
    return m;
}
inline bool unchanged(const Made &m) {
    auto now = snapshot(m.base);
    for (size_t i = 0; i < now.size(); ++i)
        if (!(now[i] == m.base_copy[i] || (std::isnan(now[i]) && std::isnan(m.base_copy[i])))) return false;
    return true;
}
inline std::function<double()> gen_for(Rng &r, DT t) {
    Rng *p = &r;
    switch (t) {
    case F32: return [p] { return p->chance(0.1) ? (double)(float)p->range(-3, 3) : (double)(float)(p->normal() * std::pow(10, p->range(-2, 4))); };
    case I32: return [p] { return (double)p->range(-1000, 1000); };
    case U8: return [p] { return (double)p->range(0, 255); };
    default: return [p] { return (double)p->range(0, 100000); };
    }
}
inline bool close(double got, double want, double rel, double abs_) {
    if (std::isnan(want)) return std::isnan(got);
    if (std::isinf(want) || std::isinf(got)) return got == want;
    return std::fabs(got - want) <= abs_ + rel * std::fabs(want);
}
inline bool bcast(const Shape &a, const Shape &b, Shape &o) {
    size_t n = std::max(a.size(), b.size());
    o.assign(n, 1);
    for (size_t i = 0; i < n; ++i) {
        int64_t x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        if (x != y && x != 1 && y != 1) return false;
        o[n - 1 - i] = x == 1 ? y : x;
    }
    return true;
}
inline double bat(const Arr &a, const Shape &oi) {
    Shape i(a.shape.size());
    for (size_t d = 0; d < i.size(); ++d) { int64_t x = oi[oi.size() - i.size() + d]; i[d] = a.shape[d] == 1 ? 0 : x; }
    return a.at(i);
}
} // namespace ref
