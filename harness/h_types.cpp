// B13: every element type, name and device is either handled exactly or refused
#include "bx.hpp"
#include <bland/ops/ops_arithmetic.hpp>
#include <core/frequency_drift_plane.hpp>
#include <complex>
#include <fstream>

namespace {
using namespace ref;
using bx::refused;
using vh::H;

struct Ty { const char *name; DLDataType t; };
const std::vector<Ty> REAL = {{"float32", {kDLFloat, 32, 1}}, {"float64", {kDLFloat, 64, 1}}, {"int8", {kDLInt, 8, 1}}, {"int16", {kDLInt, 16, 1}}, {"int32", {kDLInt, 32, 1}},
                              {"int64", {kDLInt, 64, 1}}, {"uint8", {kDLUInt, 8, 1}}, {"uint16", {kDLUInt, 16, 1}}, {"uint32", {kDLUInt, 32, 1}}, {"uint64", {kDLUInt, 64, 1}}};
const std::vector<Ty> OTHER = {{"complex64", {kDLComplex, 64, 1}}, {"complex128", {kDLComplex, 128, 1}}, {"float16", {kDLFloat, 16, 1}}, {"bfloat16", {kDLBfloat, 16, 1}}};
const std::vector<Ty> USUAL = {REAL[0], REAL[4], REAL[6], REAL[8]};

bool isreal(DLDataType t) { return t.code == kDLFloat ? t.bits == 32 || t.bits == 64 : t.code == kDLInt || t.code == kDLUInt; }
double get(const void *p, DLDataType t, int64_t i) {
    if (t.code == kDLFloat) return t.bits == 32 ? (double)((const float *)p)[i] : ((const double *)p)[i];
    if (t.code == kDLInt) return t.bits == 8 ? (double)((const int8_t *)p)[i] : t.bits == 16 ? (double)((const int16_t *)p)[i] : t.bits == 32 ? (double)((const int32_t *)p)[i] : (double)((const int64_t *)p)[i];
    return t.bits == 8 ? (double)((const uint8_t *)p)[i] : t.bits == 16 ? (double)((const uint16_t *)p)[i] : t.bits == 32 ? (double)((const uint32_t *)p)[i] : (double)((const uint64_t *)p)[i];
}
void put(void *p, DLDataType t, int64_t i, double v) {
    if (t.code == kDLFloat) { if (t.bits == 32) ((float *)p)[i] = (float)v; else ((double *)p)[i] = v; }
    else {
        int64_t x = (int64_t)v;
        memcpy((char *)p + i * (t.bits / 8), &x, t.bits / 8);
    }
}
struct A {
    ndarray a;
    std::vector<double> v;
};
ndarray block(const Shape &s, DLDataType t) { return ndarray(s, ndarray::datatype(t)); }
// the wanted values in an array of any real type, dense or a view
A make_t(Rng &r, DLDataType t, const Shape &want, const std::function<double()> &gen) {
    Shape bs = want, off(want.size(), 0), st(want.size(), 1);
    bool view = r.chance(0.4);
    if (r.chance(0.15)) t.lanes = 0; // as a type written without its lanes has it
    if (view)
        for (size_t d = 0; d < want.size(); ++d) { st[d] = r.pick({1, 1, 2, 3}); off[d] = r.range(0, 2); bs[d] = off[d] + (want[d] - 1) * st[d] + 1 + r.range(0, 2); }
    ndarray b = block(bs, t);
    int64_t n = ref::numel(bs);
    for (int64_t i = 0; i < n; ++i) put(b.data_ptr<void>(), t, i, 101);
    for (size_t d = 0; view && d < want.size(); ++d) b = bland::slice(b, (int64_t)d, off[d], off[d] + (want[d] - 1) * st[d] + 1, st[d]);
    A o{b, {}};
    for (auto l : positions(b)) { double v = gen(); put(b.data_ptr<void>(), t, l, v); o.v.push_back(v); }
    return o;
}
bool values(const ndarray &a, std::vector<double> &v) {
    DLDataType t = ndarray(a).dtype();
    v.clear();
    if (!isreal(t)) return false;
    for (auto l : positions(a)) v.push_back(get(a.data_ptr<void>(), t, l));
    return true;
}

// either refused, or the values expected
struct Judge {
    H &h;
    std::string what;
    bool is(const std::function<ndarray()> &f, const Shape &shape, const std::vector<double> &want, double tol = 0) {
        std::optional<ndarray> got;
        std::string why;
        bool no = refused([&] { got.emplace(f()); }, &why);
        h.count(no ? "refused" : "computed");
        if (no) return false;
        std::vector<double> v;
        bool ok = got->shape() == shape && values(*got, v) && v.size() == want.size();
        int64_t bad = -1;
        bool integral = ok && got->dtype().code != kDLFloat;
        for (size_t i = 0; ok && i < v.size(); ++i) {
            double t = tol ? tol * std::max(1.0, std::abs(want[i])) + (integral ? 1 : 0) : 0;
            if (!(std::abs(v[i] - want[i]) <= t)) { ok = false; bad = (int64_t)i; }
        }
        auto key = what.substr(0, what.find(' '));
        h.check(ok, "type-" + key, [&] { return cat(what, ": got ", vec(got->shape()), " of code ", (int)got->dtype().code, " bits ", (int)got->dtype().bits, " ", vec(v, 30), " want ", vec(shape), " ", vec(want, 30), " first at ", bad); });
        return ok;
    }
};

template <class S> const char *sname() { return std::is_same_v<S, float> ? "float" : std::is_same_v<S, int32_t> ? "int32" : std::is_same_v<S, uint8_t> ? "uint8" : "uint32"; }

Shape keepdims(const Shape &s, const std::vector<int64_t> &axes, std::vector<int64_t> &group) {
    Shape o;
    std::set<int64_t> ax(axes.begin(), axes.end());
    for (size_t d = 0; d < s.size(); ++d) if (!ax.empty() && !ax.count((int64_t)d)) o.push_back(s[d]);
    if (o.empty()) o = {1};
    Shape i(s.size(), 0);
    group.clear();
    for (int64_t k = 0, n = ref::numel(s); k < n; ++k, inc(i, s)) {
        int64_t g = 0;
        for (size_t d = 0; d < s.size(); ++d) if (!ax.empty() && !ax.count((int64_t)d)) g = g * s[d] + i[d];
        group.push_back(g);
    }
    return o;
}

void ops(H &h) {
    h.cases("operation", 20000, 1500000, [&] {
        Rng &r = h.rng;
        Ty ta = r.pick(REAL), tb = r.chance(0.5) ? r.pick(USUAL) : r.pick(REAL);
        if (r.chance(0.35)) ta = r.pick(USUAL);
        Shape s = rshape(r, 3, 40, false);
        auto small = [&] { return (double)r.range(0, 9); };
        auto pos = [&] { return (double)r.range(1, 9); };
        A a = make_t(r, ta.t, s, small);
        size_t n = a.v.size();
        std::string d;
        auto describe = [&](const std::string &x) { d = x; h.describe(cat(x, " shape ", vec(s))); h.nontrivial(h.desc); };
        Judge j{h, ""};
        auto scalar = [&](auto tag) {
            using S = decltype(tag);
            S x = (S)r.range(1, 9);
            int k = (int)r.range(0, 11);
            static const char *names[] = {"add", "subtract", "multiply", "divide", "greater", "greater-equal", "less", "less-equal", "equal", "and", "fill", "create"};
            describe(cat("scalar-", names[k], " ", ta.name, " with ", sname<S>(), " ", (double)x));
            j.what = d;
            // differences and quotients that every type can hold
            A b = k == 1 ? make_t(r, ta.t, s, [&] { return (double)x + small(); }) : k == 3 ? make_t(r, ta.t, s, [&] { return (double)x * small(); }) : a;
            std::vector<double> w;
            for (auto v : b.v) w.push_back(k == 0 ? v + x : k == 1 ? v - x : k == 2 ? v * x : k == 3 ? v / x : k == 4 ? v > x : k == 5 ? v >= x : k == 6 ? v < x : k == 7 ? v <= x : k == 8 ? v == x : k == 9 ? (((int)v & (int)x) != 0) : (double)x);
            if (k == 9) for (size_t i = 0; i < w.size(); ++i) w[i] = (int)b.v[i] & (int)x;
            if constexpr (!std::is_same_v<S, float>) {
                if (k == 9) { if (ta.t.code != kDLFloat) j.is([&] { return b.a & x; }, s, w); return; }
            } else if (k == 9) return;
            switch (k) {
            case 0: j.is([&] { return b.a + x; }, s, w); break;
            case 1: j.is([&] { return b.a - x; }, s, w); break;
            case 2: j.is([&] { return b.a * x; }, s, w); break;
            case 3: j.is([&] { return b.a / x; }, s, w, 1e-6); break;
            case 4: j.is([&] { return b.a > x; }, s, w); break;
            case 5: j.is([&] { return b.a >= x; }, s, w); break;
            case 6: j.is([&] { return b.a < x; }, s, w); break;
            case 7: j.is([&] { return b.a <= x; }, s, w); break;
            case 8: j.is([&] { return bland::equal_to(b.a, x); }, s, w); break;
            case 10: {
                ndarray c = b.a;
                if (!j.is([&] { return bland::fill(c, x); }, s, w)) break;
                j.is([&] { return c; }, s, w);
                break;
            }
            case 11: j.is([&] { return ndarray(s, x, ndarray::datatype(ta.t)); }, s, w); break;
            }
        };
        switch (r.range(0, 13)) {
        case 0: case 1: {
            int k = (int)r.range(0, 9);
            static const char *names[] = {"add", "subtract", "multiply", "divide", "greater", "greater-equal", "less", "less-equal", "equal", "and"};
            describe(cat("binary-", names[k], " ", ta.name, " with ", tb.name));
            j.what = d;
            A b = make_t(r, tb.t, s, k == 3 ? std::function<double()>(pos) : std::function<double()>(small));
            if (k == 1 || k == 3) {
                size_t i = 0;
                a = make_t(r, ta.t, s, [&] { double y = b.v[i++]; return k == 1 ? y + small() : y * small(); });
            }
            std::vector<double> w;
            for (size_t i = 0; i < n; ++i) {
                double x = a.v[i], y = b.v[i];
                w.push_back(k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : k == 3 ? x / y : k == 4 ? x > y : k == 5 ? x >= y : k == 6 ? x < y : k == 7 ? x <= y : k == 8 ? x == y : (double)((int)x & (int)y));
            }
            if (k == 9 && (ta.t.code == kDLFloat || tb.t.code == kDLFloat)) break;
            j.is([&] { return k == 0 ? a.a + b.a : k == 1 ? a.a - b.a : k == 2 ? a.a * b.a : k == 3 ? a.a / b.a : k == 4 ? a.a > b.a : k == 5 ? a.a >= b.a : k == 6 ? a.a < b.a : k == 7 ? a.a <= b.a : k == 8 ? bland::equal_to(a.a, b.a) : (a.a & b.a); }, s, w,
                 k == 3 ? 1e-6 : 0);
            break;
        }
        case 2: case 3:
            switch (r.range(0, 3)) { case 0: scalar(float()); break; case 1: scalar(int32_t()); break; case 2: scalar(uint8_t()); break; default: scalar(uint32_t()); }
            break;
        case 4: {
            int k = (int)r.range(0, 3);
            static const char *names[] = {"copy", "abs", "square", "sqrt"};
            if (k == 3) { a = make_t(r, ta.t, s, [&] { double x = small(); return x * x; }); }
            bool neg = k == 1 && ta.t.code != kDLUInt;
            if (neg) a = make_t(r, ta.t, s, [&] { return (double)r.range(-9, 9); });
            std::vector<double> w;
            for (auto x : a.v) w.push_back(k == 0 ? x : k == 1 ? std::abs(x) : k == 2 ? x * x : std::sqrt(x));
            if (r.chance(0.5)) {
                describe(cat(names[k], " ", ta.name));
                j.what = d;
                j.is([&] { return k == 0 ? bland::copy(a.a) : k == 1 ? bland::abs(a.a) : k == 2 ? bland::square(a.a) : bland::sqrt(a.a); }, s, w, k == 3 ? 1e-6 : 0);
            } else {
                describe(cat(names[k], "-into ", ta.name, " into ", tb.name));
                j.what = d;
                A o = make_t(r, tb.t, s, small);
                if (j.is([&] { return k == 0 ? bland::copy(a.a, o.a) : k == 1 ? bland::abs(a.a, o.a) : k == 2 ? bland::square(a.a, o.a) : bland::sqrt(a.a, o.a); }, s, w, k == 3 ? 1e-6 : 0)) j.is([&] { return o.a; }, s, w, k == 3 ? 1e-6 : 0);
            }
            break;
        }
        case 5: case 6: {
            int k = (int)r.range(0, 5);
            static const char *names[] = {"sum", "mean", "stddev", "max", "count", "median"};
            describe(cat(names[k], " ", ta.name));
            j.what = d;
            std::vector<int64_t> axes, g;
            if (k < 4) for (size_t q = 0; q < s.size(); ++q) if (r.chance(0.3)) axes.push_back((int64_t)q);
            Shape os = keepdims(s, axes, g);
            int64_t no = ref::numel(os);
            std::vector<double> S(no), Q(no), M(no, -1), C(no), w(no);
            for (size_t i = 0; i < n; ++i) { double x = a.v[i]; S[g[i]] += x; Q[g[i]] += x * x; M[g[i]] = std::max(M[g[i]], x); C[g[i]]++; }
            for (int64_t i = 0; i < no; ++i) { double m = S[i] / C[i]; w[i] = k == 0 ? S[i] : k == 1 ? m : k == 2 ? std::sqrt(std::max(0.0, Q[i] / C[i] - m * m)) : M[i]; }
            if (k < 4) j.is([&] { return k == 0 ? bland::sum(a.a, axes) : k == 1 ? bland::mean(a.a, axes) : k == 2 ? bland::stddev(a.a, axes) : bland::max(a.a, axes); }, os, w, k == 0 || k == 3 ? 0 : 1e-4);
            else if (k == 4) {
                int64_t got = -1, want = std::count_if(a.v.begin(), a.v.end(), [](double x) { return x != 0; });
                bool no2 = refused([&] { got = bland::count_true(a.a); });
                h.count(no2 ? "refused" : "computed");
                if (!no2) h.check(got == want, "type-count", [&] { return cat(d, ": ", got, " want ", want); });
            } else {
                float got = -1;
                bool no2 = refused([&] { got = bland::median(a.a); });
                h.count(no2 ? "refused" : "computed");
                auto v = a.v;
                std::sort(v.begin(), v.end());
                // any element or midpoint in the middle: the exact convention is B04's subject
                double lo = v[(n - 1) / 2], hi = v[n / 2];
                if (!no2) h.check(got >= lo && got <= hi, "type-median", [&] { return cat(d, ": ", got, " want ", lo, "..", hi); });
            }
            break;
        }
        case 7: {
            int k = (int)r.range(0, 2);
            static const char *names[] = {"masked-mean", "masked-stddev", "masked-mean-stddev"};
            describe(cat(names[k], " ", ta.name, " mask ", tb.name));
            j.what = d;
            A m = make_t(r, tb.t, s, [&] { return r.chance(0.3) ? (double)r.range(1, 9) : 0; });
            double S = 0, Q = 0, C = 0;
            for (size_t i = 0; i < n; ++i) if (m.v[i] == 0) { S += a.v[i]; Q += a.v[i] * a.v[i]; ++C; }
            if (C == 0) break;
            double mean = S / C, sd = std::sqrt(std::max(0.0, Q / C - mean * mean));
            if (k == 0) j.is([&] { return bland::masked_mean(a.a, m.a); }, {1}, {mean}, 1e-4);
            else if (k == 1) j.is([&] { return bland::masked_stddev(a.a, m.a); }, {1}, {sd}, 1e-4);
            else { j.is([&] { return bland::masked_mean_stddev(a.a, m.a).first; }, {1}, {mean}, 1e-4); j.is([&] { return bland::masked_mean_stddev(a.a, m.a).second; }, {1}, {sd}, 1e-4); }
            break;
        }
        case 8: {
            describe(cat("assign ", tb.name, " to a slice of ", ta.name));
            j.what = d;
            A b = make_t(r, tb.t, s, small);
            ndarray whole = a.a;
            auto &w = b.v;
            j.is([&] {
                auto sl = bland::slice(whole, 0, 0, s[0]);
                sl = b.a;
                return whole;
            }, s, w);
            break;
        }
        case 9: {
            describe(cat("text ", ta.name));
            std::string t;
            if (refused([&] { t = a.a.repr(); })) { h.count("refused"); break; }
            h.count("computed");
            auto nl = t.find('\n');
            std::istringstream in(nl == std::string::npos ? "" : t.substr(nl + 1));
            std::vector<double> got, want(a.v.begin(), a.v.begin() + std::min<size_t>(n, 25));
            double x;
            while (in >> x) got.push_back(x);
            h.check(got == want && t.find(ta.name) != std::string::npos, "type-text", [&] { return cat(t, " want ", vec(want)); });
            break;
        }
        case 10: {
            auto p = h.scratch + "/t.bin";
            if (r.chance(0.5)) {
                describe(cat("write ", ta.name));
                unlink(p.c_str());
                if (refused([&] { bland::write_to_file(a.a, p); })) { h.count("refused"); break; }
                h.count("computed");
                std::ifstream in(p, std::ios::binary);
                std::string got((std::istreambuf_iterator<char>(in)), {}), want(n * (ta.t.bits / 8), 0);
                for (size_t i = 0; i < n; ++i) put(want.data(), ta.t, (int64_t)i, a.v[i]);
                h.check(got == want, "type-write", [&] { return cat(ta.name, ": ", got.size(), " bytes, want ", want.size()); });
            } else {
                describe(cat("read ", ta.name));
                j.what = d;
                std::string b(n * (ta.t.bits / 8), 0);
                for (size_t i = 0; i < n; ++i) put(b.data(), ta.t, (int64_t)i, a.v[i]);
                std::ofstream(p, std::ios::binary) << b;
                j.is([&] { return bland::read_from_file(p, ndarray::datatype(std::string_view(ta.name))); }, {(int64_t)n}, a.v);
            }
            unlink(p.c_str());
            break;
        }
        case 11: {
            int k = (int)r.range(0, 3);
            static const char *names[] = {"zeros", "ones", "arange", "linspace"};
            describe(cat(names[k], " ", ta.name));
            j.what = d;
            std::vector<double> w;
            int64_t N = r.range(1, 20);
            double lo = (double)r.range(0, 5), step = (double)r.range(1, 4);
            if (k < 2) j.is([&] { return k ? bland::ones(s, ta.t) : bland::zeros(s, ta.t); }, s, std::vector<double>(n, k));
            else {
                for (int64_t i = 0; i < N; ++i) w.push_back(lo + step * (double)i);
                if (k == 2) j.is([&] { return bland::arange<float, float, float>((float)lo, (float)(lo + step * N), (float)step, ta.t); }, {N}, w);
                else j.is([&] { return bland::linspace<double>(lo, lo + step * N, (size_t)N, ta.t); }, {N}, w, 1e-6);
            }
            break;
        }
        case 12: {
            describe(cat("scalar of ", ta.name));
            Shape one(r.range(1, 3), 1);
            A x = make_t(r, ta.t, one, [&] { return (double)r.range(0, 127); });
            Shape at;
            for (auto q : s) at.push_back(r.range(0, q - 1));
            int64_t lin = 0;
            for (size_t q = 0; q < s.size(); ++q) lin = lin * s[q] + at[q];
            auto same = [&](auto tag) {
                using S = decltype(tag);
                S g{}, e{};
                bool no = refused([&] { g = x.a.template scalarize<S>(); e = a.a.template scalarize<S>(at); });
                h.count(no ? "refused" : "computed");
                if (!no) h.check(g == (S)x.v[0] && e == (S)a.v[(size_t)lin], "type-scalar", [&] { return cat(d, ": ", (double)g, " want ", x.v[0], ", at ", vec(at), " ", (double)e, " want ", a.v[(size_t)lin]); });
            };
            switch (r.range(0, 9)) {
            case 0: same(float()); break; case 1: same(double()); break; case 2: same(int8_t()); break; case 3: same(int16_t()); break; case 4: same(int32_t()); break;
            case 5: same(int64_t()); break; case 6: same(uint8_t()); break; case 7: same(uint16_t()); break; case 8: same(uint32_t()); break; default: same(uint64_t());
            }
            if (n > 1) h.check(refused([&] { (void)a.a.scalarize<float>(); }), "type-scalar", [&] { return cat(d, ": ", n, " elements taken as one"); });
            Shape none(1, 0);
            ndarray z = block({0}, ta.t);
            h.check(refused([&] { (void)z.scalarize<float>(); }), "type-scalar", [&] { return cat(d, ": no element taken as one"); });
            bliss::noise_stats ns;
            ns.set_noise_floor(x.a);
            ns.set_noise_power(x.a);
            float f = -1, p = -1, amp = -1;
            if (!refused([&] { f = ns.noise_floor(); p = ns.noise_power(); amp = ns.noise_amplitude(); }))
                h.check(f == (float)x.v[0] && p == f && amp == std::sqrt(f), "type-noise", [&] { return cat(d, ": ", f, " ", p, " ", amp, " want ", x.v[0]); });
            break;
        }
        default: {
            // views of any type, also those nothing computes with: the bytes are the same ones
            Ty t = r.chance(0.4) ? r.pick(OTHER) : ta;
            describe(cat("views ", t.name));
            int64_t w = t.t.bits / 8;
            ndarray b = block(s, t.t);
            std::vector<uint8_t> bytes((size_t)(n * w));
            for (auto &x : bytes) x = (uint8_t)r.next();
            memcpy(b.data_ptr<void>(), bytes.data(), bytes.size());
            auto check = [&](const ndarray &v, const std::vector<int64_t> &pos, const char *what) {
                auto p = positions(v);
                bool ok = p.size() == pos.size();
                for (size_t i = 0; ok && i < p.size(); ++i) ok = !memcmp((char *)v.data_ptr<void>() + p[i] * w, bytes.data() + pos[i] * w, (size_t)w);
                h.check(ok && ndarray(v).dtype() == t.t, cat("type-", what), [&] { return cat(d, ": positions ", vec(p), " want ", vec(pos)); });
                h.count("computed");
            };
            std::vector<int64_t> all;
            for (size_t i = 0; i < n; ++i) all.push_back((int64_t)i);
            check(b, all, "views");
            int64_t st = r.range(1, 3);
            auto v = bland::slice(b, 0, 0, s[0], st);
            std::vector<int64_t> pos2;
            int64_t inner = (int64_t)n / s[0];
            for (int64_t q = 0; q < s[0]; q += st) for (int64_t i = 0; i < inner; ++i) pos2.push_back(q * inner + i);
            check(v, pos2, "views");
            ndarray f = b;
            f = f.reshape({(int64_t)n});
            check(f, all, "reshape");
            ndarray c = b;
            std::optional<ndarray> cp;
            if (!refused([&] { cp.emplace(bland::copy(v)); })) check(*cp, pos2, "raw-copy"); else h.count("refused");
            DLManagedTensor *m = c.get_managed_tensor();
            h.check(m->dl_tensor.dtype.code == t.t.code && m->dl_tensor.dtype.bits == t.t.bits && !memcmp((char *)m->dl_tensor.data + m->dl_tensor.byte_offset, bytes.data(), bytes.size()), "type-export", [&] { return d; });
            m->deleter(m);
            break;
        }
        }
    });
}

void names(H &h) {
    h.cases("name", 4000, 200000, [&] {
        Rng &r = h.rng;
        static const std::map<std::string, DLDataType> types = {{"float", {kDLFloat, 32, 1}}, {"float32", {kDLFloat, 32, 1}}, {"double", {kDLFloat, 64, 1}}, {"float64", {kDLFloat, 64, 1}}, {"int", {kDLInt, 64, 1}}, {"int64", {kDLInt, 64, 1}},
            {"int32", {kDLInt, 32, 1}}, {"int16", {kDLInt, 16, 1}}, {"int8", {kDLInt, 8, 1}}, {"uint", {kDLUInt, 64, 1}}, {"uint64", {kDLUInt, 64, 1}}, {"uint32", {kDLUInt, 32, 1}}, {"uint16", {kDLUInt, 16, 1}}, {"uint8", {kDLUInt, 8, 1}}};
        auto mutate = [&](std::string s) {
            for (int k = (int)r.range(0, 2); k >= 0; --k) {
                size_t at = (size_t)r.range(0, (int64_t)s.size());
                switch (r.range(0, 3)) {
                case 0: if (!s.empty()) s.erase(std::min(at, s.size() - 1), 1); break;
                case 1: s.insert(at, 1, (char)r.pick({'0', '1', '6', ' ', 'x', 't', ':', '-', 'U'})); break;
                case 2: if (!s.empty()) s[std::min(at, s.size() - 1)] = (char)r.range(32, 126); break;
                default: s += r.pick({":0", ":1", "0", "\n", "x"});
                }
            }
            return s;
        };
        if (r.chance(0.5)) {
            auto it = std::next(types.begin(), r.range(0, (int64_t)types.size() - 1));
            std::string s = it->first;
            if (r.chance(0.6)) s = mutate(s);
            h.describe("type name '" + s + "'");
            h.nontrivial(h.desc);
            std::optional<ndarray::datatype> t;
            bool no = refused([&] { t.emplace(std::string_view(s)); });
            auto w = types.find(s);
            if (w == types.end()) h.check(no || !isreal(*t) , "unknown-type-accepted", [&] { return cat("'", s, "' means code ", (int)t->code, " bits ", (int)t->bits); });
            else {
                h.check(!no && t->code == w->second.code && t->bits == w->second.bits && t->lanes == 1, "type-name", [&] { return cat("'", s, "'", no ? " refused" : cat(" means code ", (int)t->code, " bits ", (int)t->bits)); });
                if (!no) {
                    auto other = std::next(types.begin(), r.range(0, (int64_t)types.size() - 1));
                    ndarray::datatype o = other->second;
                    bool same = o.code == t->code && o.bits == t->bits;
                    h.check((*t == o) == same && (*t != o) == !same, "type-equality", [&] { return cat(s, " and ", other->first); });
                }
            }
        } else {
            static const std::map<std::string, DLDeviceType> devs = {{"cpu", kDLCPU}, {"cuda", kDLCUDA}, {"cudamanaged", kDLCUDAManaged}, {"cudahost", kDLCUDAHost}};
            auto it = std::next(devs.begin(), r.range(0, (int64_t)devs.size() - 1));
            int id = (int)r.range(0, 12);
            bool with = r.chance(0.5), odd = r.chance(0.4);
            std::string s = with ? cat(it->first, ":", id) : it->first;
            if (odd) s = mutate(s);
            h.describe("device name '" + s + "'");
            h.nontrivial(h.desc);
            // what the text denotes, if anything
            std::optional<std::pair<DLDeviceType, long>> want;
            for (auto &[n, t] : devs) {
                if (s == n) want = {t, 0};
                else if (s.rfind(n + ":", 0) == 0) {
                    auto num = s.substr(n.size() + 1);
                    if (!num.empty() && num.size() < 9 && std::all_of(num.begin(), num.end(), [](char c) { return c >= '0' && c <= '9'; })) want = {t, std::stol(num)};
                }
            }
            std::optional<ndarray::dev> g;
            bool no = refused([&] { g.emplace(std::string_view(s)); });
            if (want && want->first == kDLCPU && s != "cpu" && no) { /* ids of cpus are not required */ }
            else if (!want) h.check(no, "unknown-device-accepted", [&] { return cat("'", s, "' means ", (int)g->device_type, ":", g->device_id); });
            else h.check(!no && g->device_type == want->first && g->device_id == want->second, "device-name", [&] { return cat("'", s, "'", no ? " refused" : cat(" means ", (int)g->device_type, ":", g->device_id)); });
            if (!no) {
                ndarray::dev cpu = ndarray::dev::cpu;
                bool same = g->device_type == kDLCPU && g->device_id == 0;
                h.check((*g == cpu) == same && (*g != cpu) == !same, "device-equality", [&] { return s; });
            }
        }
        h.count("names");
    });
}

// there is no other device here: nothing may pretend that there is
void devices(H &h) {
    h.cases("device", 400, 6000, [&] {
        Rng &r = h.rng;
        std::string dev = r.pick({"cuda", "cuda:0", "cuda:3", "cuda:7"});
        Shape s = {r.range(1, 4), r.range(2, 9)};
        A a = make_t(r, r.pick(USUAL).t, s, [&] { return (double)r.range(0, 9); });
        int k = (int)r.range(0, 5);
        h.describe(cat("device ", dev, " way ", k));
        h.nontrivial(cat(h.desc, vec(s)));
        std::vector<double> v;
        if (k == 0) h.check(refused([&] { (void)bland::to(a.a, dev); }) && refused([&] { (void)a.a.to(dev); }), "moved-to-nowhere", [&] { return dev; });
        else if (k == 1) h.check(refused([&] { (void)bland::zeros(s, a.a.dtype(), ndarray::dev(dev)); }) && refused([&] { ndarray x(s, a.a.dtype(), ndarray::dev(dev)); (void)x; }), "created-nowhere", [&] { return dev; });
        else {
            bx::Meta m = bx::rand_meta(r);
            int64_t T = r.range(2, 4), N = r.range(4, 9);
            std::vector<std::vector<float>> d(2, std::vector<float>((size_t)(T * N)));
            for (auto &c : d) for (auto &x : c) x = (float)r.range(0, 99);
            auto sc = bx::mem_scan(m, T, N, d, &r);
            if (k == 2) h.check(refused([&] { sc.set_device(dev, false); }), "scan-on-nowhere", [&] { return dev; });
            else if (k == 3) { bliss::observation_target t({sc}); h.check(refused([&] { t.set_device(dev, false); }), "target-on-nowhere", [&] { return dev; }); }
            else if (k == 4) { bliss::cadence c({bliss::observation_target({sc})}); h.check(refused([&] { c.set_device(dev, false); }), "cadence-on-nowhere", [&] { return dev; }); }
            else { auto c = sc.read_coarse_channel(1); h.check(refused([&] { c->set_device(dev); }), "channel-on-nowhere", [&] { return dev; }); }
            // what was there still is, where it was, and can be used
            bool again = r.chance(0.5);
            if (again) sc.set_device("cpu", false);
            else h.check(sc.device().device_type == kDLCPU, "device-after-refusal", [&] { return cat(dev, ": now on ", (int)sc.device().device_type); });
            if (r.chance(0.5)) sc.push_device();
            for (int i = 0; i < 2; ++i) {
                auto c = sc.read_coarse_channel(i);
                h.check(c->device().device_type == kDLCPU, "channel-device-after-refusal", [&] { return cat((int)c->device().device_type); });
                if (r.chance(0.3)) c->push_device();
                h.check(bx::bvals(c->mask()) == std::vector<uint8_t>((size_t)(T * N), 0), "mask-after-device", [&] { return cat(i); });
            }
            for (int i = 0; i < 2; ++i) h.check(bx::biteq(bx::fvals(sc.read_coarse_channel(i)->data()), d[i]), "data-after-device", [&] { return cat(i); });
        }
        h.check(values(a.a.to("cpu"), v) && v == a.v, "data-after-device", [&] { return vec(v); });
    });
}

// a coarse channel whose samples or flags are of another type
void stages(H &h) {
    h.cases("stage", 5000, 300000, [&] {
        Rng &r = h.rng;
        Ty td = r.chance(0.3) ? REAL[0] : r.pick(REAL), tm = td.t.code == kDLFloat && td.t.bits == 32 ? r.pick(REAL) : r.chance(0.6) ? REAL[6] : r.pick(REAL);
        int64_t T = r.range(2, 6), N = r.range(6, 20);
        int k = (int)r.range(0, 8);
        static const char *names[] = {"filter-rolloff", "kurtosis", "magnitude", "sigmaclip", "noise", "normalize", "equalize", "integrate", "find-hits"};
        h.describe(cat(names[k], " on ", td.name, " flags ", tm.name, " ", T, "x", N));
        h.nontrivial(h.desc);
        int64_t hot = r.range(1, N - 2);
        int64_t i = 0;
        A d = make_t(r, td.t, {T, N}, [&] { return (double)(i++ % N == hot ? 120 : r.range(0, 9)); });
        A m = make_t(r, tm.t, {T, N}, [&] { return r.chance(0.2) ? (double)r.pick({1, 2, 4}) : 0; });
        std::vector<float> fd(d.v.begin(), d.v.end());
        std::vector<uint8_t> fm(m.v.begin(), m.v.end());
        std::vector<double> resp((size_t)N);
        for (auto &x : resp) x = (double)r.range(1, 9);
        A hr = make_t(r, td.t, {N}, [&, q = 0]() mutable { return resp[(size_t)q++]; });
        float lim = (float)r.range(2, 30);
        auto run = [&](const ndarray &x, const ndarray &f, const ndarray &resp) {
            bliss::coarse_channel cc(x, f, 1000.0, -1e-6, 0, 32, N, T, 1, std::string("s"), 0.0, 0.0, 0, 1.0, 59000.0, 1, 0.0, 0.0, 0);
            std::vector<std::vector<double>> o;
            auto add = [&](const ndarray &a) { std::vector<double> v; values(a, v); for (auto q : a.shape()) v.push_back((double)q); o.push_back(v); };
            if (k == 4) {
                auto n = bliss::estimate_noise_power(cc, {.estimator_method = r.chance(0.5) ? bliss::noise_power_estimator::STDDEV : bliss::noise_power_estimator::MEAN_ABSOLUTE_DEVIATION, .masked_estimate = true});
                o.push_back({n.noise_floor(), n.noise_power()});
                return o;
            }
            if (k >= 7) {
                bliss::noise_stats ns;
                ns.set_noise_floor(bx::f32({1}, {5}));
                ns.set_noise_power(bx::f32({1}, {4}));
                cc.set_noise_estimate(ns);
            }
            auto c = k == 0 ? bliss::flag_filter_rolloff(cc, 0.2f) : k == 1 ? bliss::flag_spectral_kurtosis(cc, 0.2f, 1.5f) : k == 2 ? bliss::flag_magnitude(cc, lim) : k == 3 ? bliss::flag_sigmaclip(cc, 2, 3, 3) : k == 5 ? bliss::normalize(cc)
                     : k == 6 ? bliss::equalize_passband_filter(cc, resp) : bliss::integrate_drifts(cc, {.desmear = true, .low_rate = -3, .high_rate = 4, .rate_step_size = 1});
            if (k <= 6) { add(ndarray(c.data())); add(ndarray(c.mask())); return o; }
            auto p = c.integrated_drift_plane();
            add(p.integrated_drift_plane());
            add(p.integrated_rfi().low_spectral_kurtosis); add(p.integrated_rfi().high_spectral_kurtosis); add(p.integrated_rfi().filter_rolloff);
            if (k == 7) return o;
            auto hits = bliss::hit_search(c, {.method = bliss::hit_search_methods::LOCAL_MAXIMA, .snr_threshold = 4});
            for (auto &q : hits) o.push_back({(double)q.start_freq_index, (double)q.rate_index, q.power, q.snr});
            return o;
        };
        auto state = r;
        std::vector<std::vector<double>> want, got;
        bool no_usual = refused([&] { want = run(bx::f32({T, N}, fd), bx::u8({T, N}, fm), bx::f32({N}, std::vector<float>(resp.begin(), resp.end()))); });
        r = state;
        bool no = refused([&] { got = run(d.a, m.a, hr.a); });
        h.count(no ? "stage_refused" : "stage_computed");
        if (no) return;
        bool ok = !no_usual && got.size() == want.size();
        for (size_t q = 0; ok && q < got.size(); ++q) {
            ok = got[q].size() == want[q].size();
            for (size_t e = 0; ok && e < got[q].size(); ++e) ok = bx::close(got[q][e], want[q][e], 1e-4, 1e-4) || (std::isnan(got[q][e]) && std::isnan(want[q][e]));
        }
        h.check(ok, cat("type-stage-", names[k]), [&] { std::string t; for (size_t q = 0; q < std::max(got.size(), want.size()); ++q) t += cat(" got ", q < got.size() ? vec(got[q], 24) : "-", " want ", q < want.size() ? vec(want[q], 24) : "-"); return h.desc + t; });
    });
}

// An array nothing was put into: whatever is asked of it is refused, it can be copied and given something
void nothing(H &h) {
    h.cases("nothing", 120, 1200, [&] {
        Rng &r = h.rng;
        Shape s = {r.range(1, 4), r.range(2, 9)};
        A a = make_t(r, ndarray::datatype::float32, s, [&] { return (double)r.range(0, 9); });
        ndarray e, f(e);
        if (r.chance(0.3)) f = ndarray();
        int k = (int)r.range(0, 23);
        h.describe(cat("nothing way ", k, " ", vec(s)));
        h.nontrivial(h.desc);
        auto refuse = [&](auto fn) { h.check(refused(fn), "nothing-accepted", [&] { return h.desc; }); };
        switch (k) {
        case 0: refuse([&] { (void)bland::copy(f); }); break;
        case 1: refuse([&] { (void)bland::copy(a.a, f); }); break;
        case 2: refuse([&] { (void)bland::copy(f, a.a); }); break;
        case 3: refuse([&] { (void)bland::fill(f, 1.0f); }); break;
        case 4: refuse([&] { (void)bland::sum(f); }); break;
        case 5: refuse([&] { (void)bland::mean(f); }); break;
        case 6: refuse([&] { (void)bland::max(f); }); break;
        case 7: refuse([&] { (void)bland::median(f); }); break;
        case 8: refuse([&] { (void)bland::stddev(f); }); break;
        case 9: refuse([&] { (void)bland::var(f); }); break;
        case 10: refuse([&] { (void)bland::count_true(f); }); break;
        case 11: refuse([&] { (void)bland::masked_mean(f, f); }); break;
        case 12: refuse([&] { (void)bland::standardized_moment(f, 4); }); break;
        case 13: refuse([&] { (void)(f + 1.0f); }); break;
        case 14: refuse([&] { (void)(f * f); }); break;
        case 15: refuse([&] { (void)(a.a - f); }); break;
        case 16: refuse([&] { (void)(f / a.a); }); break;
        case 17: refuse([&] { (void)(f > 1.0f); }); break;
        case 18: refuse([&] { (void)(a.a == f); }); break;
        case 19: refuse([&] { (void)bland::sqrt(f); }); break;
        case 20: refuse([&] { (void)bland::slice(f, 0, 0, 1); }); break;
        case 21: refuse([&] { (void)f.scalarize<float>(); }); break;
        case 22: refuse([&] { (void)f.size(0); }); break;
        case 23: refuse([&] { (void)f.squeeze(0); }); break;
        }
        f = a.a;
        h.check(refused([&] { (void)bland::copy(e); }), "nothing-became-something", [&] { return h.desc; });
        std::vector<double> v;
        h.check(values(f, v) && v == a.v && values(a.a, v) && v == a.v, "values-after-nothing", [&] { return vec(v); });
    });
}

void B13(H &h) {
    if (!freopen("/dev/null", "w", stdout)) abort();
    h.rule = "an operation on arrays of each numeric type (and mixtures), a type or device name, or a device that is not there, that was either refused or gave the exact values. Distinct: (operation, types, shape), names.";
    ops(h);
    names(h);
    devices(h);
    stages(h);
    nothing(h);
}
} // namespace

int main(int c, char **v) { return vh::run_main(c, v, {{"B13", B13}}); }
