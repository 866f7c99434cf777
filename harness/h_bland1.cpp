// B01 views, B02 arithmetic, B03 comparisons, B06 copies/fills/unary, B07 creators
#include "bref.hpp"
using namespace ref;
using namespace vh;
using bland::ndarray;
using bland::ndarray_slice;

// ---------------------------------------------------------------- B01
template <class T> static double sc(const ndarray &a, const Shape &i) { return (double)a.scalarize<T>(i); }
static double scalar_at(const ndarray &a, DT t, const Shape &i) {
    switch (t) {
    case F32: return sc<float>(a, i);
    case I32: return sc<int32_t>(a, i);
    case U8: return sc<uint8_t>(a, i);
    default: return sc<uint32_t>(a, i);
    }
}
static void fill_any(ndarray v, DT t, double x) {
    switch (t) {
    case F32: bland::fill<float>(v, (float)x); break;
    case I32: bland::fill<int32_t>(v, (int32_t)x); break;
    case U8: bland::fill<uint8_t>(v, (uint8_t)x); break;
    default: bland::fill<uint32_t>(v, (uint32_t)x); break;
    }
}
struct V { ndarray a; Shape shape; std::vector<int64_t> idx; };

static bool same_view(H &h, const V &v, const ndarray &base, DT t, const std::vector<double> &model, const char *after) {
    auto sh = v.a.shape();
    if (!h.check(sh == v.shape, cat("view-shape-after-", after), [&] { return cat("shape ", vec(sh), " expected ", vec(v.shape)); })) return false;
    if (!h.check(v.a.ndim() == (int64_t)v.shape.size() && v.a.numel() == numel(v.shape), cat("view-size-after-", after), [&] { return cat("ndim ", v.a.ndim(), " numel ", v.a.numel()); })) return false;
    auto p = positions(v.a);
    size_t es = v.a.dtype().bits / 8;
    char *b0 = base.data_ptr<char>(), *d0 = v.a.data_ptr<char>();
    Shape i(v.shape.size(), 0);
    for (size_t k = 0; k < p.size(); ++k) {
        int64_t el = (d0 + p[k] * (int64_t)es - b0) / (int64_t)es;
        if (!h.check(el == v.idx[k], cat("view-element-after-", after), [&] { return cat("index ", vec(i), " addresses element ", el, " expected ", v.idx[k], " shape ", vec(v.shape), " strides ", vec(v.a.strides()), " offsets ", vec(v.a.offsets())); })) return false;
        double got = scalar_at(v.a, t, i);
        if (p.size() == 1) {
            double one = t == F32 ? (double)v.a.scalarize<float>() : t == I32 ? (double)v.a.scalarize<int32_t>() : t == U8 ? (double)v.a.scalarize<uint8_t>() : (double)v.a.scalarize<uint32_t>();
            if (!h.check(one == model[v.idx[k]], cat("view-scalar-after-", after), [&] { return cat("scalarize() gives ", one, " expected ", model[v.idx[k]]); })) return false;
        }
        if (!h.check(got == model[v.idx[k]], cat("view-value-after-", after), [&] { return cat("index ", vec(i), " reads ", got, " expected ", model[v.idx[k]]); })) return false;
        inc(i, v.shape);
    }
    return true;
}
static ndarray_slice member_slice(const ndarray &a, const std::vector<bland::slice_spec> &s) {
    ndarray t = a;
    switch (s.size()) {
    case 1: return t.slice(s[0]);
    case 2: return t.slice(s[0], s[1]);
    case 3: return t.slice(s[0], s[1], s[2]);
    default: return t.slice(s[0], s[1], s[2], s[3]);
    }
}
static void B01(H &h) {
    h.rule = "random base array (rank 1-4, dtype f32/i32/u8/u32) and a random program of 1-8 view operations (slice, multi-spec slice, reshape, "
             "squeeze, unsqueeze, fill, slice assignment, impossible request); after every step each live view's address map and values are "
             "compared with an index-arithmetic model. Distinct: different (rank, dtype, operation sequence, operands).";
    h.cases("program", 2500, 60000, [&] {
        Rng &r = h.rng;
        DT t = (DT)r.range(0, 3);
        Shape bs = rshape(r, 4, 160);
        ndarray base(bs, dl(t));
        int64_t n = numel(bs);
        std::vector<double> model(n);
        for (int64_t i = 0; i < n; ++i) { model[i] = i % 251; wr(base.data_ptr<void>(), t, i, model[i]); }
        std::vector<V> vs;
        std::vector<int64_t> id(n);
        for (int64_t i = 0; i < n; ++i) id[i] = i;
        vs.push_back({base, bs, id});
        std::string prog = cat(dtname(t), vec(bs));
        h.describe(prog);
        int steps = (int)r.range(1, 8);
        for (int s = 0; s < steps; ++s) {
            size_t vi = r.next() % vs.size();
            if (r.chance(0.5)) vi = vs.size() - 1;
            V src = vs[vi];
            int op = (int)r.range(0, 11);
            bool empty = numel(src.shape) == 0;
            auto slice_model = [&](V &v, int64_t d, int64_t st, int64_t en, int64_t step) {
                int64_t sz = v.shape[d];
                int64_t a = st < 0 ? sz + st : st, b = en < 0 ? sz + en : std::min(en, sz);
                Shape ns = v.shape;
                ns[d] = (b - a + step - 1) / step;
                std::vector<int64_t> ni;
                Shape i(ns.size(), 0);
                int64_t k = numel(ns);
                for (int64_t q = 0; q < k; ++q) {
                    int64_t l = 0;
                    for (size_t x = 0; x < ns.size(); ++x) l = l * v.shape[x] + ((int64_t)x == d ? a + i[x] * step : i[x]);
                    ni.push_back(v.idx[l]);
                    inc(i, ns);
                }
                v.shape = ns;
                v.idx = ni;
            };
            auto rand_slice = [&](const Shape &sh, int64_t &d, int64_t &st, int64_t &en, int64_t &step) {
                d = r.range(0, (int64_t)sh.size() - 1);
                int64_t sz = sh[d];
                int64_t a = r.range(0, sz), b = r.range(a, sz);
                if (r.chance(0.7) && a < sz && b == a) b = r.range(a + 1, sz);
                step = r.pick({1, 1, 1, 2, 3, 4});
                st = a;
                en = b;
                if (a > 0 && a < sz && r.chance(0.3)) st = a - sz;
                if (b < sz && b > 0 && r.chance(0.3)) en = b - sz;
                else if (b == sz && r.chance(0.3)) en = sz + r.range(0, 5);
                else if (b == sz && r.chance(0.2)) en = std::numeric_limits<int64_t>::max();
            };
            std::string opname;
            if (op <= 3) {
                int64_t d, st, en, step;
                rand_slice(src.shape, d, st, en, step);
                prog += cat("; v", vi, ".slice(", d, ",", st, ",", en, ",", step, ")");
                h.describe(prog);
                V nv{bland::slice(src.a, d, st, en, step), src.shape, src.idx};
                slice_model(nv, d, st, en, step);
                vs.push_back(nv);
                opname = "slice";
            } else if (op == 4) {
                std::vector<bland::slice_spec> specs;
                V nv = src;
                int k = (int)r.range(1, 3);
                prog += cat("; v", vi, ".slice");
                for (int q = 0; q < k; ++q) {
                    int64_t d, st, en, step;
                    rand_slice(nv.shape, d, st, en, step);
                    specs.push_back(bland::slice_spec(d, st, en, step));
                    slice_model(nv, d, st, en, step);
                    prog += cat("{", d, ",", st, ",", en, ",", step, "}");
                }
                h.describe(prog);
                ndarray res = member_slice(src.a, specs);
                vs.push_back({res, nv.shape, nv.idx});
                opname = "multislice";
            } else if (op <= 6) { // reshape
                int64_t k = numel(src.shape);
                if (empty) continue;
                Shape ns;
                int64_t rem = k;
                int nd = (int)r.range(1, 4);
                for (int q = 0; q < nd - 1; ++q) {
                    std::vector<int64_t> dv;
                    for (int64_t x = 1; x <= rem; ++x) if (rem % x == 0) dv.push_back(x);
                    int64_t x = r.pick(dv);
                    ns.push_back(x);
                    rem /= x;
                }
                ns.push_back(rem);
                prog += cat("; v", vi, ".reshape", vec(ns));
                h.describe(prog);
                ndarray tmp = src.a;
                try {
                    ndarray res = tmp.reshape(ns);
                    vs.push_back({res, ns, src.idx});
                    h.count("reshape_done");
                } catch (const std::exception &) {
                    // a reshape which would need a copy may be refused; a dense 1-D array can always be viewed
                    h.count("reshape_refused");
                    bool dense1 = src.shape.size() == 1 && src.a.strides()[0] == 1 && ns.size() != 1;
                    h.check(!dense1, "reshape-refused-dense", [&] { return cat("refused ", vec(src.shape), " -> ", vec(ns)); });
                }
                opname = "reshape";
            } else if (op == 7) {
                std::vector<int64_t> ones;
                for (size_t q = 0; q < src.shape.size(); ++q) if (src.shape[q] == 1) ones.push_back(q);
                if (ones.empty() || src.shape.size() < 2) continue;
                int64_t ax = r.pick(ones);
                Shape ns = src.shape;
                ns.erase(ns.begin() + ax);
                int64_t arg = r.chance(0.3) ? ax - (int64_t)src.shape.size() : ax;
                prog += cat("; v", vi, ".squeeze(", arg, ")");
                h.describe(prog);
                ndarray tmp = src.a;
                vs.push_back({tmp.squeeze(arg), ns, src.idx});
                opname = "squeeze";
            } else if (op == 8) {
                if (src.shape.size() >= 5) continue;
                int64_t ax = r.range(0, (int64_t)src.shape.size());
                Shape ns = src.shape;
                ns.insert(ns.begin() + ax, 1);
                prog += cat("; v", vi, ".unsqueeze(", ax, ")");
                h.describe(prog);
                ndarray tmp = src.a;
                vs.push_back({tmp.unsqueeze(ax), ns, src.idx});
                opname = "unsqueeze";
            } else if (op == 9) {
                if (empty) continue;
                double x = r.range(0, 250);
                prog += cat("; fill(v", vi, ",", x, ")");
                h.describe(prog);
                fill_any(src.a, t, x);
                for (auto l : src.idx) model[l] = x;
                opname = "fill";
            } else if (op == 10) { // slice assignment from an independent array
                if (empty) continue;
                Shape vsz = src.shape;
                for (auto &x : vsz) if (r.chance(0.15)) x = 1;
                Rng *rp = &r;
                Made m = make(r, t, vsz, [rp] { return (double)rp->range(0, 250); });
                prog += cat("; v", vi, " = ", m.desc);
                h.describe(prog);
                ndarray_slice target(src.a);
                if (r.chance(0.5)) target = m.view; // ndarray overload
                else { ndarray_slice rhs(m.view); target = rhs; }
                Arr x = mat(m.view);
                Shape i(src.shape.size(), 0);
                for (auto l : src.idx) { model[l] = bat(x, i); inc(i, src.shape); }
                h.check(unchanged(m), "assign-changed-source", [&] { return std::string("right-hand side modified"); });
                opname = "assign";
            } else { // impossible requests
                int k = (int)r.range(0, 6);
                std::string what;
                bool thrown = true;
                ndarray tmp = src.a;
                Shape before = tmp.shape();
                int64_t nd = (int64_t)src.shape.size();
                prog += cat("; impossible", k, " on v", vi);
                h.describe(prog);
                if (k == 0) { Shape ns = src.shape; ns[0] += 1; ns.push_back(2); if (numel(ns) == numel(src.shape)) continue; thrown = throws([&] { tmp.reshape(ns); }); what = "reshape to another count"; }
                else if (k == 1) { thrown = throws([&] { tmp.squeeze(nd); }); what = "squeeze axis out of range"; }
                else if (k == 2) {
                    int64_t ax = -1;
                    for (size_t q = 0; q < src.shape.size(); ++q) if (src.shape[q] > 1) ax = q;
                    if (ax < 0) continue;
                    thrown = throws([&] { tmp.squeeze(ax); }); what = "squeeze long axis";
                } else if (k == 3) { thrown = throws([&] { (void)tmp.scalarize<float>(Shape(nd + 1, 0)); }); what = "scalarize with wrong rank"; }
                else if (k == 4) { thrown = throws([&] { bland::slice(src.a, nd + r.range(0, 2), 0, 1); }); what = "slice axis out of range"; }
                else if (k == 5) { thrown = throws([&] { bland::slice(src.a, 0, src.shape[0] + r.range(1, 4), src.shape[0] + 9); }); what = "slice starts beyond the end"; }
                else { thrown = throws([&] { (void)tmp.size(nd + r.range(0, 2)); }); what = "size of missing axis"; }
                h.check(thrown, cat("not-refused: ", what), [&] { return cat(what, " on shape ", vec(before), " was accepted"); });
                opname = "impossible";
            }
            h.count("op_" + opname);
            size_t from = vs.size() > 4 ? vs.size() - 4 : 0;
            for (size_t q = from; q < vs.size(); ++q) if (!same_view(h, vs[q], base, t, model, q + 1 == vs.size() ? opname.c_str() : "other-op")) return;
            auto now = snapshot(base);
            if (!h.check(now == model, cat("base-changed-by-", opname), [&] { return cat("base is ", vec(now), " expected ", vec(model)); })) return;
        }
        h.nontrivial(prog);
    });
    again(h, "program", 150, 4000, 0, 0);
}

// ---------------------------------------------------------------- typed application of an operator
template <class F> static double with2(DT a, DT b, double x, double y, F f) {
    auto inner = [&](auto xa) {
        switch (b) {
        case F32: return f(xa, (float)y);
        case I32: return f(xa, (int32_t)y);
        case U8: return f(xa, (uint8_t)y);
        default: return f(xa, (uint32_t)y);
        }
    };
    switch (a) {
    case F32: return inner((float)x);
    case I32: return inner((int32_t)x);
    case U8: return inner((uint8_t)x);
    default: return inner((uint32_t)x);
    }
}
static double cast_to(DT o, long double v) { // v already representable or modular integer
    switch (o) {
    case F32: return (float)v;
    case I32: return (int32_t)(int64_t)v;
    case U8: return (uint8_t)(int64_t)v;
    default: return (uint32_t)(int64_t)v;
    }
}
static double arith(char op, DT out, DT a, DT b, double x, double y) {
    return with2(a, b, x, y, [&](auto p, auto q) -> double {
        auto go = [&](auto v) -> double {
            if (std::is_floating_point<decltype(v)>::value) return cast_to(out, (long double)v);
            return cast_to(out, (long double)(int64_t)v);
        };
        switch (op) {
        case '+': return go(p + q);
        case '-': return go(p - q);
        case '*': return go(p * q);
        default: return go(p / q);
        }
    });
}
template <class T> static ndarray arr_scalar(char op, int form, const ndarray &a, T s) {
    switch (op) {
    case '+': return form == 0 ? bland::add(a, s) : form == 1 ? a + s : a.add(s);
    case '-': return form == 0 ? bland::subtract(a, s) : form == 1 ? a - s : a.subtract(s);
    case '*': return form == 0 ? bland::multiply(a, s) : form == 1 ? a * s : a.multiply(s);
    default: return form == 0 ? bland::divide(a, s) : a / s;
    }
}
template <class T> static ndarray scalar_arr(char op, T s, const ndarray &a) {
    switch (op) {
    case '+': return s + a;
    case '-': return s - a;
    case '*': return s * a;
    default: return s / a;
    }
}
static ndarray arr_arr(char op, int form, const ndarray &a, const ndarray &b) { return arr_scalar<ndarray>(op, form, a, b); }

// values chosen so that no operand combination is undefined in C++ (integer zero divisors, signed overflow, float->int overflow)
static std::function<double()> arith_gen(Rng &r, DT t, bool floatmix_intout, bool divisor) {
    Rng *p = &r;
    if (floatmix_intout) {
        if (t == F32) return [p] { return p->range(1, 40) * 0.25; };
        return [p] { return (double)p->range(10, 20); };
    }
    switch (t) {
    case F32: return [p, divisor] { double v = (double)(float)(p->normal() * std::pow(10, p->range(-2, 4))); return divisor && v == 0 ? 1.0 : v; };
    case I32: return [p, divisor] { int64_t v = p->range(-1000, 1000); return (double)(divisor && v == 0 ? 3 : v); };
    case U8: return [p, divisor] { return (double)p->range(divisor ? 1 : 0, 255); };
    default: return [p, divisor] { return (double)p->range(divisor ? 1 : 0, 100000); };
    }
}
// float -> int with negative result is undefined for unsigned outputs: the left operand is made the larger one
static void B02(H &h) {
    h.rule = "random op (+-*/), call form, dtype pair, broadcastable shape pair (incl. different ranks, size-1 axes), layouts "
             "(dense/offset/strided), scalar right, scalar left; every element compared with the C++ scalar operation. Distinct: (op, form, "
             "dtypes, shapes, layouts).";
    const char ops[] = {'+', '-', '*', '/'};
    auto compare = [&](H &h, const ndarray &res, DT lt, char op, const Shape &os, const std::function<double(const Shape &)> &want, const std::string &tag) {
        if (!h.check(res.shape() == os, tag + "-shape", [&] { return cat("result shape ", vec(res.shape()), " expected ", vec(os)); })) return;
        keep(h, res, tag);
        DT rt = dtof(res);
        if (!h.check(rt == lt, tag + "-dtype", [&] { return cat("result dtype ", dtname(rt), " expected ", dtname(lt)); })) return;
        Arr got = mat(res);
        Shape i(os.size(), 0);
        for (size_t k = 0; k < got.v.size(); ++k) {
            double w = want(i);
            if (!h.check(close(got.v[k], w, rt == F32 ? 1e-6 : 0, 0), tag + "-value", [&] { return cat("op ", op, " at ", vec(i), " got ", got.v[k], " expected ", w); })) return;
            inc(i, os);
        }
    };
    h.cases("array-array", 2200, 50000, [&] {
        Rng &r = h.rng;
        char op = ops[r.range(0, 3)];
        DT a = (DT)r.range(0, 3), b = (DT)r.range(0, 3);
        bool mix = (a == F32) != (b == F32) && a != F32;
        if (mix && op == '-') op = '+';
        Shape os = rshape(r, 4, 400), as = os, bs = os;
        for (size_t d = 0; d < os.size(); ++d) {
            if (r.chance(0.12)) as[d] = 1;
            else if (r.chance(0.12)) bs[d] = 1;
        }
        if (r.chance(0.25) && bs.size() > 1) bs.erase(bs.begin(), bs.begin() + r.range(1, (int64_t)bs.size() - 1));
        else if (r.chance(0.15) && as.size() > 1) as.erase(as.begin(), as.begin() + r.range(1, (int64_t)as.size() - 1));
        bcast(as, bs, os);
        Made ma = make(r, a, as, arith_gen(r, a, mix, false)), mb = make(r, b, bs, arith_gen(r, b, mix, op == '/'));
        int form = (int)r.range(0, 2);
        h.describe(cat(ma.desc, " ", op, " ", mb.desc, " form ", form));
        Arr xa = mat(ma.view), xb = mat(mb.view);
        ndarray res = arr_arr(op, form, ma.view, mb.view);
        compare(h, res, a, op, os, [&](const Shape &i) { return arith(op, a, a, b, bat(xa, i), bat(xb, i)); }, "arrarr");
        h.check(unchanged(ma) && unchanged(mb), "operand-modified", [&] { return std::string("an operand changed"); });
        h.nontrivial(h.desc);
        h.count(as == bs ? "same_shape" : as.size() == bs.size() ? "broadcast_dims" : "broadcast_rank");
    });
    h.cases("array-scalar", 1500, 30000, [&] {
        Rng &r = h.rng;
        char op = ops[r.range(0, 3)];
        DT a = (DT)r.range(0, 3), b = (DT)r.range(0, 3);
        bool left = r.chance(0.4);
        // result dtype is the array's on either side
        bool mix = b == F32 && a != F32;
        if (mix && op == '-') op = '*';
        bool adiv = op == '/' && left;
        Made ma = make(r, a, rshape(r, 4, 400), arith_gen(r, a, mix, adiv));
        double s = arith_gen(r, b, mix, op == '/' && !left)();
        int form = (int)r.range(0, 2);
        h.describe(left ? cat(dtname(b), " ", s, " ", op, " ", ma.desc) : cat(ma.desc, " ", op, " ", dtname(b), " ", s, " form ", form));
        Arr xa = mat(ma.view);
        ndarray res = [&] {
            switch (b) {
            case F32: return left ? scalar_arr<float>(op, (float)s, ma.view) : arr_scalar<float>(op, form, ma.view, (float)s);
            case I32: return left ? scalar_arr<int32_t>(op, (int32_t)s, ma.view) : arr_scalar<int32_t>(op, form, ma.view, (int32_t)s);
            case U8: return left ? scalar_arr<uint8_t>(op, (uint8_t)s, ma.view) : arr_scalar<uint8_t>(op, form, ma.view, (uint8_t)s);
            default: return left ? scalar_arr<uint32_t>(op, (uint32_t)s, ma.view) : arr_scalar<uint32_t>(op, form, ma.view, (uint32_t)s);
            }
        }();
        if (left && b == F32 && a != F32) { h.count("scalar_left_float_int_array"); }
        compare(h, res, a, op, ma.view.shape(), [&](const Shape &i) { return left ? arith(op, a, b, a, s, xa.at(i)) : arith(op, a, a, b, xa.at(i), s); },
                left ? cat("scalar-left", op) : "arrscalar");
        h.check(unchanged(ma), "operand-modified", [&] { return std::string("the array changed"); });
        h.nontrivial(h.desc);
        h.count(left ? "scalar_left" : "scalar_right");
    });
    h.cases("incompatible", 300, 5000, [&] {
        Rng &r = h.rng;
        char op = ops[r.range(0, 3)];
        Shape as = rshape(r, 3, 100), bs = as;
        size_t d = r.range(0, (int64_t)as.size() - 1);
        as[d] = r.range(2, 6);
        bs[d] = as[d] + r.range(1, 4);
        if (r.chance(0.4)) bs.erase(bs.begin(), bs.begin() + r.range(0, (int64_t)d));
        if (r.chance(0.3)) std::swap(as, bs);
        Shape o;
        if (bcast(as, bs, o)) return;
        DT a = (DT)r.range(0, 3), b = (DT)r.range(0, 3);
        Made ma = make(r, a, as, arith_gen(r, a, false, false)), mb = make(r, b, bs, arith_gen(r, b, false, true));
        h.describe(cat(ma.desc, " ", op, " ", mb.desc));
        bool t = throws([&] { arr_arr(op, (int)r.range(0, 2), ma.view, mb.view); });
        h.check(t, "incompatible-accepted", [&] { return cat("shapes ", vec(as), " and ", vec(bs), " were accepted"); });
        h.nontrivial(h.desc);
    });
    again(h, "array-array", 200, 5000, 12, 200);
    again(h, "array-scalar", 100, 3000, 8, 120);
}

// ---------------------------------------------------------------- B03
template <class L, class R> static ndarray cmp(int op, int form, L a, R b) {
    switch (op) {
    case 0: return form ? bland::less_than(a, b) : a < b;
    case 1: return form ? bland::less_than_equal_to(a, b) : a <= b;
    case 2: return form ? bland::greater_than(a, b) : a > b;
    case 3: return form ? bland::greater_than_equal_to(a, b) : a >= b;
    case 4: return form ? bland::equal_to(a, b) : a == b;
    default:
        if constexpr (!std::is_floating_point<L>::value && !std::is_floating_point<R>::value) return form ? bland::logical_and(a, b) : a & b;
        else throw std::logic_error("harness: & on floats");
    }
}
static const char *cmpname[] = {"<", "<=", ">", ">=", "==", "&"};
static double cmpref(int op, DT a, DT b, double x, double y) {
    switch (op) {
    case 0: return x < y;
    case 1: return x <= y;
    case 2: return x > y;
    case 3: return x >= y;
    case 4: return x == y;
    default: return (double)((uint8_t)((int64_t)x & (int64_t)y));
    }
}
static std::function<double()> cmp_gen(Rng &r, DT t, bool big, bool nan_, bool mask) {
    Rng *p = &r;
    if (mask) return [p] { return p->chance(0.3) ? 0.0 : (double)p->range(0, 255); };
    // small values, so that ties are common; or values no other type than their own holds exactly
    if (big) {
        if (t == F32) return [p] { return p->pick({-3e9, -2147483648.0, -16777216.0, -1.0, 0.0, 255.0, 256.0, 16777216.0, 16777218.0, 2147483648.0, 4294967296.0, 3e9}); };
        if (t == I32) return [p] { return p->pick({-2147483648.0, -16777217.0, -16777216.0, -256.0, -1.0, 0.0, 255.0, 16777215.0, 16777216.0, 16777217.0, 2147483647.0}); };
        if (t == U8) return [p] { return p->pick({0.0, 1.0, 127.0, 128.0, 255.0}); };
        return [p] { return p->pick({0.0, 1.0, 255.0, 256.0, 16777216.0, 16777217.0, 2147483647.0, 2147483648.0, 4294967040.0, 4294967295.0}); };
    }
    if (t == F32) return [p, nan_] { if (nan_ && p->chance(0.03)) return (double)NAN; return (double)p->range(-6, 6) * (p->chance(0.5) ? 1.0 : 0.5); };
    if (t == I32) return [p] { return (double)p->range(-4, 5); };
    return [p] { return (double)p->range(0, 5); };
}
static void B03(H &h) {
    h.rule = "random comparison or bitwise-and, function or operator form, dtype pair, broadcastable shapes, layouts, scalar on either side, NaNs; "
             "plus element counts of masks in arbitrary layouts. Values are drawn from a small range so equality is common. Distinct: (op, form, "
             "dtypes, shapes, layouts).";
    auto compare = [&](const ndarray &res, int op, const Shape &os, const std::function<double(const Shape &)> &want, const std::string &tag) {
        if (!h.check(res.shape() == os, tag + "-shape", [&] { return cat("result shape ", vec(res.shape()), " expected ", vec(os)); })) return;
        DT rt = dtof(res);
        keep(h, res, tag);
        if (!h.check(rt == U8, tag + "-dtype", [&] { return cat("result dtype ", dtname(rt)); })) return;
        Arr got = mat(res);
        Shape i(os.size(), 0);
        int64_t ones = 0;
        for (size_t k = 0; k < got.v.size(); ++k) {
            double w = want(i);
            ones += w != 0;
            if (!h.check(got.v[k] == w, tag + "-value", [&] { return cat("op ", cmpname[op], " at ", vec(i), " got ", got.v[k], " expected ", w); })) return;
            inc(i, os);
        }
        int64_t c = bland::count_true(res);
        h.check(c == ones, "count-of-result", [&] { return cat("count_true ", c, " expected ", ones); });
        h.count("elements_true", ones);
        h.count("elements", got.v.size());
    };
    h.cases("array-array", 1600, 40000, [&] {
        Rng &r = h.rng;
        int op = (int)r.range(0, 5);
        DT a = (DT)r.range(op == 5 ? 1 : 0, 3), b = (DT)r.range(op == 5 ? 1 : 0, 3);
        bool big = r.chance(0.3);
        Shape os = rshape(r, 4, 400), as = os, bs = os;
        for (size_t d = 0; d < os.size(); ++d) {
            if (r.chance(0.12)) as[d] = 1;
            else if (r.chance(0.12)) bs[d] = 1;
        }
        if (r.chance(0.25) && bs.size() > 1) bs.erase(bs.begin(), bs.begin() + r.range(1, (int64_t)bs.size() - 1));
        else if (r.chance(0.15) && as.size() > 1) as.erase(as.begin(), as.begin() + r.range(1, (int64_t)as.size() - 1));
        bcast(as, bs, os);
        Made ma = make(r, a, as, cmp_gen(r, a, big, true, op == 5)), mb = make(r, b, bs, cmp_gen(r, b, big, true, op == 5));
        int form = (int)r.range(0, 1);
        h.describe(cat(ma.desc, " ", cmpname[op], " ", mb.desc, " form ", form));
        Arr xa = mat(ma.view), xb = mat(mb.view);
        ndarray res = cmp<ndarray, ndarray>(op, form, ma.view, mb.view);
        compare(res, op, os, [&](const Shape &i) { return cmpref(op, a, b, bat(xa, i), bat(xb, i)); }, cat("arrarr", cmpname[op]));
        h.check(unchanged(ma) && unchanged(mb), "operand-modified", [&] { return std::string("an operand changed"); });
        h.nontrivial(h.desc);
    });
    h.cases("array-scalar", 1600, 40000, [&] {
        Rng &r = h.rng;
        int op = (int)r.range(0, 5);
        DT a = (DT)r.range(op == 5 ? 1 : 0, 3), b = (DT)r.range(op == 5 ? 1 : 0, 3);
        bool big = r.chance(0.3);
        bool left = r.chance(0.5);
        Made ma = make(r, a, rshape(r, 4, 400), cmp_gen(r, a, big, true, op == 5));
        double s = cmp_gen(r, b, big, false, op == 5)();
        int form = (int)r.range(0, 1);
        h.describe(left ? cat(dtname(b), " ", s, " ", cmpname[op], " ", ma.desc) : cat(ma.desc, " ", cmpname[op], " ", dtname(b), " ", s));
        Arr xa = mat(ma.view);
        ndarray res = [&] {
            switch (b) {
            case F32: return left ? cmp<float, ndarray>(op, form, (float)s, ma.view) : cmp<ndarray, float>(op, form, ma.view, (float)s);
            case I32: return left ? cmp<int32_t, ndarray>(op, form, (int32_t)s, ma.view) : cmp<ndarray, int32_t>(op, form, ma.view, (int32_t)s);
            case U8: return left ? cmp<uint8_t, ndarray>(op, form, (uint8_t)s, ma.view) : cmp<ndarray, uint8_t>(op, form, ma.view, (uint8_t)s);
            default: return left ? cmp<uint32_t, ndarray>(op, form, (uint32_t)s, ma.view) : cmp<ndarray, uint32_t>(op, form, ma.view, (uint32_t)s);
            }
        }();
        compare(res, op, ma.view.shape(), [&](const Shape &i) { return left ? cmpref(op, b, a, s, xa.at(i)) : cmpref(op, a, b, xa.at(i), s); },
                cat(left ? "scalar-left" : "scalar-right", cmpname[op]));
        h.check(unchanged(ma), "operand-modified", [&] { return std::string("the array changed"); });
        h.nontrivial(h.desc);
    });
    h.cases("count", 500, 8000, [&] {
        Rng &r = h.rng;
        double dens = r.pick({0.0, 0.1, 0.5, 0.9, 1.0});
        Rng *p = &r;
        Made m = make(r, U8, rshape(r, 4, 900), [p, dens] { return p->chance(dens) ? (double)p->range(1, 255) : 0.0; });
        h.describe(cat("count_true ", m.desc, " density ", dens));
        Arr x = mat(m.view);
        int64_t want = 0;
        for (double v : x.v) want += v != 0;
        int64_t got = bland::count_true(m.view);
        h.check(got == want, "count", [&] { return cat("got ", got, " expected ", want); });
        h.check(unchanged(m), "operand-modified", [&] { return std::string("the mask changed"); });
        h.nontrivial(h.desc);
    });
    h.cases("incompatible", 200, 3000, [&] {
        Rng &r = h.rng;
        Shape as = rshape(r, 3, 100), bs = as;
        size_t d = r.range(0, (int64_t)as.size() - 1);
        as[d] = r.range(2, 6);
        bs[d] = as[d] + r.range(1, 4);
        if (r.chance(0.4)) bs.erase(bs.begin(), bs.begin() + r.range(0, (int64_t)d));
        Made ma = make(r, I32, as, cmp_gen(r, I32, false, false, false)), mb = make(r, U8, bs, cmp_gen(r, U8, false, false, false));
        int op = (int)r.range(0, 5);
        h.describe(cat(ma.desc, " ", cmpname[op], " ", mb.desc));
        bool t = throws([&] { cmp<ndarray, ndarray>(op, 0, ma.view, mb.view); });
        h.check(t, "incompatible-accepted", [&] { return cat("shapes ", vec(as), " and ", vec(bs), " were accepted"); });
        h.nontrivial(h.desc);
    });
    again(h, "array-array", 150, 4000, 12, 200);
    again(h, "array-scalar", 100, 3000, 8, 120);
    again(h, "count", 60, 1500, 12, 200);
}

// ---------------------------------------------------------------- B06
static void B06(H &h) {
    h.rule = "random copy / copy-into with dtype conversion and size-1 broadcast / fill / square / sqrt / abs on random layouts; contents, isolation "
             "(writes to either side afterwards) and the surroundings of a written view are compared. Distinct: (op, dtypes, shapes, layouts).";
    h.cases("ops", 3000, 60000, [&] {
        Rng &r = h.rng;
        int op = (int)r.range(0, 5);
        DT a = (DT)r.range(0, 3);
        static const char *nm[] = {"copy", "copy-into", "fill", "square", "sqrt", "abs"};
        Rng *p = &r;
        std::function<double()> g;
        DT o = a;
        if (op == 0) g = gen_for(r, a);
        else if (op == 1) { // conversions restricted to values every type holds
            o = (DT)r.range(0, 3);
            if (o == a) g = gen_for(r, a);
            else if (a == F32) g = [p] { return p->range(0, 1000) * 0.25; };
            else g = [p] { return (double)p->range(0, 250); };
        } else if (op == 3) g = a == U8 ? std::function<double()>([p] { return (double)p->range(0, 15); }) : a == I32 ? std::function<double()>([p] { return (double)p->range(-1000, 1000); }) : a == U32 ? std::function<double()>([p] { return (double)p->range(0, 60000); }) : gen_for(r, a);
        else if (op == 4) g = a == F32 ? std::function<double()>([p] { return std::fabs((double)(float)(p->normal() * 100)); }) : a == U8 ? std::function<double()>([p] { return (double)p->range(0, 250); }) : std::function<double()>([p] { return (double)p->range(0, 10000); });
        else g = gen_for(r, a);
        if (op == 5 && (a == U8 || a == U32)) g = [p] { return (double)p->range(0, 250); };
        Shape sh = rshape(r, 4, 400);
        Shape src = sh;
        if (op == 1) for (auto &x : src) if (r.chance(0.15)) x = 1;
        Made m = make(r, a, src, g);
        h.describe(cat(nm[op], " ", m.desc, op == 1 ? cat(" -> ", dtname(o), vec(sh)) : std::string()));
        Arr x = mat(m.view);
        auto want1 = [&](double v) -> double {
            switch (op) {
            case 3: return a == F32 ? (double)((float)v * (float)v) : v * v;
            case 4: return a == F32 ? (double)std::sqrt((float)v) : std::floor(std::sqrt(v));
            case 5: return std::fabs(v);
            default: return v;
            }
        };
        auto verify = [&](const ndarray &res, DT rt, const Shape &rs) {
            if (!h.check(res.shape() == rs, cat(nm[op], "-shape"), [&] { return cat("got ", vec(res.shape()), " expected ", vec(rs)); })) return false;
            if (!h.check(dtof(res) == rt, cat(nm[op], "-dtype"), [&] { return cat("got ", dtname(dtof(res))); })) return false;
            Arr got = mat(res);
            Shape i(rs.size(), 0);
            for (size_t k = 0; k < got.v.size(); ++k) {
                double w = want1(bat(x, i));
                if (rt != F32 && a == F32) w = std::trunc(w);
                double rel = (op == 3 || op == 4) && a == F32 ? 2e-7 : 0;
                if (!h.check(close(got.v[k], w, rel, 0), cat(nm[op], "-value"), [&] { return cat("at ", vec(i), " got ", got.v[k], " expected ", w); })) return false;
                inc(i, rs);
            }
            return true;
        };
        h.nontrivial(h.desc);
        h.count(cat("op_", nm[op]));
        if (op == 1) {
            Made out = make(r, o, sh, gen_for(r, o));
            auto pos = positions(out.view);
            auto bpos_view = out.view;
            ndarray ret = bland::copy(m.view, out.view);
            if (!verify(out.view, o, sh)) return;
            // only the view's elements of the destination changed
            std::set<int64_t> touched;
            size_t es = out.base.dtype().bits / 8;
            for (auto q : pos) touched.insert((out.view.data_ptr<char>() + q * (int64_t)es - out.base.data_ptr<char>()) / (int64_t)es);
            auto now = snapshot(out.base);
            for (size_t k = 0; k < now.size(); ++k)
                if (!touched.count(k) && !h.check(now[k] == out.base_copy[k], "copy-into-outside-view", [&] { return cat("element ", k, " outside the view changed"); })) return;
            h.check(unchanged(m), "copy-into-source", [&] { return std::string("source changed"); });
        } else if (op == 2) {
            DT vt = (DT)r.range(0, 3);
            double v = a == F32 ? r.range(0, 100) : r.range(0, 200);
            if (vt == F32 && a == F32) v += 0.5;
            if (vt == F32 && r.chance(0.3)) v += 0.25;
            ndarray target = m.view;
            switch (vt) {
            case F32: bland::fill<float>(target, (float)v); break;
            case I32: bland::fill<int32_t>(target, (int32_t)v); break;
            case U8: bland::fill<uint8_t>(target, (uint8_t)v); break;
            default: bland::fill<uint32_t>(target, (uint32_t)v); break;
            }
            double w = (a == F32 && vt == F32) ? v : std::trunc(v);
            std::set<int64_t> touched;
            size_t es = m.base.dtype().bits / 8;
            for (auto q : positions(m.view)) touched.insert((m.view.data_ptr<char>() + q * (int64_t)es - m.base.data_ptr<char>()) / (int64_t)es);
            auto now = snapshot(m.base);
            for (size_t k = 0; k < now.size(); ++k) {
                double e = touched.count(k) ? w : m.base_copy[k];
                if (!h.check(now[k] == e, touched.count(k) ? "fill-value" : "fill-outside-view", [&] { return cat("element ", k, " is ", now[k], " expected ", e); })) return;
            }
        } else {
            ndarray res = op == 0 ? bland::copy(m.view) : op == 3 ? bland::square(m.view) : op == 4 ? bland::sqrt(m.view) : bland::abs(m.view);
            if (!verify(res, a, sh)) return;
            h.check(unchanged(m), "source-modified", [&] { return std::string("source changed"); });
            // isolation in both directions
            std::vector<double> keep = mat(res).v;
            for (size_t k = 0; k < m.base_copy.size(); ++k) wr(m.base.data_ptr<void>(), a, k, 7);
            h.check(mat(res).v == keep, "result-shares-memory", [&] { return std::string("writing the source changed the result"); });
            fill_any(res, a, 9);
            auto now = snapshot(m.base);
            bool ok = true;
            for (double v : now) ok = ok && v == 7;
            h.check(ok, "result-shares-memory", [&] { return std::string("writing the result changed the source"); });
            ref::keep(h, res, nm[op]);
            if ((op >= 3) && r.chance(0.5)) { // the form writing into a given array
                Made m2 = make(r, a, sh, g);
                Arr x2 = mat(m2.view);
                Made out = make(r, a, sh, gen_for(r, a));
                std::set<int64_t> touched;
                size_t es = out.base.dtype().bits / 8;
                for (auto q : positions(out.view)) touched.insert((out.view.data_ptr<char>() + q * (int64_t)es - out.base.data_ptr<char>()) / (int64_t)es);
                if (op == 3) bland::square(m2.view, out.view);
                else if (op == 4) bland::sqrt(m2.view, out.view);
                else bland::abs(m2.view, out.view);
                x = x2;
                if (!verify(out.view, a, sh)) return;
                auto nw = snapshot(out.base);
                for (size_t k = 0; k < nw.size(); ++k)
                    if (!touched.count(k) && !h.check(nw[k] == out.base_copy[k], "out-form-outside-view", [&] { return cat("element ", k, " outside the view changed"); })) return;
            }
        }
    });
    h.cases("mismatch", 150, 2000, [&] {
        Rng &r = h.rng;
        Shape a = rshape(r, 3, 60), b = a;
        size_t d = r.range(0, (int64_t)a.size() - 1);
        a[d] = r.range(2, 5);
        b[d] = a[d] + r.range(1, 3);
        bool rank = r.chance(0.3);
        if (rank) { b = a; b.insert(b.begin(), 2); }
        if (r.chance(0.5) && !rank) std::swap(a, b);
        Made ma = make(r, F32, a, gen_for(r, F32)), mb = make(r, F32, b, gen_for(r, F32));
        h.describe(cat("copy ", ma.desc, " into ", mb.desc));
        bool t = throws([&] { bland::copy(ma.view, mb.view); });
        // copying into a larger rank may be a legitimate broadcast; anything else must be refused without writing
        if (!rank) h.check(t, "copy-into-mismatch-accepted", [&] { return cat(vec(a), " copied into ", vec(b)); });
        h.nontrivial(h.desc);
    });
    again(h, "ops", 400, 8000, 36, 500);
}

// ---------------------------------------------------------------- B07
static double rd_any(const ndarray &a, int64_t i) {
    auto d = a.dtype();
    void *p = a.data_ptr<void>();
    if (d.code == kDLFloat) return d.bits == 32 ? ((float *)p)[i] : ((double *)p)[i];
    if (d.code == kDLInt) return d.bits == 8 ? ((int8_t *)p)[i] : d.bits == 16 ? ((int16_t *)p)[i] : d.bits == 32 ? ((int32_t *)p)[i] : (double)((int64_t *)p)[i];
    return d.bits == 8 ? ((uint8_t *)p)[i] : d.bits == 16 ? ((uint16_t *)p)[i] : d.bits == 32 ? ((uint32_t *)p)[i] : (double)((uint64_t *)p)[i];
}
static void B07(H &h) {
    h.rule = "zeros/ones/filled construction over random shapes and dtypes, arange/linspace over random exactly representable start/end/step for every "
             "argument and result dtype, random creators checked for shape, range and sample moments. Distinct: (creator, dtype, arguments).";
    std::vector<std::pair<DLDataType, std::string>> dts = {{ndarray::datatype::float32, "f32"}, {ndarray::datatype::float64, "f64"}, {ndarray::datatype::int8, "i8"}, {ndarray::datatype::int16, "i16"}, {ndarray::datatype::int32, "i32"}, {ndarray::datatype::int64, "i64"}, {ndarray::datatype::uint8, "u8"}, {ndarray::datatype::uint16, "u16"}, {ndarray::datatype::uint32, "u32"}, {ndarray::datatype::uint64, "u64"}};
    auto dteq = [](DLDataType a, DLDataType b) { return a.code == b.code && a.bits == b.bits && a.lanes == b.lanes; };
    h.cases("constant", 600, 8000, [&] {
        Rng &r = h.rng;
        int k = (int)r.range(0, 2);
        DT t = (DT)r.range(0, 3);
        Shape s = rshape(r, 5, 600);
        double v = k == 0 ? 0 : k == 1 ? 1 : t == F32 ? (double)(float)(r.normal() * 100) : t == I32 ? r.range(-100000, 100000) : r.range(0, 255);
        h.describe(cat(k == 0 ? "zeros" : k == 1 ? "ones" : "filled", vec(s), dtname(t), " ", v));
        ndarray a = k == 0 ? bland::zeros(s, dl(t)) : k == 1 ? bland::ones(s, dl(t)) : t == F32 ? ndarray(s, (float)v, dl(t)) : t == I32 ? ndarray(s, (int32_t)v, dl(t)) : t == U8 ? ndarray(s, (uint8_t)v, dl(t)) : ndarray(s, (uint32_t)v, dl(t));
        if (!h.check(a.shape() == s && dteq(a.dtype(), dl(t)), "constant-shape", [&] { return cat("shape ", vec(a.shape())); })) return;
        keep(h, a, "constant");
        for (double x : mat(a).v) if (!h.check(x == v, "constant-value", [&] { return cat("got ", x, " expected ", v); })) return;
        h.nontrivial(h.desc);
    });
    auto check_seq = [&](const ndarray &a, DLDataType dt, int64_t n, const std::function<double(int64_t)> &want, double rel, const std::string &tag) {
        if (!h.check(a.shape() == Shape{n}, tag + "-count", [&] { return cat("shape ", vec(a.shape()), " expected ", n); })) return;
        if (!h.check(dteq(a.dtype(), dt), tag + "-dtype", [&] { return std::string("dtype differs"); })) return;
        for (int64_t i = 0; i < n; ++i) {
            double w = want(i), g = rd_any(a, i);
            if (!h.check(close(g, w, rel, rel * 64), tag + "-value", [&] { return cat("element ", i, " is ", g, " expected ", w); })) return;
        }
    };
    h.cases("arange", 1200, 20000, [&] {
        Rng &r = h.rng;
        auto &dt = dts[r.next() % dts.size()];
        bool uns = dt.first.code == kDLUInt;
        bool flt = r.chance(0.6);
        double step = flt ? r.range(1, 24) / 8.0 : r.range(1, 4);
        double start = flt ? r.range(uns ? 0 : -40, 40) / 8.0 : r.range(uns ? 0 : -20, 20);
        int64_t n = r.range(0, 20);
        double end = start + step * n;
        if (n > 0 && r.chance(0.5)) end -= flt ? step * r.pick({0.5, 0.25, 0.75}) : (step > 1 ? (double)r.range(0, (int64_t)step - 1) : 0);
        int64_t cnt = (int64_t)std::ceil((end - start) / step);
        int form = (int)r.range(0, 3);
        h.describe(cat("arange(", start, ",", end, ",", step, ") ", dt.second, flt ? " float" : " int", " form ", form));
        auto w = [&](int64_t i) { double v = start + step * i; return dt.first.code == kDLFloat ? v : std::trunc(v); };
        if (flt) {
            ndarray a = form & 1 ? bland::arange<float, float, float>((float)start, (float)end, (float)step, dt.first) : bland::arange<double, double, double>(start, end, step, dt.first);
            check_seq(a, dt.first, cnt, w, 0, "arange-float");
        } else {
            ndarray a = form & 1 ? bland::arange<int32_t, int32_t, int32_t>((int32_t)start, (int32_t)end, (int32_t)step, dt.first) : bland::arange<int64_t, int64_t, int64_t>((int64_t)start, (int64_t)end, (int64_t)step, dt.first);
            check_seq(a, dt.first, cnt, w, 0, "arange-int");
        }
        h.nontrivial(h.desc);
    });
    // the type of the result inferred from the type of the arguments; descending ranges; steps nothing represents exactly
    h.cases("inferred", 600, 8000, [&] {
        Rng &r = h.rng;
        size_t ti = (size_t)(r.next() % dts.size());
        DLDataType t = dts[ti].first;
        bool lin = r.chance(0.4), uns = t.code == kDLUInt;
        auto go = [&](auto zero) {
            using T = decltype(zero);
            constexpr bool F = std::is_floating_point<T>::value;
            int64_t n = r.range(0, 25);
            T start, end, step;
            if constexpr (F) {
                start = (T)(r.normal() * 10);
                step = (T)(r.uni(0.01, 3) * (r.chance(0.3) ? -1 : 1));
                end = (T)(start + step * (n + r.pick({0.0, 0.3, 0.9})));
            } else {
                int64_t top = sizeof(T) == 1 ? (uns ? 255 : 127) : 30000;
                start = (T)r.range(uns ? 0 : -top, top);
                if (sizeof(T) == 8 && r.chance(0.3)) start = (T)((int64_t)1 << 40) + start;
                step = (T)r.range(1, 4);
                if (!uns && r.chance(0.3)) step = (T)-step;
                int64_t room = step > 0 ? (sizeof(T) == 8 ? 1000 : (top - (int64_t)start) / (int64_t)step) : sizeof(T) == 8 ? 1000 : ((int64_t)start + top) / -(int64_t)step;
                n = std::min(n, room);
                end = (T)(start + (T)(step * (T)n));
                if (n > 0 && r.chance(0.4)) end = (T)(step > 1 ? end - 1 : step < -1 ? end + 1 : end);
            }
            if (lin) {
                int64_t k = r.range(1, 30);
                h.describe(cat("linspace(", (double)start, ",", (double)end, ",", k, ") of ", dts[ti].second));
                constexpr bool can_lin = !std::is_same<T, double>::value && !std::is_same<T, int8_t>::value && !std::is_same<T, int16_t>::value && !std::is_same<T, uint16_t>::value;
                ndarray a = [&] { if constexpr (can_lin) return bland::linspace<T>(start, end, (size_t)k); else return bland::zeros({k}); }();
                auto w = [&](int64_t i) { double v = (double)start + ((double)end - (double)start) / k * i; return F ? v : std::trunc(v); };
                if constexpr (F) check_seq(a, t, k, w, sizeof(T) == 4 ? 1e-6 : 1e-14, "linspace-inferred");
                else { // a value within rounding of a whole number may be truncated to either side
                    if (!h.check(a.shape() == Shape{k} && dteq(a.dtype(), t), "linspace-inferred-shape", [&] { return vec(a.shape()); })) return;
                    for (int64_t i = 0; i < k; ++i) {
                        double v = (double)start + ((double)end - (double)start) * i / k, g = rd_any(a, i), e = 1e-12 + 1e-15 * std::fabs(v);
                        if (!h.check(g == std::trunc(v - e) || g == std::trunc(v + e), "linspace-inferred-value", [&] { return cat("element ", i, " is ", g, " expected ", v); })) return;
                    }
                }
            } else {
                h.describe(cat("arange(", (double)start, ",", (double)end, ",", (double)step, ") of ", dts[ti].second));
                ndarray a = bland::arange<T, T, T>(start, end, step);
                double q = ((double)end - (double)start) / (double)step, near = std::nearbyint(q);
                if (F && std::fabs(q - near) < 1e-12 * (1 + std::fabs(q)) && q != near) { h.count("ambiguous_counts"); return; }
                check_seq(a, t, std::max<int64_t>(0, (int64_t)std::ceil(q)), [&](int64_t i) { return (double)start + (double)step * i; }, F ? (sizeof(T) == 4 ? 1e-6 : 1e-14) : 0, "arange-inferred");
            }
        };
        // linspace infers i32, i64, u8, u32, u64 and f32 only
        if (lin) { static const size_t can[] = {0, 4, 5, 6, 8, 9}; ti = can[r.range(0, 5)]; t = dts[ti].first; uns = t.code == kDLUInt; }
        switch (ti) {
        case 0: go(float()); break;
        case 1: if (!lin) go(double()); break;
        case 2: if (!lin) go(int8_t()); break;
        case 3: if (!lin) go(int16_t()); break;
        case 4: go(int32_t()); break;
        case 5: go(int64_t()); break;
        case 6: go(uint8_t()); break;
        case 7: if (!lin) go(uint16_t()); break;
        case 8: go(uint32_t()); break;
        case 9: go(uint64_t()); break;
        }
        h.nontrivial(h.desc);
    });
    h.cases("linspace", 800, 12000, [&] {
        Rng &r = h.rng;
        int64_t n = r.range(1, 30);
        bool flt = r.chance(0.6);
        auto &dt = flt ? dts[r.range(0, 1)] : dts[r.next() % dts.size()];
        bool uns = dt.first.code == kDLUInt;
        double start = flt ? (float)(r.normal() * 10) : r.range(uns ? 0 : -20, 20);
        double end = flt ? (float)(r.normal() * 10) : start + n * r.range(uns || r.chance(0.7) ? 0 : -2, 3);
        h.describe(cat("linspace(", start, ",", end, ",", n, ") ", dt.second, flt ? " float" : " int"));
        auto w = [&](int64_t i) { return start + (end - start) * i / n; };
        if (flt) {
            bool f = r.chance(0.5);
            ndarray a = f ? bland::linspace<float>((float)start, (float)end, n, dt.first) : bland::linspace<double>(start, end, n, dt.first);
            check_seq(a, dt.first, n, w, dt.first.bits == 64 && !f ? 1e-12 : 1e-5, "linspace-float");
        } else {
            ndarray a = bland::linspace<int32_t>((int32_t)start, (int32_t)end, n, dt.first);
            check_seq(a, dt.first, n, w, 0, "linspace-int");
        }
        h.nontrivial(h.desc);
    });
    h.cases("random", 200, 2000, [&] {
        Rng &r = h.rng;
        int k = (int)r.range(0, 5);
        Shape s = {r.range(20, 40), r.range(100, 200)};
        int64_t n = numel(s);
        if (k < 2) {
            double mean = r.normal() * 20, sd = r.uni(0.1, 10);
            bool d = k == 1;
            h.describe(cat("rand_normal", vec(s), " mean ", mean, " sd ", sd, d ? " f64" : " f32"));
            ndarray a = d ? bland::rand_normal<double>(s, mean, sd, ndarray::datatype::float64) : bland::rand_normal<float>(s, (float)mean, (float)sd);
            if (!h.check(a.shape() == s, "rand-shape", [&] { return vec(a.shape()); })) return;
            double m = 0, q = 0;
            for (int64_t i = 0; i < n; ++i) m += rd_any(a, i);
            m /= n;
            for (int64_t i = 0; i < n; ++i) q += (rd_any(a, i) - m) * (rd_any(a, i) - m);
            q = std::sqrt(q / n);
            // 8 standard errors: false alarm probability < 1e-14 per check
            h.check(std::fabs(m - mean) < 8 * sd / std::sqrt(n), "rand-normal-mean", [&] { return cat("mean ", m, " wanted ", mean, " sd ", sd); });
            h.check(std::fabs(q - sd) < 8 * sd / std::sqrt(2.0 * n), "rand-normal-sd", [&] { return cat("sd ", q, " wanted ", sd); });
            double inside = 0, lag = 0, again = 0;
            ndarray b = d ? bland::rand_normal<double>(s, mean, sd, ndarray::datatype::float64) : bland::rand_normal<float>(s, (float)mean, (float)sd);
            for (int64_t i = 0; i < n; ++i) inside += std::fabs(rd_any(a, i) - mean) < sd, again += rd_any(a, i) == rd_any(b, i);
            for (int64_t i = 1; i < n; ++i) lag += (rd_any(a, i) - m) * (rd_any(a, i - 1) - m) / (q * q);
            h.check(std::fabs(inside / n - 0.682689) < 8 * std::sqrt(0.2166 / n), "rand-normal-form", [&] { return cat(inside / n, " of the draws within one deviation"); });
            h.check(std::fabs(lag / n) < 8 / std::sqrt(n), "rand-normal-dependent", [&] { return cat("neighbours correlate by ", lag / n); });
            h.check(again < n / 2.0, "rand-normal-repeats", [&] { return cat(again, " of ", n, " draws equal those of the array before"); });
        } else if (k > 3) { // whole numbers of any width, both ends included; other types of number are refused
            static const std::vector<std::tuple<int, int, int>> types = {{0, 8, 1}, {0, 16, 1}, {0, 32, 1}, {0, 64, 1}, {1, 8, 1}, {1, 16, 1}, {1, 32, 1}, {1, 64, 1}, {2, 16, 0}, {0, 24, 0}, {1, 128, 0}, {4, 16, 0}, {5, 64, 0}};
            const auto &ty = types[(size_t)r.range(0, (int64_t)types.size() - 1)];
            int code = std::get<0>(ty), bits = std::get<1>(ty), ok = std::get<2>(ty);
            DLDataType t{(uint8_t)code, (uint8_t)bits, 1};
            int way = (int)r.range(0, 2);
            int lo = (int)(code == 1 || way ? r.range(0, 100) : r.range(-120, 100)), hi = (int)r.range(lo, 120);
            if (way == 2 && bits > 8) hi = (int)r.range(lo, 255);
            h.describe(cat("rand_uniform", vec(s), " ", lo, "..", hi, " code ", code, " bits ", bits, " from ", way == 0 ? "int" : way == 1 ? "unsigned" : "byte"));
            h.nontrivial(h.desc);
            auto make = [&] {
                if (way == 0) return bland::rand_uniform<int32_t>(s, lo, hi, t);
                if (way == 1) return bland::rand_uniform<uint32_t>(s, (uint32_t)lo, (uint32_t)hi, t);
                return bland::rand_uniform<uint8_t>(s, (uint8_t)lo, (uint8_t)hi, t);
            };
            std::optional<ndarray> a;
            try { a = make(); } catch (const std::exception &) {}
            if (!ok) { h.check(!a, "rand-type-made-up", [&] { return "returned an array"; }); return; }
            if (!h.check(!!a, "rand-type-refused", [&] { return h.desc; })) return;
            if (!h.check(a->shape() == s && a->dtype().code == code && a->dtype().bits == bits, "rand-shape", [&] { return vec(a->shape()); })) return;
            std::vector<int64_t> seen((size_t)(hi - lo + 1));
            double m = 0;
            int64_t outside = 0;
            for (int64_t i = 0; i < n; ++i) {
                double v = rd_any(*a, i);
                m += v;
                if (v < lo || v > hi) ++outside; else ++seen[(size_t)(v - lo)];
            }
            h.check(outside == 0, "rand-uniform-range", [&] { return cat(outside, " values outside of ", lo, "..", hi); });
            double w = hi - lo + 1, sd = std::sqrt((w * w - 1) / 12);
            h.check(std::fabs(m / n - (lo + hi) / 2.0) <= 8 * sd / std::sqrt(n), "rand-uniform-mean", [&] { return cat("mean ", m / n, " of ", lo, "..", hi); });
            // an end never drawn although each value is due many times: n/w at least 40 misses all with probability < e^-40
            if (n / w >= 40) h.check(seen.front() && seen.back(), "rand-uniform-ends", [&] { return cat(seen.front(), " and ", seen.back(), " draws of the ends"); });
            return;
        } else {
            double lo = r.normal() * 5, hi = lo + r.uni(0.5, 20);
            bool d = k == 3;
            h.describe(cat("rand_uniform", vec(s), " ", lo, "..", hi, d ? " f64" : " f32"));
            ndarray a = d ? bland::rand_uniform<float>(s, (float)lo, (float)hi, ndarray::datatype::float64) : bland::rand_uniform<float>(s, (float)lo, (float)hi);
            if (!h.check(a.shape() == s, "rand-shape", [&] { return vec(a.shape()); })) return;
            double m = 0, mn = 1e300, mx = -1e300;
            for (int64_t i = 0; i < n; ++i) { double v = rd_any(a, i); m += v; mn = std::min(mn, v); mx = std::max(mx, v); }
            m /= n;
            h.check(mn >= (float)lo && mx <= (float)hi, "rand-uniform-range", [&] { return cat("min ", mn, " max ", mx, " wanted ", lo, "..", hi); });
            h.check(std::fabs(m - (lo + hi) / 2) < 8 * (hi - lo) / std::sqrt(12.0 * n), "rand-uniform-mean", [&] { return cat("mean ", m, " of ", lo, "..", hi); });
            ndarray b = d ? bland::rand_uniform<float>(s, (float)lo, (float)hi, ndarray::datatype::float64) : bland::rand_uniform<float>(s, (float)lo, (float)hi);
            double q = 0, lag = 0, again = 0, sd = (hi - lo) / std::sqrt(12.0);
            for (int64_t i = 0; i < n; ++i) { double v = rd_any(a, i) - m; q += v * v; again += rd_any(a, i) == rd_any(b, i); if (i) lag += v * (rd_any(a, i - 1) - m); }
            q = std::sqrt(q / n);
            h.check(std::fabs(q - sd) < 8 * sd * std::sqrt(0.2 / n) + 1e-6, "rand-uniform-form", [&] { return cat("deviation ", q, " wanted ", sd); });
            h.check(std::fabs(lag / (q * q) / n) < 8 / std::sqrt(n), "rand-uniform-dependent", [&] { return cat("neighbours correlate by ", lag / (q * q) / n); });
            h.check(again < n / 2.0, "rand-uniform-repeats", [&] { return cat(again, " of ", n, " draws equal those of the array before"); });
        }
        h.nontrivial(h.desc);
    });
    again(h, "constant", 60, 1000, 24, 300);
}

int main(int c, char **v) { return run_main(c, v, {{"B01", B01}, {"B02", B02}, {"B03", B03}, {"B06", B06}, {"B07", B07}}); }
