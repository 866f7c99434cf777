// B12: arrays whose buffers hold more elements than 32 bits count
#include "bx.hpp"
#include <bland/ops/ops_arithmetic.hpp>
#include <core/frequency_drift_plane.hpp>
#include <fstream>
#include <sys/resource.h>

namespace {
using namespace ref;
using bx::refused;
using vh::H;

void quiet() { if (!freopen("/dev/null", "w", stdout)) abort(); }
int64_t sum_of(const Shape &s) { int64_t n = 0; for (auto x : s) n += x; return n; }

// a buffer whose pages are never touched unless an element on them is
struct Far {
    ndarray base, view;  // view: a window whose elements lie 2^31 or more elements into the buffer, or either side of it
    ndarray near;        // the same values in a small dense array
    std::vector<int64_t> pos;
    std::string desc;
};
Far far(Rng &r, DT t, const Shape &want) {
again:
    const int64_t G = int64_t(1) << 30;
    size_t nd = want.size();
    Shape bs(nd), off(nd), step(nd, 1);
    // the outermost dimension that is big enough to reach far
    size_t big = (size_t)r.range(0, (int64_t)nd - 1);
    int64_t inner = 1;
    for (size_t d = nd; d-- > 0;) {
        step[d] = r.pick({1, 1, 1, 2, 3});
        if (d == big) {
            // where the window starts, in elements of the buffer
            int64_t at = r.pick({2 * G + r.range(0, 1000), 2 * G - r.range(1, 40), 3 * G + r.range(0, 5000), 2 * G, (t == U8 ? 4 * G + r.range(0, 100) : 2 * G + 7)});
            if (r.chance(0.3) && want[d] > 1) step[d] = r.pick({G, G - 3, G / 2 + 1}) / inner / (want[d] - 1) + 1; // a stride that carries it there
            off[d] = std::max<int64_t>(0, at / inner - (r.chance(0.3) ? r.range(0, (want[d] - 1) * step[d]) : 0));
        } else
            off[d] = r.range(0, d < big ? 0 : 20);
        bs[d] = off[d] + (want[d] - 1) * step[d] + 1 + r.range(0, 5);
        inner *= bs[d];
    }
    if (inner > (int64_t(18) << 30) / (dl(t).bits / 8)) goto again; // as much address space as any machine that can run this gives out
    ndarray base(bs, dl(t));
    std::vector<ndarray> chain{base};
    for (size_t d = 0; d < nd; ++d) chain.push_back(bland::slice(chain.back(), (int64_t)d, off[d], off[d] + (want[d] - 1) * step[d] + 1, step[d]));
    Far f{base, chain.back(), ndarray(want, dl(t)), {}, cat(dtname(t), vec(want), " of ", vec(bs), " off ", vec(off), " step ", vec(step))};
    Shape i(nd, 0), bst(nd, 1);
    for (size_t d = nd - 1; d-- > 0;) bst[d] = bst[d + 1] * bs[d + 1];
    auto gen = gen_for(r, t);
    for (int64_t k = 0, n = ref::numel(want); k < n; ++k, inc(i, want)) {
        int64_t l = 0;
        for (size_t d = 0; d < nd; ++d) l += (off[d] + i[d] * step[d]) * bst[d];
        f.pos.push_back(l);
        double v = gen();
        wr(base.data_ptr<void>(), t, l, v);
        wr(f.near.data_ptr<void>(), t, k, v);
    }
    return f;
}
std::vector<double> at(const Far &f, const std::vector<int64_t> &pos) {
    std::vector<double> o;
    DT t = dtof(f.base);
    for (auto l : pos) o.push_back(rd(f.base.data_ptr<void>(), t, l));
    return o;
}
// the elements of an array whose positions this harness computes itself
Arr read(const ndarray &a) { return mat(a); }
bool same(const Arr &a, const Arr &b) {
    if (a.shape != b.shape || a.v.size() != b.v.size()) return false;
    for (size_t i = 0; i < a.v.size(); ++i)
        if (!(a.v[i] == b.v[i] || (std::isnan(a.v[i]) && std::isnan(b.v[i])))) return false;
    return true;
}

void far_views(H &h) {
    h.cases("far", 4000, 20000, [&] {
        Rng &r = h.rng;
        DT t = r.pick({F32, F32, I32, U8, U8, U32});
        Shape s = rshape(r, 3, 60, false);
        Far f = far(r, t, s);
        std::string op;
        auto say = [&](const std::string &o) { op = o; h.describe(o + " on " + f.desc); };
        auto equal = [&](const ndarray &got, const ndarray &want) {
            h.check(same(read(got), read(want)), "far-view-" + op.substr(0, op.find(' ')), [&] { return cat("got ", show(read(got)), " want ", show(read(want))); });
        };
        auto both = [&](const std::function<ndarray(const ndarray &)> &g) { equal(g(f.view), g(f.near)); };
        h.count("far_elements", f.pos.size());
        switch (r.range(0, 13)) {
        case 0:
            say("positions");
            h.check(f.view.shape() == s && f.base.numel() == ref::numel(f.base.shape()) && f.view.numel() == ref::numel(s) && positions(f.view) == f.pos, "far-view-positions",
                    [&] { return cat("base numel ", f.base.numel(), " of ", ref::numel(f.base.shape()), ", view ", vec(f.view.shape()), " positions ", vec(positions(f.view)), " want ", vec(f.pos)); });
            equal(f.view, f.near);
            break;
        case 1: say("copy"); both([](const ndarray &a) { return bland::copy(a); }); both([](const ndarray &a) { return bland::abs(a); }); both([](const ndarray &a) { return bland::square(a); }); break;
        case 2: {
            Far g = far(r, t, s);
            say("binary with " + g.desc + ":");
            int k = (int)r.range(0, 2);
            auto bin = [&](const ndarray &a, const ndarray &b) { return k == 0 ? a + b : k == 1 ? a - b : a * b; };
            equal(bin(f.view, g.view), bin(f.near, g.near));
            equal(bin(f.view, g.near), bin(f.near, g.near));
            equal(bin(f.near, g.view), bin(f.near, g.near));
            break;
        }
        case 3: {
            say("scalar");
            int k = (int)r.range(0, 3);
            float x = (float)r.range(1, 5);
            both([&](const ndarray &a) { return k == 0 ? a + x : k == 1 ? a - x : k == 2 ? a * x : x - a; });
            if (t == U8) both([&](const ndarray &a) { return a & (uint8_t)3; });
            break;
        }
        case 4: {
            Far g = far(r, t, s);
            say("comparison with " + g.desc + ":");
            float x = (float)r.range(-2, 100);
            both([&](const ndarray &a) { return a > x; });
            both([&](const ndarray &a) { return a <= x; });
            equal(f.view < g.view, f.near < g.near);
            equal(f.view == g.view, f.near == g.near);
            break;
        }
        case 5: {
            std::vector<int64_t> axes;
            for (size_t d = 0; d < s.size(); ++d) if (r.chance(0.4)) axes.push_back((int64_t)d);
            say("reduction over " + vec(axes) + ":");
            both([&](const ndarray &a) { return bland::sum(a, axes); });
            both([&](const ndarray &a) { return bland::mean(a, axes); });
            both([&](const ndarray &a) { return bland::stddev(a, axes); });
            both([&](const ndarray &a) { return bland::max(a, axes); });
            equal(bland::mean_stddev(f.view, axes).first, bland::mean_stddev(f.near, axes).first);
            equal(bland::mean_stddev(f.view, axes).second, bland::mean_stddev(f.near, axes).second);
            if (t == F32 && ref::numel(s) > 2) both([&](const ndarray &a) { return bland::standardized_moment(a, 4); });
            break;
        }
        case 6: {
            say("count of");
            auto a = bland::count_true(f.view), b = bland::count_true(f.near);
            h.check(a == b, "far-view-count", [&] { return cat(a, " ", b); });
            if (t == F32) {
                float m = bland::median(f.view), n = bland::median(f.near);
                h.check(m == n, "far-view-median", [&] { return cat(m, " ", n); });
            }
            break;
        }
        case 7: {
            Far m = far(r, U8, s);
            for (size_t i = 0; i < m.pos.size(); ++i) { double v = r.chance(0.4); wr(m.base.data_ptr<void>(), U8, m.pos[i], v); wr(m.near.data_ptr<void>(), U8, (int64_t)i, v); }
            wr(m.base.data_ptr<void>(), U8, m.pos[0], 0); wr(m.near.data_ptr<void>(), U8, 0, 0);
            say("masked statistics with " + m.desc + ":");
            equal(bland::masked_mean(f.view, m.view), bland::masked_mean(f.near, m.near));
            equal(bland::masked_stddev(f.view, m.view), bland::masked_stddev(f.near, m.near));
            auto a = bland::masked_mean_stddev(f.view, m.view), b = bland::masked_mean_stddev(f.near, m.near);
            equal(a.first, b.first);
            equal(a.second, b.second);
            break;
        }
        case 8: {
            // written through: the elements of the view and nothing beside them
            std::set<int64_t> mine(f.pos.begin(), f.pos.end());
            std::vector<int64_t> beside;
            int64_t n = ref::numel(f.base.shape());
            for (auto l : f.pos) for (int64_t d : {-2, -1, 1, 2}) if (l + d >= 0 && l + d < n && !mine.count(l + d)) beside.push_back(l + d);
            for (auto l : f.pos) for (int64_t w : {l - (int64_t(1) << 32), l - (int64_t(1) << 31)}) if (w >= 0 && w < n && !mine.count(w)) beside.push_back(w);
            auto was = at(f, beside);
            int k = (int)r.range(0, 3);
            std::vector<double> want(f.pos.size());
            if (k == 0) {
                say("fill");
                float x = (float)r.range(0, 200);
                bland::fill(f.view, x);
                for (auto &w : want) w = x;
            } else if (k == 1) {
                say("assignment");
                Made src = make(r, t, s, gen_for(r, t));
                auto sl = bland::slice(f.view, bland::slice_spec{0, 0, s[0]});
                sl = src.view;
                want = mat(src.view).v;
            } else if (k == 2) {
                say("copy-into");
                ndarray o = f.view;
                Made src = make(r, t, s, gen_for(r, t));
                bland::copy(src.view, o);
                want = mat(src.view).v;
            } else {
                say("output-of-operation");
                ndarray o = f.view;
                Made a = make(r, t, s, gen_for(r, t));
                bland::square(a.view, o);
                want = mat(bland::square(a.view)).v;
            }
            h.check(at(f, f.pos) == want, "far-view-" + op, [&] { return cat("got ", vec(at(f, f.pos)), " want ", vec(want)); });
            h.check(at(f, beside) == was, "far-view-write-outside", [&] { return op; });
            break;
        }
        case 9: {
            say("scalarize");
            Shape i(s.size(), 0);
            for (size_t k = 0; k < f.pos.size(); ++k, inc(i, s)) {
                double got = t == F32 ? (double)f.view.scalarize<float>(i) : t == I32 ? (double)f.view.scalarize<int32_t>(i) : t == U8 ? (double)f.view.scalarize<uint8_t>(i) : (double)f.view.scalarize<uint32_t>(i);
                double want = rd(f.near.data_ptr<void>(), t, (int64_t)k);
                if (!h.check(got == want, "far-view-scalarize", [&] { return cat(vec(i), ": ", got, " want ", want); })) break;
            }
            break;
        }
        case 10: {
            say("reshape");
            bool dense = true;
            for (size_t i = 1; i < f.pos.size(); ++i) dense = dense && f.pos[i] == f.pos[i - 1] + 1;
            ndarray a = f.view, b = f.near;
            int64_t n = ref::numel(s);
            bool ra = refused([&] { a.reshape({n}); });
            b.reshape({n});
            h.check(!(ra && dense), "far-view-reshape-refused", [&] { return ""; });
            if (!ra) equal(a, b);
            ndarray c = f.view, d = f.near;
            int64_t ax = r.range(0, (int64_t)s.size());
            c = c.unsqueeze(ax); d = d.unsqueeze(ax);
            equal(c, d);
            c = c.squeeze(ax); d = d.squeeze(ax);
            equal(c, d);
            break;
        }
        case 11: {
            say("text");
            h.check(f.view.repr() == f.near.repr(), "far-view-text", [&] { return f.view.repr() + " want " + f.near.repr(); });
            if (t == F32) {
                auto p = h.scratch + "/w.bin";
                bland::write_to_file(f.view, p);
                std::ifstream in(p, std::ios::binary);
                std::string got((std::istreambuf_iterator<char>(in)), {}), want((char *)f.near.data_ptr<void>(), f.pos.size() * 4);
                h.check(got == want, "far-view-file", [&] { return cat(got.size(), " ", want.size()); });
                unlink(p.c_str());
            }
            break;
        }
        case 12: {
            say("export");
            ndarray v = f.view;
            DLManagedTensor *m = v.get_managed_tensor();
            char *p = (char *)m->dl_tensor.data + m->dl_tensor.byte_offset;
            h.check(p == (char *)f.base.data_ptr<void>() + f.pos[0] * (f.base.dtype().bits / 8), "far-view-export", [&] { return cat(p - (char *)f.base.data_ptr<void>()); });
            m->deleter(m);
            break;
        }
        default: {
            // the stages on a coarse channel that is a window into something big
            int64_t T = r.range(2, 6), N = r.range(4, 24);
            Far d = far(r, F32, {T, N}), k = far(r, U8, {T, N});
            for (size_t i = 0; i < k.pos.size(); ++i) { double v = r.chance(0.3) ? (double)r.pick({1, 2, 4, 6, 7}) : 0; wr(k.base.data_ptr<void>(), U8, k.pos[i], v); wr(k.near.data_ptr<void>(), U8, (int64_t)i, v); }
            wr(k.base.data_ptr<void>(), U8, k.pos[0], 0); wr(k.near.data_ptr<void>(), U8, 0, 0);
            f.desc = d.desc + " mask " + k.desc;
            say("stages");
            auto run = [&](const ndarray &x, const ndarray &m) {
                bliss::coarse_channel cc(x, m, 1000.0, -1e-6, 0, 32, N, T, 1, std::string("s"), 0.0, 0.0, 0, 1.0, 59000.0, 1, 0.0, 0.0, 0);
                cc.set_noise_estimate(bliss::estimate_noise_power(cc, {.estimator_method = bliss::noise_power_estimator::STDDEV, .masked_estimate = true}));
                cc = bliss::flag_filter_rolloff(cc, 0.2f);
                cc = bliss::flag_magnitude(cc, 3.0f);
                cc = bliss::flag_sigmaclip(cc, 2, 3, 3);
                cc = bliss::integrate_drifts(cc, {.desmear = true, .low_rate = -4, .high_rate = 9, .rate_step_size = 1});
                auto p = cc.integrated_drift_plane();
                auto n = cc.noise_estimate();
                std::vector<Arr> o{read(ndarray(cc.data())), read(ndarray(cc.mask())), read(p.integrated_drift_plane()), read(p.integrated_rfi().low_spectral_kurtosis), read(p.integrated_rfi().filter_rolloff)};
                o.push_back(Arr{{2}, {n.noise_floor(), n.noise_power()}});
                return o;
            };
            auto a = run(d.view, k.view), b = run(d.near, k.near);
            for (size_t i = 0; i < a.size(); ++i) h.check(same(a[i], b[i]), "far-view-stages", [&] { return cat("result ", i, " got ", show(a[i]), " want ", show(b[i])); });
        }
        }
        h.nontrivial(h.desc);
    });
}

// an array of more than 2^31 elements over a small buffer: the outer dimension repeats
struct Wide {
    std::vector<uint8_t> bytes;
    std::vector<int64_t> shape, strides;
    DLManagedTensor      t{};
    Wide(DT dt, int64_t rows, const std::vector<double> &row) : shape{rows, (int64_t)row.size()}, strides{0, 1} {
        int w = dl(dt).bits / 8;
        bytes.resize(row.size() * w);
        for (size_t i = 0; i < row.size(); ++i) wr(bytes.data(), dt, (int64_t)i, row[i]);
        t.dl_tensor.data    = bytes.data();
        t.dl_tensor.device  = {kDLCPU, 0};
        t.dl_tensor.ndim    = 2;
        t.dl_tensor.dtype   = dl(dt);
        t.dl_tensor.shape   = shape.data();
        t.dl_tensor.strides = strides.data();
        t.deleter           = [](DLManagedTensor *) {};
    }
};

void whole(H &h) {
    const int64_t P31 = int64_t(1) << 31;
    h.cpu_secs        = 600;
    std::vector<std::pair<std::string, std::function<void()>>> jobs;
    auto wide = [&](DT t, std::vector<double> &row, int64_t &rows) {
        row.assign((size_t)h.rng.range(800, 1300), 0);
        for (auto &x : row) x = (double)h.rng.range(0, t == U8 ? 3 : 20);
        row[0] = 0;
        row.back() = 1;
        rows = P31 / (int64_t)row.size() + h.rng.range(2, 50);
        h.describe(cat(h.desc, " of ", rows, " rows of ", row.size(), " ", dtname(t)));
        h.nontrivial(h.desc);
    };
    auto near_ = [&](const char *key, double got, double want, double rel = 1e-5) { h.check(close(got, want, rel, 0), key, [&] { return cat("got ", got, " want ", want); }); };
    auto stats = [](const std::vector<double> &row, double &m, double &sd) {
        double s = 0, q = 0;
        for (auto x : row) s += x, q += x * x;
        m = s / row.size(); sd = std::sqrt(q / row.size() - m * m);
    };
    std::vector<double> row;
    int64_t             rows = 0;
    double              m, sd;
    jobs.push_back({"numel", [&] {
        wide(U8, row, rows);
        Wide w(U8, rows, row);
        ndarray a(w.t);
        h.check(a.numel() == rows * (int64_t)row.size(), "numel-of-many", [&] { return cat(a.numel(), " of ", rows, "x", row.size()); });
        ndarray b = bland::slice(a, 0, 1, rows);
        h.check(b.numel() == (rows - 1) * (int64_t)row.size(), "numel-of-many", [&] { return cat(b.numel()); });
        ndarray flat({P31 + 77}, dl(U8));
        wr(flat.data_ptr<void>(), U8, P31 + 76, 9);
        ndarray g = flat.reshape({1, P31 + 77});
        h.check(g.numel() == P31 + 77 && g.scalarize<uint8_t>({0, P31 + 76}) == 9, "reshape-of-many", [&] { return cat(g.numel(), " ", vec(g.shape())); });
    }});
    jobs.push_back({"count", [&] { wide(U8, row, rows); Wide w(U8, rows, row); int64_t n = 0; for (auto x : row) n += x != 0;
        int64_t got = bland::count_true(ndarray(w.t)); h.check(got == n * rows, "count-of-many", [&] { return cat(got, " want ", n * rows); }); }});
    jobs.push_back({"sum", [&] { wide(F32, row, rows); Wide w(F32, rows, row); stats(row, m, sd); near_("sum-of-many", bland::sum(ndarray(w.t)).scalarize<float>(), m * row.size() * rows); }});
    jobs.push_back({"mean", [&] { wide(F32, row, rows); Wide w(F32, rows, row); stats(row, m, sd); near_("mean-of-many", bland::mean(ndarray(w.t)).scalarize<float>(), m); }});
    jobs.push_back({"stddev", [&] { wide(F32, row, rows); Wide w(F32, rows, row); stats(row, m, sd); near_("stddev-of-many", bland::stddev(ndarray(w.t)).scalarize<float>(), sd, 1e-4); }});
    jobs.push_back({"mean_stddev", [&] { wide(F32, row, rows); Wide w(F32, rows, row); stats(row, m, sd); auto p = bland::mean_stddev(ndarray(w.t)); near_("mean-stddev-of-many", p.first.scalarize<float>(), m); near_("mean-stddev-of-many", p.second.scalarize<float>(), sd, 1e-4); }});
    jobs.push_back({"max", [&] { wide(F32, row, rows); Wide w(F32, rows, row); near_("max-of-many", bland::max(ndarray(w.t)).scalarize<float>(), *std::max_element(row.begin(), row.end())); }});
    auto masked = [&](int which) {
        wide(F32, row, rows);
        Wide w(F32, rows, row);
        std::vector<double> mask(row.size()), kept;
        for (size_t i = 0; i < mask.size(); ++i) { mask[i] = i && h.rng.chance(0.3); if (mask[i] == 0) kept.push_back(row[i]); }
        Wide k(U8, rows, mask);
        stats(kept, m, sd);
        ndarray a(w.t), b(k.t);
        if (which == 0) near_("masked-mean-of-many", bland::masked_mean(a, b).scalarize<float>(), m);
        else if (which == 1) near_("masked-stddev-of-many", bland::masked_stddev(a, b).scalarize<float>(), sd, 1e-4);
        else { auto p = bland::masked_mean_stddev(a, b); near_("masked-mean-stddev-of-many", p.first.scalarize<float>(), m); near_("masked-mean-stddev-of-many", p.second.scalarize<float>(), sd, 1e-4); }
    };
    jobs.push_back({"masked_mean", [&] { masked(0); }});
    jobs.push_back({"masked_stddev", [&] { masked(1); }});
    jobs.push_back({"masked_mean_stddev", [&] { masked(2); }});
    jobs.push_back({"moment", [&] {
        wide(F32, row, rows);
        Wide w(F32, rows, row);
        stats(row, m, sd);
        double q = 0;
        for (auto x : row) q += std::pow((x - m) / sd, 4);
        near_("moment-of-many", bland::standardized_moment(ndarray(w.t), 4).scalarize<float>(), q / row.size(), 1e-3);
    }});
    auto each = [&](const char *key, const ndarray &o, const std::vector<uint8_t> &want_row) {
        auto *p = o.data_ptr<uint8_t>();
        bool dense = o.strides().back() == 1 && sum_of(o.offsets()) == 0;
        int64_t bad = -1;
        for (int64_t i = 0; dense && i < rows && bad < 0; ++i)
            if (memcmp(p + i * (int64_t)want_row.size(), want_row.data(), want_row.size())) bad = i;
        h.check(dense && o.shape() == Shape({rows, (int64_t)want_row.size()}) && bad < 0, key, [&] { return cat("row ", bad, " shape ", vec(o.shape())); });
    };
    jobs.push_back({"scalar operation", [&] { wide(U8, row, rows); Wide w(U8, rows, row); std::vector<uint8_t> want; for (auto x : row) want.push_back((uint8_t)(x + 3)); each("scalar-operation-of-many", ndarray(w.t) + (uint8_t)3, want); }});
    jobs.push_back({"operation", [&] { wide(U8, row, rows); Wide w(U8, rows, row); std::vector<uint8_t> want; for (auto x : row) want.push_back((uint8_t)(x + x)); each("operation-of-many", ndarray(w.t) + ndarray(w.t), want); }});
    jobs.push_back({"comparison", [&] { wide(F32, row, rows); Wide w(F32, rows, row); std::vector<uint8_t> want; for (auto x : row) want.push_back(x > 7); each("comparison-of-many", ndarray(w.t) > 7.0f, want); }});
    jobs.push_back({"copy", [&] { wide(U8, row, rows); Wide w(U8, rows, row); std::vector<uint8_t> want(row.begin(), row.end()); each("copy-of-many", bland::copy(ndarray(w.t)), want); }});
    jobs.push_back({"creation", [&] {
        rows = P31 / 1000 + 3; row.assign(1000, 0);
        h.describe(cat(h.desc, " of ", rows, "x1000")); h.nontrivial(h.desc);
        int v = (int)h.rng.range(1, 255);
        each("creation-of-many", ndarray({rows, 1000}, (uint8_t)v, dl(U8)), std::vector<uint8_t>(1000, (uint8_t)v));
    }});
    jobs.push_back({"file", [&] {
        auto p = h.scratch + "/sparse.bin";
        int64_t n = P31 + 123;
        h.describe(cat(h.desc, " of ", n, " bytes")); h.nontrivial(h.desc);
        int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        bool ok = fd >= 0 && ftruncate(fd, n) == 0 && pwrite(fd, "\7", 1, n - 1) == 1 && pwrite(fd, "\5", 1, P31 - 1) == 1;
        close(fd);
        if (!ok) { h.count("no_disk"); unlink(p.c_str()); return; }
        ndarray a = bland::read_from_file(p, dl(U8));
        auto *d = a.data_ptr<uint8_t>();
        h.check(a.numel() == n && a.shape() == Shape({n}) && d[n - 1] == 7 && d[P31 - 1] == 5 && d[n - 2] == 0, "file-of-many", [&] { return cat(a.numel(), " of ", n); });
        unlink(p.c_str());
    }});
    auto evenly = [&](const char *key, const ndarray &a, int64_t n, int64_t mod) {
        auto *p = a.data_ptr<uint8_t>();
        int64_t bad = -1;
        if (a.shape() == Shape({n})) { for (int64_t i = 0; i < n && bad < 0; ++i) if (p[i] != (uint8_t)(mod == 256 ? i : i / mod)) bad = i; }
        else bad = -2;
        h.check(bad == -1, key, [&] { return cat("element ", bad, " of ", n, " shape ", vec(a.shape())); });
    };
    jobs.push_back({"arange", [&] {
        int64_t n = P31 + 99;
        h.describe(cat(h.desc, " of ", n)); h.nontrivial(h.desc);
        // bytes cannot hold this many different values: what counts is that every element is there and the last ones are written
        ndarray a = bland::arange<int64_t, int64_t, int64_t>(0, n, 1, dl(U8));
        evenly("arange-of-many", a, n, 256);
    }});
    if (h.thorough()) {
        jobs.push_back({"random", [&] {
            int64_t n = P31 + 5;
            h.describe(cat(h.desc, " of ", n)); h.nontrivial(h.desc);
            ndarray a = bland::rand_uniform<uint8_t>({n}, 1, 9, dl(U8));
            auto *p = a.data_ptr<uint8_t>();
            int64_t out = 0;
            for (int64_t i = 0; i < n; ++i) out += p[i] < 1 || p[i] > 9;
            h.check(out == 0, "random-of-many", [&] { return cat(out); });
        }});
    }
    // spread over the case numbers so that the workers share them
    size_t i = 0;
    h.cases("whole", (int64_t)jobs.size(), (int64_t)jobs.size() * 3, [&] {
        auto &j = jobs[i++ % jobs.size()];
        (void)j;
        size_t k = (size_t)(h.case_no % jobs.size());
        h.describe(jobs[k].first);
        jobs[k].second();
        h.count("whole_arrays");
        row.clear(); row.shrink_to_fit();
    });
    h.cpu_secs = 0;
}

// sizes nothing can hold are refused, not wrapped to something small
void impossible(H &h) {
    h.cases("impossible", 400, 4000, [&] {
        Rng &r = h.rng;
        DT t = r.pick({F32, U8, I32});
        Shape s;
        int nd = (int)r.range(1, 4);
        // products that wrap 64 bits to something small, in elements or in bytes
        int how = (int)r.range(0, 3);
        if (how == 0) { s = {int64_t(1) << r.range(32, 40), int64_t(1) << r.range(32, 40)}; if (nd > 2) s.push_back(r.range(1, 9)); }
        else if (how == 1) { s = {(int64_t(1) << 62) + r.range(0, 64), r.pick({4, 4, 8})}; if (r.chance(0.5)) std::swap(s[0], s[1]); }
        else if (how == 2) s = {(int64_t(1) << 62) + r.range(1, 100)}; // times four bytes
        else s = {-r.range(1, 5), r.range(1, 4)};
        if (how == 2 && t == U8) t = F32;
        h.describe(cat(dtname(t), vec(s)));
        h.nontrivial(h.desc);
        int k = (int)r.range(0, 2);
        bool no = refused([&] {
            if (k == 0) { ndarray a(s, dl(t)); (void)a; }
            else if (k == 1) bland::zeros(s, dl(t));
            else bland::ones(s, dl(t));
        });
        h.check(no, "impossible-size-accepted", [&] { return k ? "created" : "allocated"; });
        h.count("refusals");
    });
}

void B12(H &h) {
    quiet();
    h.rule = "views that start or end beyond 2^31 elements into their buffer, put through every operation, against the same values in a small array; arrays of more than 2^31 elements (over small repeating buffers, or whole) counted, "
             "reduced, copied, compared, created and read, against values known in closed form; sizes that wrap 64 bits. Distinct: (operation, type, shapes, offsets, steps).";
    whole(h);
    far_views(h);
    impossible(h);
}
} // namespace

int main(int c, char **v) { return vh::run_main(c, v, {{"B12", B12}}); }
