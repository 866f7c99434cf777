// bliss helpers: filterbank file writer (plain HDF5 C API, independent of the reader under test) and in-memory builders
#pragma once
#include "bref.hpp"
#include <hdf5.h>
#include <H5Cpp.h>
#include <core/cadence.hpp>
#include <core/coarse_channel.hpp>
#include <core/flag_values.hpp>
#include <core/scan.hpp>
#include <estimators/noise_estimate.hpp>
#include <estimators/spectral_kurtosis.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <file_types/h5_filterbank_file.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <optional>

namespace bx {
using namespace bliss;
using vh::cat;
using vh::H;
using vh::Rng;
using vh::vec;

// any exception, std or from the HDF5 C++ wrapper (which does not derive from std::exception)
template <class F> bool refused(F &&f, std::string *what = nullptr) {
    try { f(); }
    catch (const std::exception &e) { if (what) *what = e.what(); return true; }
    catch (const H5::Exception &e) { if (what) *what = "H5: " + e.getDetailMsg(); return true; }
    return false;
}

struct Meta {
    double fch1 = 8000, foff = -2.7939677238464355e-06, tsamp = 18.253611008, tstart = 59000.5;
    double src_dej = 12.5, src_raj = 17.25, az_start = 1.5, za_start = 2.5;
    int64_t machine_id = 20, telescope_id = 6, data_type = 1, nbits = 32, nifs = 1;
    std::string source_name = "VOYAGER-1";
};
inline Meta rand_meta(Rng &r) {
    Meta m;
    m.fch1     = r.pick({8421.386717353016, 1000.0, 1500.5, 10.25, 11000.123456789}) + r.range(0, 50);
    m.foff     = r.pick({-2.7939677238464355e-06, 2.7939677238464355e-06, -1e-3, 0.5, -0.25, 3e-6, -2.9e-6}) ;
    m.tsamp    = r.pick({18.253611008, 1.0, 0.5, 17.98, 1.07374, 0.25});
    m.tstart   = 50000 + r.uni() * 10000;
    m.src_dej  = r.uni(-90, 90);
    m.src_raj  = r.uni(0, 24);
    m.az_start = r.uni(0, 360);
    m.za_start = r.uni(0, 90);
    m.machine_id   = r.range(0, 100000);
    m.telescope_id = r.range(-1, 100);
    m.nbits        = 32;
    m.source_name  = r.pick({std::string("VOYAGER-1"), std::string("B0329+54"), std::string("TIC 123"), std::string("x"), std::string("DIAG_PSR_B0531+21")});
    return m;
}

// one attribute as it is stored in the file
struct Attr {
    std::string name;
    hid_t       type = -1;             // file type (owned by the library or leaked, cases are small)
    std::vector<uint8_t> raw;          // bytes in *memory type* memtype
    hid_t       memtype = -1;
    std::vector<hsize_t> dims;         // empty: scalar
    bool        null_space = false;
    std::vector<std::string> strs;     // string attribute
    enum K { RAW, FIXED, VLEN } kind = RAW;
    size_t width = 0; H5T_str_t pad = H5T_STR_NULLTERM; H5T_cset_t cset = H5T_CSET_ASCII;
};
inline Attr num(const std::string &n, double v) {
    Attr a; a.name = n; a.type = H5T_IEEE_F64LE; a.memtype = H5T_NATIVE_DOUBLE; a.raw.resize(8); memcpy(a.raw.data(), &v, 8); return a;
}
inline Attr inum(const std::string &n, int64_t v) {
    Attr a; a.name = n; a.type = H5T_STD_I64LE; a.memtype = H5T_NATIVE_INT64; a.raw.resize(8); memcpy(a.raw.data(), &v, 8); return a;
}
inline Attr str(const std::string &n, std::vector<std::string> v, Attr::K k = Attr::VLEN, size_t width = 0, H5T_str_t pad = H5T_STR_NULLTERM, bool scalar = false) {
    Attr a; a.name = n; a.strs = std::move(v); a.kind = k; a.pad = pad;
    size_t w = 1;
    for (auto &s : a.strs) w = std::max(w, s.size() + (pad == H5T_STR_NULLTERM ? 1 : 0));
    a.width = std::max(width, w);
    if (!scalar) a.dims = {a.strs.size()};
    return a;
}

struct FB {
    std::vector<hsize_t> dims;          // physical dataset shape
    std::vector<float>   data;          // row-major
    hid_t dtype = -1;                   // storage type (default IEEE_F32LE)
    bool  chunked = false, gzip = false, shuffle = false;
    bool  no_data = false, data_is_group = false, mask = false, file_attrs = true, data_scalar = false;
    std::vector<Attr> attrs;
    Attr *find(const std::string &n) { for (auto &a : attrs) if (a.name == n) return &a; return nullptr; }
    void erase(const std::string &n) { attrs.erase(std::remove_if(attrs.begin(), attrs.end(), [&](const Attr &a) { return a.name == n; }), attrs.end()); }
    void set(const Attr &a) { if (auto p = find(a.name)) *p = a; else attrs.push_back(a); }
};
inline void write_attr(hid_t obj, const Attr &a) {
    hid_t sp = a.null_space ? H5Screate(H5S_NULL) : a.dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple((int)a.dims.size(), a.dims.data(), nullptr);
    if (a.kind == Attr::RAW) {
        hid_t at = H5Acreate2(obj, a.name.c_str(), a.type, sp, H5P_DEFAULT, H5P_DEFAULT);
        if (at < 0) throw std::logic_error("harness: cannot create attribute " + a.name);
        if (!a.null_space) H5Awrite(at, a.memtype, a.raw.data());
        H5Aclose(at);
    } else {
        hid_t t = H5Tcopy(H5T_C_S1);
        H5Tset_size(t, a.kind == Attr::VLEN ? H5T_VARIABLE : a.width);
        H5Tset_strpad(t, a.pad);
        H5Tset_cset(t, a.cset);
        hid_t at = H5Acreate2(obj, a.name.c_str(), t, sp, H5P_DEFAULT, H5P_DEFAULT);
        if (at < 0) throw std::logic_error("harness: cannot create attribute " + a.name);
        if (!a.null_space) {
            if (a.kind == Attr::VLEN) {
                std::vector<const char *> p;
                for (auto &s : a.strs) p.push_back(s.c_str());
                H5Awrite(at, t, p.data());
            } else {
                std::string buf;
                for (auto s : a.strs) { s.resize(a.width, a.pad == H5T_STR_SPACEPAD ? ' ' : '\0'); buf += s; }
                H5Awrite(at, t, buf.data());
            }
        }
        H5Aclose(at);
        H5Tclose(t);
    }
    H5Sclose(sp);
}
inline void write_fb(const std::string &path, const FB &f) {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t file = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    if (file < 0) throw std::logic_error("harness: cannot create " + path);
    if (f.file_attrs) {
        write_attr(file, str("CLASS", {"FILTERBANK"}, Attr::VLEN, 0, H5T_STR_NULLTERM, true));
        write_attr(file, str("VERSION", {"1.0"}, Attr::VLEN, 0, H5T_STR_NULLTERM, true));
    }
    if (!f.no_data) {
        hid_t ds;
        if (f.data_is_group) {
            ds = H5Gcreate2(file, "data", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        } else {
            hid_t sp   = f.data_scalar ? H5Screate(H5S_SCALAR) : H5Screate_simple((int)f.dims.size(), f.dims.data(), nullptr);
            hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
            if (f.chunked && !f.data_scalar) {
                std::vector<hsize_t> c = f.dims;
                for (auto &x : c) x = std::max<hsize_t>(1, (x + 1) / 2);
                H5Pset_chunk(dcpl, (int)c.size(), c.data());
                if (f.shuffle) H5Pset_shuffle(dcpl);
                if (f.gzip) H5Pset_deflate(dcpl, 1);
            }
            ds = H5Dcreate2(file, "data", f.dtype < 0 ? H5T_IEEE_F32LE : f.dtype, sp, H5P_DEFAULT, dcpl, H5P_DEFAULT);
            if (ds < 0) throw std::logic_error("harness: cannot create dataset");
            if (!f.data.empty()) H5Dwrite(ds, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, f.data.data());
            H5Pclose(dcpl);
            H5Sclose(sp);
        }
        for (auto &a : f.attrs) write_attr(ds, a);
        f.data_is_group ? H5Gclose(ds) : H5Dclose(ds);
    }
    if (f.mask) {
        hid_t sp = H5Screate_simple((int)f.dims.size(), f.dims.data(), nullptr);
        hid_t ds = H5Dcreate2(file, "mask", H5T_STD_U8LE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        H5Dclose(ds);
        H5Sclose(sp);
    }
    H5Fclose(file);
}
inline FB std_fb(int64_t T, int64_t N, const Meta &m, std::vector<float> data) {
    FB f;
    f.dims = {(hsize_t)T, 1, (hsize_t)N};
    f.data = std::move(data);
    f.attrs = {num("fch1", m.fch1), num("foff", m.foff), inum("machine_id", m.machine_id), inum("nbits", m.nbits), inum("nchans", N), inum("nifs", m.nifs),
               str("source_name", {m.source_name}, Attr::VLEN, 0, H5T_STR_NULLTERM, true), num("src_dej", m.src_dej), num("src_raj", m.src_raj),
               inum("telescope_id", m.telescope_id), num("tsamp", m.tsamp), num("tstart", m.tstart), inum("data_type", m.data_type),
               num("az_start", m.az_start), num("za_start", m.za_start), str("DIMENSION_LABELS", {"time", "feed_id", "frequency"})};
    return f;
}
inline std::string scratch(H &h, const std::string &name) { return h.scratch + "/" + name; }
// reading prints warnings by the thousand; HDF5 prints its error stack
inline void quiet() { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); }

inline bland::ndarray f32(const std::vector<int64_t> &shape, const std::vector<float> &v) {
    bland::ndarray a(shape, bland::ndarray::datatype::float32);
    memcpy(a.data_ptr<float>(), v.data(), v.size() * 4);
    return a;
}
inline bland::ndarray u8(const std::vector<int64_t> &shape, const std::vector<uint8_t> &v) {
    bland::ndarray a(shape, bland::ndarray::datatype::uint8);
    memcpy(a.data_ptr<uint8_t>(), v.data(), v.size());
    return a;
}
// the same elements behind a view with odd strides and offsets
inline bland::ndarray as_view(Rng &r, const std::vector<int64_t> &shape, ref::DT t, const std::function<double(int64_t)> &at) {
    int64_t T = shape[0], N = shape[1];
    int64_t o0 = r.range(0, 2), o1 = r.range(0, 3), s0 = r.range(1, 2), s1 = r.range(1, 3);
    bland::ndarray base({o0 + (T - 1) * s0 + 1 + r.range(0, 1), o1 + (N - 1) * s1 + 1 + r.range(0, 2)}, ref::dl(t));
    for (int64_t i = 0; i < ref::numel(base.shape()); ++i) ref::wr(base.data_ptr<void>(), t, i, 77);
    auto rows = bland::slice(base, 0, o0, o0 + (T - 1) * s0 + 1, s0);
    auto v    = bland::slice(rows, 1, o1, o1 + (N - 1) * s1 + 1, s1);
    auto p    = ref::positions(v);
    for (size_t i = 0; i < p.size(); ++i) ref::wr(v.data_ptr<void>(), t, p[i], at((int64_t)i));
    return v;
}
inline bland::ndarray f32v(Rng &r, const std::vector<int64_t> &s, const std::vector<float> &v, double p = 0.3) {
    return r.chance(p) ? as_view(r, s, ref::F32, [&](int64_t i) { return v[i]; }) : f32(s, v);
}
inline bland::ndarray u8v(Rng &r, const std::vector<int64_t> &s, const std::vector<uint8_t> &v, double p = 0.3) {
    return r.chance(p) ? as_view(r, s, ref::U8, [&](int64_t i) { return v[i]; }) : u8(s, v);
}
inline coarse_channel make_cc(bland::ndarray data, bland::ndarray mask, const Meta &m, int64_t T, int64_t N, int64_t number = 0) {
    return coarse_channel(data, mask, m.fch1, m.foff, m.machine_id, m.nbits, N, T, m.nifs, m.source_name, m.src_dej, m.src_raj, m.telescope_id, m.tsamp,
                          m.tstart, m.data_type, m.az_start, m.za_start, number);
}
inline std::vector<float> fvals(const bland::ndarray &a) {
    std::vector<float> o;
    for (auto l : ref::positions(a)) o.push_back(a.data_ptr<float>()[l]);
    return o;
}
inline std::vector<uint8_t> bvals(const bland::ndarray &a) {
    std::vector<uint8_t> o;
    for (auto l : ref::positions(a)) o.push_back(a.data_ptr<uint8_t>()[l]);
    return o;
}
inline bool biteq(const std::vector<float> &a, const std::vector<float> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (memcmp(&a[i], &b[i], 4) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
    return true;
}
inline std::string shp(const bland::ndarray &a) { return vec(a.shape()); }
inline std::string firstdiff(const std::vector<float> &a, const std::vector<float> &b) {
    if (a.size() != b.size()) return cat("sizes ", a.size(), " and ", b.size());
    for (size_t i = 0; i < a.size(); ++i)
        if (memcmp(&a[i], &b[i], 4)) return cat("element ", i, ": ", a[i], " but expected ", b[i]);
    return "equal";
}
inline bool close(double a, double b, double rel = 1e-12, double abs = 0) {
    if (a == b || (std::isnan(a) && std::isnan(b))) return true;
    return std::abs(a - b) <= std::max(abs, rel * std::max(std::abs(a), std::abs(b)));
}
// a scan held in memory: channel i has data[i]
inline scan mem_scan(const Meta &m, int64_t T, int64_t N, const std::vector<std::vector<float>> &chans, Rng *r = nullptr) {
    std::map<int, std::shared_ptr<coarse_channel>> ccs;
    for (size_t i = 0; i < chans.size(); ++i) {
        Meta mi = m;
        mi.fch1 = m.fch1 + m.foff * (double)(N * (int64_t)i);
        std::vector<uint8_t> z(T * N, 0);
        ccs[(int)i] = std::make_shared<coarse_channel>(make_cc(r ? f32v(*r, {T, N}, chans[i]) : f32({T, N}, chans[i]), r ? u8v(*r, {T, N}, z) : u8({T, N}, z), mi, T, N, (int64_t)i));
    }
    return scan(ccs);
}
inline std::vector<float> slice_chan(const std::vector<float> &all, int64_t T, int64_t width, int64_t start, int64_t n) {
    std::vector<float> o;
    for (int64_t t = 0; t < T; ++t)
        for (int64_t f = 0; f < n; ++f) o.push_back(all[t * width + start + f]);
    return o;
}
} // namespace bx
