// pipelines named by tokens, run through the library, and their results as JSON
#pragma once
#include "ser.hpp"
#include <drift_search/event_search.hpp>
#include <iostream>
using namespace ser;

namespace pl {
std::string g17(double v) {
    if (std::isnan(v)) return "NaN";
    if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
std::string hexof(const void *p, size_t n) {
    static const char *d = "0123456789abcdef";
    std::string o(2 * n, '0');
    auto c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { o[2 * i] = d[c[i] >> 4]; o[2 * i + 1] = d[c[i] & 15]; }
    return o;
}
std::string J(const std::string &s) { return vh::jstr(s); }
std::string J(const bland::ndarray &a) {
    auto dt = a.dtype();
    std::string hex;
    if (dt.bits == 32) { auto v = fvals(a); hex = hexof(v.data(), v.size() * 4); }
    else { auto v = bvals(a); hex = hexof(v.data(), v.size()); }
    return cat("{\"shape\":", vec(a.shape()), ",\"code\":", (int)dt.code, ",\"bits\":", (int)dt.bits, ",\"hex\":\"", hex, "\"}");
}
std::string J(const hit &x) {
    std::string o = cat("{\"start_freq_index\":", x.start_freq_index, ",\"start_freq_MHz\":", g17(x.start_freq_MHz), ",\"start_time_sec\":", g17(x.start_time_sec),
                        ",\"duration_sec\":", g17(x.duration_sec), ",\"rate_index\":", x.rate_index, ",\"drift_rate_Hz_per_sec\":", g17(x.drift_rate_Hz_per_sec),
                        ",\"power\":", g17(x.power), ",\"time_span_steps\":", x.time_span_steps, ",\"snr\":", g17(x.snr), ",\"bandwidth\":", g17(x.bandwidth), ",\"binwidth\":", x.binwidth, ",\"rfi_counts\":{");
    bool first = true;
    for (auto &[k, v] : x.rfi_counts) { o += cat(first ? "" : ",", "\"", (int)k, "\":", (int)v); first = false; }
    return o + "},\"repr\":" + J(x.repr()) + "}";
}
std::string J(const hits_t &l) {
    std::string o = "[";
    for (auto &x : l) o += (o.size() > 1 ? "," : "") + J(x);
    return o + "]";
}
std::string J(event e) {
    return cat("{\"hits\":", J(e.hits), ",\"starting_frequency_Hz\":", g17(e.starting_frequency_Hz), ",\"average_power\":", g17(e.average_power), ",\"average_bandwidth\":", g17(e.average_bandwidth),
               ",\"average_snr\":", g17(e.average_snr), ",\"average_drift_rate_Hz_per_sec\":", g17(e.average_drift_rate_Hz_per_sec), ",\"event_start_seconds\":", g17(e.event_start_seconds),
               ",\"event_end_seconds\":", g17(e.event_end_seconds), ",\"repr\":", J(e.repr()), "}");
}
std::string J(const frequency_drift_plane::drift_rate &d) {
    return cat("{\"desmeared_bins\":", d.desmeared_bins, ",\"drift_rate_Hz_per_sec\":", g17(d.drift_rate_Hz_per_sec), ",\"drift_rate_slope\":", g17(d.drift_rate_slope), ",\"index_in_plane\":", d.index_in_plane, "}");
}
template <class T> std::string J(const std::vector<T> &l) {
    std::string o = "[";
    for (auto &x : l) o += (o.size() > 1 ? "," : "") + J(x);
    return o + "]";
}
// a value, or null where the object has none
template <class F> std::string or_null(F f) {
    std::string s;
    return refused([&] { s = f(); }) ? "null" : s;
}
std::string J(noise_stats n) { return cat("{\"noise_floor\":", g17(n.noise_floor()), ",\"noise_power\":", g17(n.noise_power()), ",\"noise_amplitude\":", g17(n.noise_amplitude()), "}"); }
template <class X> std::string md(X &x) {
    std::string o;
    auto num = [&](const char *n, auto f) { o += cat(o.empty() ? "" : ",", "\"", n, "\":", or_null([&] { auto v = f(); if constexpr (std::is_convertible_v<decltype(v), double>) return g17((double)v); else return g17((double)v.value()); })); };
    num("fch1", [&] { return x.fch1(); }); num("foff", [&] { return x.foff(); }); num("tsamp", [&] { return x.tsamp(); }); num("tstart", [&] { return x.tstart(); });
    num("src_dej", [&] { return x.src_dej(); }); num("src_raj", [&] { return x.src_raj(); }); num("nchans", [&] { return x.nchans(); }); num("telescope_id", [&] { return x.telescope_id(); });
    num("machine_id", [&] { return x.machine_id(); }); num("nbits", [&] { return x.nbits(); }); num("az_start", [&] { return x.az_start(); }); num("za_start", [&] { return x.za_start(); });
    num("data_type", [&] { return x.data_type(); });
    return o + ",\"source_name\":" + or_null([&] { return J(std::string(x.source_name())); });
}
std::string J(coarse_channel &c, const std::string &want) {
    std::string o = "{" + md(c);
    bland::ndarray d = c.data(), m = c.mask();
    o += ",\"data\":" + J(d) + ",\"mask\":" + J(m);
    o += ",\"noise\":" + or_null([&] { return J(c.noise_estimate()); });
    if (want.find('p') != std::string::npos)
        o += ",\"plane\":" + or_null([&] {
            auto p = c.integrated_drift_plane();
            auto f = p.integrated_rfi();
            return cat("{\"plane\":", J(p.integrated_drift_plane()), ",\"rates\":", J(p.drift_rate_info()), ",\"filter_rolloff\":", J(f.filter_rolloff), ",\"low_spectral_kurtosis\":", J(f.low_spectral_kurtosis),
                       ",\"high_spectral_kurtosis\":", J(f.high_spectral_kurtosis), "}");
        });
    o += ",\"hits\":" + or_null([&] { return J(c.hits()); });
    return o + "}";
}
std::string J(scan &s, const std::string &want) {
    std::string o = "{" + md(s) + cat(",\"num_coarse_channels\":", s.get_number_coarse_channels(), ",\"channels\":[");
    for (int i = 0; i < s.get_number_coarse_channels(); ++i) {
        auto c = s.read_coarse_channel(i);
        o += (i ? "," : "") + J(*c, want);
    }
    o += "],\"hits\":" + or_null([&] { return J(s.hits()); });
    return o + "}";
}
std::string J(observation_target &t, const std::string &want) {
    std::string o = "{\"target_name\":" + J(t._target_name) + ",\"scans\":[";
    for (size_t i = 0; i < t._scans.size(); ++i) o += (i ? "," : "") + J(t._scans[i], want);
    return o + "]}";
}
std::string J(cadence &t, const std::string &want) {
    std::string o = "{\"observations\":[";
    for (size_t i = 0; i < t._observations.size(); ++i) o += (i ? "," : "") + J(t._observations[i], want);
    return o + "]}";
}
using KV = std::map<std::string, std::string>;
template <class X> X run_ops(X x, const std::vector<std::string> &ops) {
    for (auto &op : ops) {
        auto t = split(op, ':');
        auto f = [&](size_t i) { return strtof(t.at(i).c_str(), nullptr); };
        auto n = [&](size_t i) { return atoll(t.at(i).c_str()); };
        auto &k = t[0];
        if (k == "norm") x = normalize(x);
        else if (k == "roll") x = flag_filter_rolloff(x, f(1));
        else if (k == "sk") x = flag_spectral_kurtosis(x, f(1), f(2), f(3));
        else if (k == "mag") { if (t.size() > 1) x = flag_magnitude(x, f(1)); else x = flag_magnitude(x); }
        else if (k == "sig") x = flag_sigmaclip(x, (int)n(1), f(2), f(3));
        else if (k == "eq") x = equalize_passband_filter(x, t[1]);
        else if (k == "drift") x = integrate_drifts(x, integrate_drifts_options{.desmear = n(1) != 0, .low_rate = n(2), .high_rate = n(3), .rate_step_size = n(4)});
        else if (k == "filter") x = filter_hits(x, filter_options{.filter_zero_drift = n(1) != 0});
        else if (k == "noise") {
            noise_power_estimate_options o{.estimator_method = n(1) ? noise_power_estimator::MEAN_ABSOLUTE_DEVIATION : noise_power_estimator::STDDEV, .masked_estimate = n(2) != 0};
            if constexpr (std::is_same_v<X, coarse_channel>) x.set_noise_estimate(estimate_noise_power(x, o));
            else x = estimate_noise_power(x, o);
        } else if (k == "search") {
            hit_search_options o;
            o.method = n(1) ? hit_search_methods::LOCAL_MAXIMA : hit_search_methods::CONNECTED_COMPONENTS;
            o.snr_threshold = f(2);
            o.neighbor_l1_dist = (int)n(3);
            if constexpr (std::is_same_v<X, coarse_channel>) x.set_hits(hit_search(x, o));
            else x = hit_search(x, o);
        } else if (k == "slice") {
            if constexpr (std::is_same_v<X, scan>) x = x.slice_scan_channels(n(1), n(2));
            else if constexpr (std::is_same_v<X, observation_target>) x = x.slice_observation_channels((int)n(1), (int)n(2));
            else if constexpr (std::is_same_v<X, cadence>) x = x.slice_cadence_channels((int)n(1), (int)n(2));
        } else throw std::logic_error("unknown op " + k);
    }
    return x;
}
std::string pipe(KV &a) {
    auto kind = a["kind"];
    auto ops  = a["ops"].empty() ? std::vector<std::string>{} : split(a["ops"], ',');
    int fpc   = atoi(a["fpc"].c_str());
    std::vector<std::vector<std::string>> files;
    for (auto &o : split(a["files"], ';')) files.push_back(split(o, '|'));
    auto want = a["want"];
    if (kind == "cc") {
        scan s(files[0][0], fpc);
        coarse_channel c = *s.read_coarse_channel(atoi(a["index"].c_str()));
        auto r = run_ops(c, ops);
        return J(r, want);
    }
    if (kind == "scan") {
        auto r = run_ops(scan(files[0][0], fpc), ops);
        if (!a["save"].empty()) write_scan_hits_to_capnp_file(r, a["save"]);
        return J(r, want);
    }
    if (kind == "obs") {
        auto r = run_ops(observation_target(files[0], fpc), ops);
        if (!a["save"].empty()) write_observation_target_hits_to_capnp_files(r, a["save"]);
        return J(r, want);
    }
    auto r = run_ops(cadence(files, fpc), ops);
    if (!a["save"].empty()) write_cadence_hits_to_capnp_files(r, a["save"]);
    auto j = J(r, want);
    if (a["events"] == "1") {
        std::vector<event> ev;
        std::string e = or_null([&] { ev = event_search(r); return J(ev); });
        if (!a["evsave"].empty()) write_events_to_file(ev, a["evsave"]);
        j = "{\"cadence\":" + j + ",\"events\":" + e + "}";
    }
    return j;
}
// a recorded scan: noise and drifting tones
std::string make(KV &a) {
    Rng r(strtoull(a["seed"].c_str(), nullptr, 10));
    int64_t T = atoll(a["T"].c_str()), fpc = atoll(a["fpc"].c_str()), nc = atoll(a["nc"].c_str()), N = fpc * nc;
    Meta m = rand_meta(r);
    m.foff = r.pick({-2.7939677238464355e-06, 2.7939677238464355e-06, -3e-6});
    m.tsamp = r.pick({18.253611008, 1.0, 10.0});
    if (!a["like"].empty()) { // several scans of one band share what has to match
        m.fch1 = atof(a["fch1"].c_str()); m.foff = atof(a["foff"].c_str()); m.tsamp = atof(a["tsamp"].c_str());
    }
    std::vector<float> d(T * N);
    double n_avg = std::abs(m.foff) * 1e6 * m.tsamp * 2, sd = 100 / std::sqrt(std::max(1.0, n_avg));
    for (auto &x : d) x = (float)std::max(0.5, 100 + sd * r.normal());
    for (int64_t c = 0; c < nc; ++c)
        for (int64_t k = 0, n = r.range(1, 3); k < n; ++k) {
            double f0 = r.uni(0, (double)fpc - 1), slope = r.chance(0.3) ? 0 : r.uni(-4, 4), amp = sd * r.pick({4.0, 8.0, 20.0, 100.0});
            for (int64_t t = 0; t < T; ++t) {
                int64_t x = (int64_t)std::lround(f0 + slope * t);
                if (x >= 0 && x < fpc) d[t * N + c * fpc + x] += (float)(amp + r.normal());
            }
        }
    auto f = std_fb(T, N, m, d);
    if (a["swapped"] == "1" && T != N) f.set(str("DIMENSION_LABELS", {"frequency", "feed_id", "time"}));
    write_fb(a["path"], f);
    return cat("{\"fch1\":", g17(m.fch1), ",\"foff\":", g17(m.foff), ",\"tsamp\":", g17(m.tsamp), "}");
}
inline std::string g(float v) { char b[40]; snprintf(b, sizeof b, "%.9g", v); return b; }
inline std::string rand_ops(Rng &r, int64_t nc, const std::string &kind, const std::string &resp) {
    std::vector<std::string> t, fl;
    if (kind != "cc" && r.chance(0.3)) { auto a = r.range(0, nc - 1); t.push_back(cat("slice:", a, ":", r.range(1, nc - a))); }
    if (r.chance(0.6)) fl.push_back("norm");
    if (r.chance(0.3)) fl.push_back("eq:" + resp);
    if (r.chance(0.6)) fl.push_back("roll:" + g((float)r.pick({0.05, 0.1, 0.2})));
    if (r.chance(0.6)) fl.push_back("sk:" + g((float)r.pick({0.05, 0.1, 0.25})) + ":" + g((float)r.pick({5.0, 25.0, 50.0})) + ":2");
    if (r.chance(0.3)) fl.push_back("mag");
    if (r.chance(0.6)) fl.push_back(cat("sig:", r.range(1, 4), ":3:4"));
    for (size_t i = fl.size(); i > 1; --i) std::swap(fl[i - 1], fl[r.next() % i]);
    for (auto &f : fl) t.push_back(f);
    int stage = (int)r.range(kind == "cc" ? 1 : 2, 4);
    if (stage >= 1) t.push_back(cat("noise:0:", r.range(0, 1)));
    if (stage >= 2) t.push_back(cat("drift:", r.range(0, 1), ":", -r.range(0, 12), ":", r.range(1, 12), ":", r.range(1, 2)));
    if (stage >= 3) t.push_back(cat("search:", r.range(0, 1), ":", g((float)r.pick({4.0, 6.0, 10.0})), ":", r.range(1, 8)));
    if (stage >= 4 && kind != "cc") t.push_back(cat("filter:", r.range(0, 1)));
    std::string o;
    for (auto &x : t) o += (o.empty() ? "" : ",") + x;
    return o;
}
inline std::string put_response(H &h, Rng &r, int64_t fpc) {
    std::string p = h.scratch + "/resp.f32", b;
    for (int64_t i = 0; i < fpc; ++i) { float v = (float)r.uni(0.5, 2); b.append((char *)&v, 4); }
    spew(p, b);
    return p;
}
inline std::string make_file(H &h, const std::string &name, int64_t T, int64_t fpc, int64_t nc) {
    KV a;
    a["path"] = h.scratch + "/" + name;
    a["seed"] = cat(h.rng.next());
    a["T"] = cat(T); a["fpc"] = cat(fpc); a["nc"] = cat(nc);
    if (h.rng.chance(0.2)) a["swapped"] = "1";
    make(a);
    return a["path"];
}

} // namespace pl
