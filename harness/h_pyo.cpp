// the library side of P01: answers, one JSON line per request, what the same calls give from C++
#include "pipe.hpp"
#include <drift_search/connected_components.hpp>
using namespace pl;

namespace {
std::string reply(const std::string &cmd, KV &a) {
    auto p = a["path"];
    if (cmd == "make") return make(a);
    if (cmd == "pipe") return pipe(a);
    if (cmd == "h5") {
        h5_filterbank_file f(p);
        std::vector<int64_t> st, ct;
        for (auto &x : split(a["start"], '.')) st.push_back(atoll(x.c_str()));
        for (auto &x : split(a["count"], '.')) ct.push_back(atoll(x.c_str()));
        return cat("{\"data\":", J(f.read_data(st, ct)), ",\"mask\":", J(f.read_mask(st, ct)), ",\"repr\":", J(f.repr()), ",\"path\":", J(std::string(f.get_file_path())), "}");
    }
    if (cmd == "rhits") return J(read_hits_from_capnp_file(p));
    if (cmd == "whits") {
        Rng r(strtoull(a["seed"].c_str(), nullptr, 10));
        auto l = rand_hits(r, atoll(a["n"].c_str()), 0);
        write_hits_to_capnp_file(l, p);
        return J(l);
    }
    if (cmd == "rscan") { auto s = read_scan_hits_from_capnp_file(p); std::string o = "{" + md(s) + ",\"channels\":["; for (int i = 0; i < s.get_number_coarse_channels(); ++i) { auto c = s.read_coarse_channel(i); o += (i ? ",{" : "{") + md(*c) + ",\"hits\":" + J(c->hits()) + "}"; } return o + "],\"hits\":" + J(s.hits()) + "}"; }
    if (cmd == "revents") return J(read_events_from_file(p));
    if (cmd == "firdes") return J(firdes(atoi(a["n"].c_str()), strtof(a["fc"].c_str(), nullptr), a["window"]));
    if (cmd == "resp") return J(gen_coarse_channel_response(atoi(a["fpc"].c_str()), atoi(a["nc"].c_str()), atoi(a["taps"].c_str()), a["window"]));
    if (cmd == "arange") return J(bland::arange(strtof(a["a"].c_str(), nullptr), strtof(a["b"].c_str(), nullptr), strtof(a["c"].c_str(), nullptr)));
    if (cmd == "linspace") return J(bland::linspace(strtof(a["a"].c_str(), nullptr), strtof(a["b"].c_str(), nullptr), (size_t)atoll(a["n"].c_str())));
    if (cmd == "grid") { // the calls that take a plain array
        std::vector<int64_t> shape;
        for (auto &x : split(a["shape"], '.')) shape.push_back(atoll(x.c_str()));
        auto hex = a["hex"];
        std::string raw(hex.size() / 2, 0);
        for (size_t i = 0; i < raw.size(); ++i) raw[i] = (char)strtol(hex.substr(2 * i, 2).c_str(), nullptr, 16);
        auto op = a["op"];
        float f = strtof(a["f"].c_str(), nullptr);
        if (op == "ccl") {
            std::vector<bland::nd_coords> nb;
            for (auto &x : split(a["nb"], ';')) { auto q = split(x, '.'); nb.push_back({atoll(q[0].c_str()), atoll(q[1].c_str())}); }
            auto c = find_components_in_binary_mask(u8(shape, std::vector<uint8_t>(raw.begin(), raw.end())), nb);
            return cat("{\"count\":", c.size(), "}");
        }
        std::vector<float> v(raw.size() / 4);
        memcpy(v.data(), raw.data(), raw.size());
        auto x = f32(shape, v);
        if (op == "noise") return J(estimate_noise_power(x, noise_power_estimate_options{.estimator_method = a["mad"] == "1" ? noise_power_estimator::MEAN_ABSOLUTE_DEVIATION : noise_power_estimator::STDDEV, .masked_estimate = a["masked"] == "1"}));
        if (op == "mag") return J(flag_magnitude(x, f));
        if (op == "sig") return J(flag_sigmaclip(x, atoi(a["n"].c_str()), f, strtof(a["g"].c_str(), nullptr)));
        if (op == "sk") return J(estimate_spectral_kurtosis(x, atoi(a["N"].c_str()), atoi(a["M"].c_str()), f));
        if (op == "power") return J(bland::fft_shift_mag_square(x));
    }
    if (cmd == "defaults") {
        integrate_drifts_options d;
        hit_search_options s;
        filter_options f;
        noise_power_estimate_options n;
        return cat("{\"drift\":[", (int)d.desmear, ",", d.low_rate, ",", d.high_rate, ",", d.rate_step_size, "],\"search\":[", s.method == hit_search_methods::LOCAL_MAXIMA, ",", g17(s.snr_threshold), ",", s.neighbor_l1_dist, "],\"filter\":", (int)f.filter_zero_drift,
                   ",\"noise\":[", n.estimator_method == noise_power_estimator::MEAN_ABSOLUTE_DEVIATION, ",", (int)n.masked_estimate, "]}");
    }
    if (cmd == "where") { // the coarse channel a frequency falls in, asked of a target and of a cadence
        double q = atof(a["q"].c_str());
        int fpc = atoi(a["fpc"].c_str());
        observation_target o(std::vector<std::string>{p}, fpc);
        cadence c(std::vector<std::vector<std::string>>{{p}}, fpc);
        scan s(p, fpc);
        return cat("[", s.get_coarse_channel_with_frequency(q), ",", o.get_coarse_channel_with_frequency(q), ",", c.get_coarse_channel_with_frequency(q), "]");
    }
    throw std::logic_error("unknown command " + cmd);
}
} // namespace

int main() {
    quiet();
    // the replies go where nothing else is printed
    FILE *reply_to = fdopen(dup(1), "w");
    dup2(2, 1);
    std::string line;
    while (std::getline(std::cin, line)) {
        auto parts = split(line, '\t');
        KV kv;
        for (size_t i = 1; i < parts.size(); ++i) { auto e = parts[i].find('='); kv[parts[i].substr(0, e)] = parts[i].substr(e + 1); }
        std::string out, why;
        if (refused([&] { out = reply(parts[0], kv); }, &why)) out = "{\"error\":" + J(why) + "}";
        fprintf(reply_to, "%s\n", out.c_str());
        fflush(reply_to);
    }
}
