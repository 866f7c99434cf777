// C01 C02 C03 C05: filterbank files, scans, slices
#include "bx.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
using namespace bx;

namespace {

std::vector<float> rand_data(Rng &r, int64_t n, int mode) {
    std::vector<float> v(n);
    for (int64_t i = 0; i < n; ++i) {
        if (mode == 0) v[i] = (float)i;                                    // every element says where it is
        else if (mode == 1) v[i] = (float)(r.normal() * std::pow(10, r.range(-20, 20)));
        else if (mode == 2) { uint32_t b = (uint32_t)r.next(); memcpy(&v[i], &b, 4); if (std::isnan(v[i])) v[i] = 3; } // any bit pattern
        else v[i] = (float)r.range(0, 100);
    }
    return v;
}

struct ChanModel { int64_t id; double fch1; std::vector<float> data; };

void check_channel(H &h, const std::string &who, coarse_channel &cc, const ChanModel &m, const Meta &md, int64_t T, int64_t N, bool number = true) {
    h.check(cc.nchans() == N && cc.ntsteps() == T, "channel-shape", [&] { return cat(who, ": nchans ", cc.nchans(), " ntsteps ", cc.ntsteps(), " expected ", N, " ", T); });
    h.check(close(cc.fch1(), m.fch1, 1e-12), "channel-fch1", [&] { return cat(who, ": fch1 ", cc.fch1(), " expected ", m.fch1); });
    h.check(cc.foff() == md.foff && cc.tsamp() == md.tsamp && cc.tstart() == md.tstart && cc.source_name() == md.source_name && cc.src_dej() == md.src_dej &&
                cc.src_raj() == md.src_raj && cc.telescope_id() == md.telescope_id,
            "channel-metadata", [&] { return cat(who, ": foff ", cc.foff(), " tsamp ", cc.tsamp(), " tstart ", cc.tstart(), " source ", cc.source_name(), " dej ", cc.src_dej(), " raj ", cc.src_raj(), " telescope ", cc.telescope_id()); });
    if (number) h.check(cc._coarse_channel_number == m.id, "channel-number", [&] { return cat(who, ": number ", cc._coarse_channel_number, " expected ", m.id); });
    auto d = cc.data();
    auto dv = fvals(d);
    h.check(d.shape() == std::vector<int64_t>({T, N}) && biteq(dv, m.data), "channel-data", [&] { return cat(who, ": shape ", shp(d), " ", firstdiff(dv, m.data)); });
    auto k  = cc.mask();
    auto kv = bvals(k);
    h.check(k.shape() == std::vector<int64_t>({T, N}) && std::all_of(kv.begin(), kv.end(), [](uint8_t x) { return x == 0; }) && k.dtype().code == kDLUInt && k.dtype().bits == 8,
            "initial-mask", [&] { return cat(who, ": mask shape ", shp(k), " ", vec(kv)); });
    h.count("channels_compared");
    h.count("samples_compared", dv.size());
}

// the documented channelisations, restated independently
std::pair<int64_t, int64_t> infer(int64_t n, double foffMHz, double tsamp) {
    struct K { int64_t f; double hz, s; };
    static const K ks[] = {{1033216, 2.84, 17.98}, {8, 366210.0, .00034953}, {1024, 2860.0, 1.06}, {999424, 2.93, 17.4}, {1024, 2860.0, 1.02}, {1048576, 2.79, 18.25}, {1024, 2860.0, 1.07}};
    for (auto &k : ks)
        if (n % k.f == 0 && std::abs(std::abs(foffMHz * 1e6) - k.hz) < .1 && std::abs(tsamp - k.s) < .1) return {n / k.f, k.f};
    for (int64_t c : {int64_t(1) << 18, int64_t(1000000)})
        if (n >= c && (n % c) % (n / c) == 0) return {n / c, c + (n % c) / (n / c)};
    return {1, n};
}

void C01(H &h) {
    quiet();
    h.rule = "a written filterbank file (its shape, channelisation, storage type and layout) whose channels were all read and compared sample by sample";
    auto one = [&](int64_t T, int64_t N, int fpc, Meta m, bool big) {
        Rng &r = h.rng;
        int mode = big ? 0 : (int)r.range(0, 3);
        std::vector<float> all = rand_data(r, T * N, mode);
        FB f = std_fb(T, N, m, all);
        std::string storage = "f32le";
        if (!big) {
            int st = (int)r.range(0, 7);
            if (mode == 3 && st == 1) { f.dtype = H5T_STD_U8LE; storage = "u8"; }
            if (mode == 3 && st == 2) { f.dtype = H5T_STD_I16BE; storage = "i16be"; }
            if (mode == 3 && st == 3) { f.dtype = H5T_STD_I8LE; storage = "i8"; }
            if (st == 4) { f.dtype = H5T_IEEE_F32BE; storage = "f32be"; }
            if (st == 5 && mode != 2) { f.dtype = H5T_IEEE_F64LE; storage = "f64le"; }
            f.chunked = r.chance(0.5); f.gzip = r.chance(0.3); f.shuffle = r.chance(0.3);
            f.mask = r.chance(0.2);
        }
        bool wide = !big && T != N && r.chance(0.15); // T == nchans looks like swapped labels
        int64_t W = N; // stored width may exceed nchans
        if (wide) {
            W = N + r.range(1, 9);
            all = rand_data(r, T * W, mode);
            f.dims[2] = W; f.data = all;
        }
        std::set<std::string> gone;
        if (!big) for (auto n : {"machine_id", "nbits", "nifs", "data_type", "az_start", "za_start"}) if (r.chance(0.15)) { f.erase(n); gone.insert(n); }
        bool swapped = !big && T != N && W == N && r.chance(0.1);
        if (swapped) f.set(str("DIMENSION_LABELS", {"frequency", "feed_id", "time"}, r.chance(0.5) ? Attr::VLEN : Attr::FIXED));
        int64_t nc, fp;
        if (fpc == 0) std::tie(nc, fp) = infer(N, m.foff, m.tsamp); else { fp = fpc; nc = N / fpc; }
        h.describe(cat("file T=", T, " N=", N, " width ", W, " fpc=", fpc, " -> ", nc, "x", fp, " ", storage, f.chunked ? " chunked" : "", f.gzip ? " gzip" : "", swapped ? " swapped labels" : "",
                       " foff ", m.foff, " tsamp ", m.tsamp, " absent optional ", gone.size()));
        auto path = scratch(h, "c01.h5");
        write_fb(path, f);
        scan sc = r.chance(0.5) ? scan(path, fpc) : scan(h5_filterbank_file(path), fpc);
        h.check(sc.get_number_coarse_channels() == nc && sc.nchans() == N && sc.ntsteps() == T, "scan-counts",
                [&] { return cat("coarse ", sc.get_number_coarse_channels(), " nchans ", sc.nchans(), " ntsteps ", sc.ntsteps(), " expected ", nc, " ", N, " ", T); });
        h.check(sc.fch1() == m.fch1 && sc.foff() == m.foff && sc.tsamp() == m.tsamp && sc.tstart() == m.tstart && sc.source_name() == m.source_name && sc.src_dej() == m.src_dej &&
                    sc.src_raj() == m.src_raj && sc.telescope_id() == m.telescope_id,
                "scan-metadata", [&] { return cat("fch1 ", sc.fch1(), " foff ", sc.foff(), " tsamp ", sc.tsamp(), " tstart ", sc.tstart(), " source '", sc.source_name(), "' dej ", sc.src_dej(), " raj ", sc.src_raj(), " tel ", sc.telescope_id()); });
        if (!gone.count("machine_id")) h.check(sc.machine_id() == m.machine_id, "scan-machine-id", [&] { return cat(sc.machine_id(), " expected ", m.machine_id); });
        if (!gone.count("nbits")) h.check(sc.nbits() == m.nbits, "scan-nbits", [&] { return cat(sc.nbits()); });
        if (!gone.count("nifs")) h.check(sc.nifs() == m.nifs, "scan-nifs", [&] { return cat(sc.nifs()); });
        if (!gone.count("data_type")) h.check(sc.data_type() == m.data_type, "scan-data-type", [&] { return cat(sc.data_type()); });
        if (!gone.count("az_start")) h.check(sc.az_start() == m.az_start, "scan-az", [&] { return cat(sc.az_start()); });
        if (!gone.count("za_start")) h.check(sc.za_start() == m.za_start, "scan-za", [&] { return cat(sc.za_start()); });
        h.check(close(sc.tduration_secs(), T * m.tsamp), "scan-duration", [&] { return cat(sc.tduration_secs(), " expected ", T * m.tsamp); });
        h.check(sc.get_file_path() == path, "scan-path", [&] { return sc.get_file_path(); });
        std::vector<int64_t> order;
        for (int64_t i = 0; i < nc; ++i) order.push_back(i);
        for (size_t i = 0; i < order.size(); ++i) std::swap(order[i], order[r.range(0, (int64_t)order.size() - 1)]);
        if (order.size() > 12) order.resize(12);
        if (!order.empty() && !big) order.push_back(order[0]);
        for (auto i : order) {
            auto cc = sc.read_coarse_channel((int)i);
            ChanModel cm{i, m.fch1 + m.foff * (double)(fp * i), slice_chan(all, T, W, i * fp, fp)};
            check_channel(h, cat("channel ", i), *cc, cm, m, T, fp);
            if (!gone.count("machine_id")) h.check(cc->machine_id() == m.machine_id, "channel-machine-id", [&] { return cat(cc->machine_id()); });
            if (!gone.count("az_start")) h.check(cc->az_start() == m.az_start, "channel-az", [&] { return cat(cc->az_start()); });
            if (!gone.count("za_start")) h.check(cc->za_start() == m.za_start, "channel-za", [&] { return cat(cc->za_start()); });
            h.check(cc->nifs() == 1 && cc->nbits() == 32 && cc->data_type() == 1, "channel-types", [&] { return cat(cc->nifs(), " ", cc->nbits(), " ", cc->data_type()); });
        }
        // arbitrary blocks read straight from the file
        h5_filterbank_file hf(path);
        h.check(hf.get_data_shape() == std::vector<int64_t>({T, 1, W}), "file-shape", [&] { return vec(hf.get_data_shape()); });
        for (int k = 0; k < (big ? 1 : 4); ++k) {
            int64_t t0 = r.range(0, T - 1), tn = r.range(1, T - t0), f0 = r.range(0, W - 1), fn = r.range(1, std::min<int64_t>(W - f0, 4096));
            auto blk = hf.read_data({t0, 0, f0}, {tn, 1, fn});
            std::vector<float> want;
            for (int64_t t = t0; t < t0 + tn; ++t) for (int64_t c = f0; c < f0 + fn; ++c) want.push_back(all[t * W + c]);
            auto got = fvals(blk);
            h.check(blk.shape() == std::vector<int64_t>({tn, fn}) && biteq(got, want), "file-block", [&] { return cat("block ", t0, "+", tn, " ", f0, "+", fn, " shape ", shp(blk), " ", firstdiff(got, want)); });
        }
        if (!big && r.chance(0.3)) {
            auto whole = hf.read_data();
            h.check(biteq(fvals(whole), all), "file-whole", [&] { return firstdiff(fvals(whole), all); });
        }
        h.nontrivial(cat(T, ",", N, ",", W, ",", fpc, ",", storage, mode, f.chunked, f.gzip, swapped, gone.size()));
        unlink(path.c_str());
    };
    h.cases("small", 700, 14000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(1, 8), N;
        int fpc;
        if (r.chance(0.3)) { N = r.range(1, 60); fpc = (int)r.range(1, N + 3); }
        else { fpc = (int)r.range(1, 40); N = fpc * r.range(1, 9); }
        if (r.chance(0.15)) fpc = 0;
        one(T, N, fpc, m, false);
    });
    // metadata corrected by hand: the scan reports it, channels read from then on carry it, copies and data are untouched
    h.cases("set", 300, 6000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t fp = r.range(1, 12), nc = r.range(1, 6), T = r.range(1, 4), N = fp * nc;
        std::vector<float> all = rand_data(r, T * N, 0);
        bool mem = r.chance(0.3);
        auto path = scratch(h, "set.h5");
        std::vector<std::vector<float>> chans;
        for (int64_t i = 0; i < nc; ++i) chans.push_back(slice_chan(all, T, N, i * fp, fp));
        if (!mem) write_fb(path, std_fb(T, N, m, all));
        scan sc = mem ? mem_scan(m, T, fp, chans, &r) : scan(path, (int)fp);
        auto judge = [&](const std::string &who, scan &s, const Meta &w, int64_t nchans) {
            h.check(s.fch1() == w.fch1 && s.foff() == w.foff && s.tsamp() == w.tsamp && s.tstart() == w.tstart, who + "-axes", [&] { return cat(s.fch1(), " ", s.foff(), " ", s.tsamp(), " ", s.tstart(), " expected ", w.fch1, " ", w.foff, " ", w.tsamp, " ", w.tstart); });
            h.check(s.source_name() == w.source_name && s.src_dej() == w.src_dej && s.src_raj() == w.src_raj && s.telescope_id() == w.telescope_id && s.machine_id() == w.machine_id, who + "-source",
                    [&] { return cat(s.source_name(), " ", s.src_dej(), " ", s.src_raj(), " ", s.telescope_id(), " ", s.machine_id(), " expected ", w.source_name, " ", w.src_dej, " ", w.src_raj, " ", w.telescope_id, " ", w.machine_id); });
            h.check(s.nbits() == w.nbits && s.nifs() == w.nifs && s.data_type() == w.data_type && s.az_start() == w.az_start && s.za_start() == w.za_start && s.nchans() == nchans && s.ntsteps() == T, who + "-rest",
                    [&] { return cat(s.nbits(), " ", s.nifs(), " ", s.data_type(), " ", s.az_start(), " ", s.za_start(), " ", s.nchans(), " ", s.ntsteps()); });
            h.check(close(s.tduration_secs(), T * w.tsamp), who + "-duration", [&] { return cat(s.tduration_secs(), " of ", T, " x ", w.tsamp); });
        };
        Meta now = m;
        int64_t nch = N;
        scan before = sc;
        std::vector<char> read((size_t)nc, mem);
        std::string prog;
        int steps = (int)r.range(1, 12);
        for (int k = 0; k < steps; ++k) {
            switch ((int)r.range(0, 16)) {
            case 0: sc.set_fch1(now.fch1 = r.uni(1, 12000)); prog += " fch1"; break;
            case 1: sc.set_foff(now.foff = r.normal()); prog += " foff"; break;
            case 2: sc.set_machine_id(now.machine_id = r.range(-1000, 1000)); prog += " machine_id"; break;
            case 3: sc.set_nbits(now.nbits = r.range(1, 64)); prog += " nbits"; break;
            case 4: sc.set_nifs(now.nifs = r.range(1, 4)); prog += " nifs"; break;
            case 5: sc.set_source_name(now.source_name = cat("s", r.range(0, 99))); prog += " source_name"; break;
            case 6: sc.set_src_dej(now.src_dej = r.uni(-90, 90)); prog += " src_dej"; break;
            case 7: sc.set_src_raj(now.src_raj = r.uni(0, 24)); prog += " src_raj"; break;
            case 8: sc.set_telescope_id(now.telescope_id = r.range(-5, 99)); prog += " telescope_id"; break;
            case 9: sc.set_tsamp(now.tsamp = r.uni(0.1, 20)); prog += " tsamp"; break;
            case 10: sc.set_tstart(now.tstart = r.uni(40000, 60000)); prog += " tstart"; break;
            case 11: sc.set_data_type(now.data_type = r.range(0, 9)); prog += " data_type"; break;
            case 12: sc.set_az_start(now.az_start = r.uni(0, 360)); prog += " az_start"; break;
            case 13: sc.set_za_start(now.za_start = r.uni(0, 90)); prog += " za_start"; break;
            case 14: sc.set_nchans(nch = r.range(1, 1000)); prog += " nchans"; break;
            default: { // read a channel: what is set by now is what it carries
                auto i = r.range(0, nc - 1);
                prog += cat(" read", i);
                auto cc = sc.read_coarse_channel((int)i);
                if (!read[(size_t)i]) {
                    ChanModel cm{i, now.fch1 + now.foff * (double)(fp * i), chans[(size_t)i]};
                    check_channel(h, cat("channel ", i, " after", prog), *cc, cm, now, T, fp);
                    h.check(cc->machine_id() == now.machine_id && cc->nbits() == now.nbits && cc->nifs() == now.nifs && cc->data_type() == now.data_type && cc->az_start() == now.az_start && cc->za_start() == now.za_start, "channel-after-set",
                            [&] { return cat(prog, ": ", cc->machine_id(), " ", cc->nbits(), " ", cc->nifs(), " ", cc->data_type(), " ", cc->az_start(), " ", cc->za_start()); });
                    read[(size_t)i] = 1;
                } else {
                    auto got = fvals(cc->data());
                    h.check(biteq(got, chans[(size_t)i]), "data-after-set", [&] { return firstdiff(got, chans[(size_t)i]); });
                }
            }
            }
            h.describe(cat(mem ? "memory" : "file", " scan T=", T, " fp=", fp, " x", nc, ":", prog));
            judge("set", sc, now, nch);
        }
        judge("copy-before-set", before, m, N);
        scan after = sc;
        judge("copy-after-set", after, now, nch);
        h.check(after.get_number_coarse_channels() == nc, "coarse-after-set", [&] { return cat(after.get_number_coarse_channels()); });
        h.nontrivial(h.desc);
        unlink(path.c_str());
    });
    h.cases("channelisations", 40, 400, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int which = (int)r.range(0, 5);
        int64_t T = r.range(1, 3), N;
        double sign = r.chance(0.5) ? -1 : 1;
        if (which <= 1) { m.foff = sign * .36621; m.tsamp = .00034953 + (r.chance(0.5) ? r.uni(-.0003, .09) : 0); N = r.chance(.7) ? 8 * r.range(1, 20) : r.range(8, 100); }
        else if (which == 2) { m.foff = sign * .00286; m.tsamp = r.pick({1.06, 1.02, 1.07, 1.07374, 1.3}); N = r.chance(.7) ? 1024 * r.range(1, 6) : r.range(1000, 5000); }
        else if (which == 3) { m.foff = sign * r.pick({2.84e-6, 2.93e-6, 2.79e-6, 5e-6}); m.tsamp = r.pick({17.98, 17.4, 18.25, 3.0}); N = r.pick({1033216, 999424, 1048576, 2 * 999424}); T = 1; }
        else if (which == 4) { m.foff = sign * 1e-5; N = r.pick({1 << 18, (1 << 18) * 2, (1 << 18) * 3 + 3 * 7, (1 << 18) + 5, (1 << 18) * 2 + 1, (1 << 18) - 1, (1 << 18) * 3}); T = 1; }
        else { m.foff = sign * 1e-5; N = r.pick({1000000, 2000000, 2000001, 1000010, 2000002, 2000014, 3000006}); T = 1; }
        one(T, N, 0, m, true);
    });
    // more fine channels than 32 bits count: the file is sparse, only the channels that are read hold anything
    h.cases("enormous", 60, 600, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        const int64_t G = int64_t(1) << 30;
        int64_t T = r.range(1, 3), N = r.pick({2 * G, 2 * G, 4 * G, 8 * G, r.range(G, 9 * G)}), fp, nc;
        int fpc = 0, which = (int)r.range(0, 5);
        m.foff = (r.chance(0.5) ? -1 : 1) * 1e-6 * r.uni(.1, 1.5);
        if (which <= 1) { fpc = (int)r.range(9, r.chance(0.5) ? 60 : 70000); N += r.range(0, 3 * fpc); }
        else if (which == 2) { m.foff *= .36621 / std::abs(m.foff); m.tsamp = .00034953; N = N / 8 * 8 + 8 * r.range(0, 9); }
        else if (which == 3) { m.foff *= .00286 / std::abs(m.foff); m.tsamp = r.pick({1.06, 1.02, 1.07}); N = N / 1024 * 1024 + 1024 * r.range(0, 9); }
        else if (which == 4) { m.foff *= 1e-5 / std::abs(m.foff); int64_t c = N / 1000000; N = c * (1000000 + r.range(0, 999999 / c)); }
        else { m.foff *= 1e-5 / std::abs(m.foff); int64_t c = N >> 18; N = c * ((int64_t(1) << 18) + r.range(0, ((int64_t(1) << 18) - 1) / c)); }
        m.fch1 = 8000;
        if (fpc) { fp = fpc; nc = N / fpc; } else std::tie(nc, fp) = infer(N, m.foff, m.tsamp);
        h.describe(cat("sparse file T=", T, " N=", N, " fpc=", fpc, " -> ", nc, "x", fp, " foff ", m.foff, " tsamp ", m.tsamp));
        auto path = scratch(h, "huge.h5");
        FB f = std_fb(T, 1, m, {});
        f.set(inum("nchans", N));
        f.no_data = true;
        write_fb(path, f);
        // where something is
        std::set<int64_t> marked;
        std::vector<int64_t> probes;
        for (int k = 0; k < 3; ++k) {
            int64_t i = r.pick({int64_t(0), nc - 1, 2 * G / fp, 2 * G / fp - 1, 2 * G / fp + 1, 4 * G / fp, r.range(0, nc - 1), r.range(0, nc - 1)});
            i = std::min(std::max<int64_t>(0, i), nc - 1);
            probes.push_back(i);
            for (int64_t j = std::max<int64_t>(0, i - 1); j <= std::min(nc - 1, i + 1); ++j) marked.insert(j);
        }
        auto value = [&](int64_t chan, int64_t t) { return (float)((chan * 31 + t * 7) % 65521); };
        {
            hid_t file = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
            hsize_t dims[3] = {(hsize_t)T, 1, (hsize_t)N}, chunk[3] = {(hsize_t)T, 1, 4096};
            hid_t sp = H5Screate_simple(3, dims, nullptr), pl = H5Pcreate(H5P_DATASET_CREATE);
            H5Pset_chunk(pl, 3, chunk);
            hid_t ds = H5Dcreate2(file, "data", H5T_IEEE_F32LE, sp, H5P_DEFAULT, pl, H5P_DEFAULT);
            if (ds < 0) throw std::logic_error("harness: cannot create dataset");
            for (auto &a : f.attrs) write_attr(ds, a);
            for (auto j : marked) {
                std::vector<float> v;
                for (int64_t t = 0; t < T; ++t) for (int64_t c = 0; c < fp; ++c) v.push_back(value(j * fp + c, t));
                hsize_t o[3] = {0, 0, (hsize_t)(j * fp)}, n[3] = {(hsize_t)T, 1, (hsize_t)fp};
                H5Sselect_hyperslab(sp, H5S_SELECT_SET, o, nullptr, n, nullptr);
                hid_t ms = H5Screate_simple(3, n, nullptr);
                if (H5Dwrite(ds, H5T_NATIVE_FLOAT, ms, sp, H5P_DEFAULT, v.data()) < 0) throw std::logic_error("harness: cannot write");
                H5Sclose(ms);
            }
            H5Dclose(ds); H5Pclose(pl); H5Sclose(sp); H5Fclose(file);
        }
        scan sc(path, fpc);
        h.check(sc.get_number_coarse_channels() == nc && sc.nchans() == N && sc.ntsteps() == T, "scan-counts",
                [&] { return cat("coarse ", sc.get_number_coarse_channels(), " nchans ", sc.nchans(), " ntsteps ", sc.ntsteps(), " expected ", nc, " ", N, " ", T); });
        for (auto i : probes) {
            int64_t from = std::max<int64_t>(0, i - r.range(0, 3)), of = std::min<int64_t>(nc - from, r.range(i - from + 1, i - from + 4));
            bool part = r.chance(0.4);
            scan s = part ? sc.slice_scan_channels(from, of) : sc;
            double fch1 = m.fch1 + m.foff * (double)(fp * i), mid = fch1 + m.foff * (fp * .5);
            int64_t at = part ? i - from : i;
            h.check(s.get_coarse_channel_with_frequency(mid) == at, "enormous-lookup", [&] { return cat(s.get_coarse_channel_with_frequency(mid), " expected ", at); });
            // a third of a fine channel inside either edge of the coarse channel
            double lo = fch1 + m.foff * .34, hi = fch1 + m.foff * (fp - .34);
            h.check(s.get_coarse_channel_with_frequency(lo) == at && s.get_coarse_channel_with_frequency(hi) == at, "enormous-edge-lookup", [&] { return cat(s.get_coarse_channel_with_frequency(lo), " ", s.get_coarse_channel_with_frequency(hi), " expected ", at); });
            auto cc = s.read_coarse_channel((int)at);
            std::vector<float> want;
            for (int64_t t = 0; t < T; ++t) for (int64_t c = 0; c < fp; ++c) want.push_back(value(i * fp + c, t));
            check_channel(h, cat(part ? "part of enormous scan, channel " : "channel ", i), *cc, ChanModel{i, fch1, want}, m, T, fp, !part);
            h.count("far_channels");
        }
        h5_filterbank_file hf(path);
        int64_t j = *std::next(marked.begin(), r.range(0, (int64_t)marked.size() - 1)), c0 = r.range(0, fp - 1), cn = r.range(1, fp - c0);
        auto blk = hf.read_data({0, 0, j * fp + c0}, {T, 1, cn});
        std::vector<float> want;
        for (int64_t t = 0; t < T; ++t) for (int64_t c = 0; c < cn; ++c) want.push_back(value(j * fp + c0 + c, t));
        h.check(biteq(fvals(blk), want), "file-block", [&] { return firstdiff(fvals(blk), want); });
        h.nontrivial(cat("enormous ", T, ",", N, ",", fpc));
        unlink(path.c_str());
    });
}

// a scan together with the original channels it denotes
struct Node { scan sc; std::vector<int64_t> ids; std::string desc; };

void C02(H &h) {
    quiet();
    h.rule = "a history of slices (nested and repeated, interleaved with reads) of a scan, target or cadence with every remaining channel compared with the original";
    auto orig = [&](Rng &r, bool file, const Meta &m, int64_t T, int64_t N, int64_t nc, std::vector<ChanModel> &chans, const std::string &name) {
        std::vector<float> all = rand_data(r, T * N * nc, 1);
        for (int64_t i = 0; i < nc; ++i) chans.push_back({i, m.fch1 + m.foff * (double)(N * i), slice_chan(all, T, N * nc, N * i, N)});
        if (file) {
            auto p = scratch(h, name);
            write_fb(p, std_fb(T, N * nc, m, all));
            return scan(p, (int)N);
        }
        std::vector<std::vector<float>> d;
        for (auto &c : chans) d.push_back(c.data);
        return mem_scan(m, T, N, d, &r);
    };
    auto verify = [&](Rng &r, Node &n, const Meta &m, const std::vector<ChanModel> &chans, int64_t T, int64_t N, bool full) {
        int64_t k = (int64_t)n.ids.size();
        h.check(n.sc.get_number_coarse_channels() == k, "slice-count", [&] { return cat(n.desc, ": ", n.sc.get_number_coarse_channels(), " coarse channels, expected ", k); });
        h.check(n.sc.nchans() == k * N, "slice-nchans", [&] { return cat(n.desc, ": nchans ", n.sc.nchans(), " expected ", k * N); });
        if (k) h.check(close(n.sc.fch1(), chans[n.ids[0]].fch1), "slice-fch1", [&] { return cat(n.desc, ": fch1 ", n.sc.fch1(), " expected ", chans[n.ids[0]].fch1); });
        h.check(n.sc.foff() == m.foff && n.sc.ntsteps() == T && n.sc.source_name() == m.source_name && n.sc.tstart() == m.tstart && n.sc.tsamp() == m.tsamp && n.sc.src_dej() == m.src_dej && n.sc.src_raj() == m.src_raj && n.sc.telescope_id() == m.telescope_id &&
                    close(n.sc.tduration_secs(), T * m.tsamp),
                "slice-metadata", [&] { return cat(n.desc, " duration ", n.sc.tduration_secs(), " expected ", T * m.tsamp); });
        for (int64_t i = 0; i < k; ++i) {
            if (!full && r.chance(0.5)) continue;
            auto cc = n.sc.read_coarse_channel((int)i);
            check_channel(h, cat(n.desc, " channel ", i), *cc, chans[n.ids[i]], m, T, N);
            double f = chans[n.ids[i]].fch1 + m.foff * N * r.uni(0.02, 0.98);
            int at = -1;
            try { at = n.sc.get_coarse_channel_with_frequency(f); } catch (const std::exception &e) {}
            h.check(at == i, "frequency-lookup", [&] { return cat(n.desc, ": frequency ", f, " in channel ", i, " found in ", at); });
            h.count("lookups");
        }
    };
    h.cases("scan", 1500, 30000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        bool file = r.chance(0.5);
        int64_t T = r.range(1, 4), N = r.range(1, 12), nc = r.range(1, 9);
        if (r.chance(0.02)) N = r.range(1, 3), nc = r.pick<int64_t>({33, 40, 65, 129, 300});
        std::vector<ChanModel> chans;
        std::vector<Node> nodes;
        h.describe(cat(file ? "file" : "memory", " scan of ", nc, " channels"));
        nodes.push_back({orig(r, file, m, T, N, nc, chans, "c02.h5"), {}, "original"});
        for (int64_t i = 0; i < nc; ++i) nodes[0].ids.push_back(i);
        std::string hist = h.desc;
        for (int step = 0; step < 8; ++step) {
            size_t from = r.range(0, (int64_t)nodes.size() - 1);
            if (r.chance(0.3) && !nodes[from].ids.empty()) { // touch a channel first, so caches differ
                auto cc = nodes[from].sc.read_coarse_channel((int)r.range(0, (int64_t)nodes[from].ids.size() - 1));
                if (r.chance(0.5)) (void)cc->data();
            }
            int64_t k = (int64_t)nodes[from].ids.size();
            int64_t s = r.range(0, k), c = r.chance(0.15) ? -1 : r.range(0, k - s);
            auto ns = nodes[from].sc.slice_scan_channels(s, c);
            Node n{ns, {}, cat(nodes[from].desc, "[", s, ",", c, "]")};
            int64_t e = c == -1 ? k : s + c;
            for (int64_t i = s; i < e; ++i) n.ids.push_back(nodes[from].ids[i]);
            hist += " " + n.desc;
            h.describe(hist);
            nodes.push_back(n);
            verify(r, nodes.back(), m, chans, T, N, false);
        }
        for (auto &n : nodes) verify(r, n, m, chans, T, N, true); // originals and intermediate slices are unaffected
        if (nc > 1) h.nontrivial(hist);
    });
    h.cases("target", 500, 10000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(1, 3), N = r.range(1, 8), nc = r.range(1, 6), nobs = r.range(1, 3);
        std::vector<std::vector<std::vector<ChanModel>>> chans(nobs);
        std::vector<std::vector<Meta>> metas(nobs);
        std::vector<observation_target> obs;
        int id = 0;
        bool files = r.chance(0.4);
        std::vector<std::vector<std::string>> paths(nobs);
        for (int64_t o = 0; o < nobs; ++o) {
            int64_t ns = r.range(1, 3);
            chans[o].resize(ns);
            std::vector<scan> scs;
            for (int64_t s = 0; s < ns; ++s) {
                Meta ms = m;
                ms.source_name = cat("S", o);
                ms.tstart = m.tstart + id;
                metas[o].push_back(ms);
                auto nm = cat("c02_", id++, ".h5");
                paths[o].push_back(scratch(h, nm));
                scs.push_back(orig(r, files || r.chance(0.3), ms, T, N, nc, chans[o][s], nm));
            }
            obs.push_back(files && r.chance(0.5) ? observation_target(paths[o], (int)N) : observation_target(scs));
        }
        cadence cad = files && r.chance(0.5) ? cadence(paths, (int)N) : cadence(obs);
        int64_t s1 = r.range(0, nc - 1), c1 = r.range(1, nc - s1), s2 = r.range(0, c1 - 1), c2 = r.chance(0.2) ? -1 : r.range(1, c1 - s2);
        h.describe(cat("cadence of ", nobs, " targets, ", nc, " channels, slices [", s1, ",", c1, "][", s2, ",", c2, "] files ", files));
        auto a = cad.slice_cadence_channels(s1, c1);
        auto b = a.slice_cadence_channels(s2, c2);
        if (c2 == -1) c2 = c1 - s2;
        h.check(b._observations.size() == (size_t)nobs && a._observations.size() == (size_t)nobs, "cadence-slice-targets", [&] { return cat(b._observations.size()); });
        h.check(b.get_number_coarse_channels() == c2 && a.get_number_coarse_channels() == c1 && cad.get_number_coarse_channels() == nc, "cadence-slice-count", [&] { return cat(b.get_number_coarse_channels()); });
        for (int64_t o = 0; o < nobs; ++o) {
            auto t1 = obs[o].slice_observation_channels(s1, c1);
            h.check(t1._scans.size() == metas[o].size() && t1._target_name == obs[o]._target_name && b._observations[o]._target_name == obs[o]._target_name, "target-slice", [&] { return cat(t1._target_name, " ", t1._scans.size()); });
            if (t1._scans.size() != metas[o].size() || b._observations[o]._scans.size() != metas[o].size()) continue;
            for (size_t s = 0; s < metas[o].size(); ++s) {
                auto range = [](int64_t st, int64_t n) { std::vector<int64_t> v; for (int64_t i = 0; i < n; ++i) v.push_back(st + i); return v; };
                Node n1{t1._scans[s], range(s1, c1), cat("target ", o, " scan ", s, " slice 1")}, n2{b._observations[o]._scans[s], range(s1 + s2, c2), cat("cadence ", o, " scan ", s, " slice 2")},
                    n0{cad._observations[o]._scans[s], range(0, nc), cat("cadence ", o, " scan ", s, " original")};
                verify(r, n2, metas[o][s], chans[o][s], T, N, true);
                verify(r, n1, metas[o][s], chans[o][s], T, N, true);
                verify(r, n0, metas[o][s], chans[o][s], T, N, false);
            }
            // a lookup on target and cadence names the same channel
            double f = chans[o][0][s1 + s2].fch1 + m.foff * N * 0.5;
            h.check(b.get_coarse_channel_with_frequency(f) == 0 && cad.get_coarse_channel_with_frequency(f) == s1 + s2 && t1.get_coarse_channel_with_frequency(f) == s2, "cadence-lookup",
                    [&] { return cat(f, ": ", b.get_coarse_channel_with_frequency(f), " ", cad.get_coarse_channel_with_frequency(f)); });
        }
        for (auto &p : paths) for (auto &q : p) unlink(q.c_str());
        h.nontrivial(h.desc);
    });
}

void C03(H &h) {
    quiet();
    h.rule = "a scan (file, memory, memory with holes, slice of either) asked for in-range and out-of-range channels, slices and frequencies, including the extremes of the integer types";
    h.cases("scan", 3000, 60000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(1, 3), N = r.range(1, 8), nc = r.range(1, 7);
        int kind = (int)r.range(0, 2); // file, memory, memory with holes
        std::vector<float> all = rand_data(r, T * N * nc, 1);
        std::set<int64_t> have;
        std::vector<Node> nodes;
        scan base;
        if (kind == 0) {
            auto p = scratch(h, "c03.h5");
            int64_t extra = r.range(0, N - 1); // an incomplete last coarse channel is not a channel
            std::vector<float> wide;
            for (int64_t t = 0; t < T; ++t) { for (int64_t c = 0; c < N * nc; ++c) wide.push_back(all[t * N * nc + c]); for (int64_t c = 0; c < extra; ++c) wide.push_back(-1); }
            write_fb(p, std_fb(T, N * nc + extra, m, wide));
            base = scan(p, (int)N);
            for (int64_t i = 0; i < nc; ++i) have.insert(i);
            h.describe(cat("file scan ", nc, " channels of ", N, " + ", extra));
        } else {
            std::map<int, std::shared_ptr<coarse_channel>> ccs;
            int64_t key = 0;
            for (int64_t i = 0; i < nc; ++i) {
                have.insert(key);
                ccs[(int)key] = std::make_shared<coarse_channel>(make_cc(f32({T, N}, slice_chan(all, T, N * nc, N * i, N)), u8({T, N}, std::vector<uint8_t>(T * N, 0)), m, T, N, key));
                key += kind == 2 ? r.range(1, 3) : 1;
            }
            base = scan(ccs);
            h.describe(cat(kind == 2 ? "memory scan with holes, keys " : "memory scan, keys ", vec(std::vector<int64_t>(have.begin(), have.end()))));
        }
        std::string hist = h.desc;
        struct S { scan sc; int64_t off, n; std::string d; };
        std::vector<S> ss{{base, 0, nc, "scan"}};
        int bad = 0;
        for (int step = 0; step < 25; ++step) {
            size_t w = r.range(0, (int64_t)ss.size() - 1);
            int64_t n = ss[w].n, off = ss[w].off;
            int what = (int)r.range(0, 2);
            if (what == 0) {
                int64_t i = r.chance(0.25) ? r.pick({(int64_t)INT32_MIN, (int64_t)INT32_MAX, (int64_t)-1, n, n + 1, -off, (int64_t)-2, nc - off}) : r.range(-2, n + 2);
                bool ok = i >= 0 && i < n && have.count(i + off);
                h.describe(cat(hist, "; ", ss[w].d, " read ", i));
                std::shared_ptr<coarse_channel> cc;
                std::string why;
                bool ref = refused([&] { cc = ss[w].sc.read_coarse_channel((int)i); if (cc) { (void)cc->data(); (void)cc->mask(); } }, &why);
                h.check(ref == !ok, ok ? "existing-channel-refused" : "missing-channel-accepted", [&] { return cat(h.desc, " ", why); });
                if (!ref && ok) {
                    h.check(cc->_coarse_channel_number == i + off, "wrong-channel", [&] { return cat(h.desc, " gave channel ", cc->_coarse_channel_number); });
                    if (kind == 0) h.check(biteq(fvals(cc->data()), slice_chan(all, T, N * nc, N * (i + off), N)), "wrong-channel-data", [&] { return h.desc; });
                }
                bad += !ok;
                std::shared_ptr<coarse_channel> pk;
                bool pref = refused([&] { pk = ss[w].sc.peak_coarse_channel((int)i); });
                h.check(i >= 0 && i < n ? !pref : (pref || !pk), "peek-range", [&] { return cat(h.desc, " peek ", pref, " ", (bool)pk); });
                if (pk) h.check(pk->_coarse_channel_number == i + off, "peek-wrong-channel", [&] { return h.desc; });
            } else if (what == 1) {
                auto ext = [&] { return r.pick({(int64_t)INT64_MAX, (int64_t)INT64_MIN, (int64_t)INT32_MAX, (int64_t)1 << 32, ((int64_t)1 << 32) + 1, (int64_t)-1, (int64_t)-2}); };
                int64_t s = r.chance(0.2) ? ext() : r.range(-1, n + 1), c = r.chance(0.2) ? ext() : r.range(-1, n + 1);
                bool ok;
                if (s < 0 || s > n) ok = false;
                else if (c == -1) { c = n - s; ok = true; if (r.chance(0.5)) c = -1; }
                else ok = c >= 0 && c <= n - s;
                h.describe(cat(hist, "; ", ss[w].d, " slice ", s, ",", c));
                scan out;
                std::string why;
                bool ref = refused([&] { out = ss[w].sc.slice_scan_channels(s, c); }, &why);
                h.check(ref == !ok, ok ? "valid-slice-refused" : "invalid-slice-accepted", [&] { return cat(h.desc, " ", why); });
                bool tref = refused([&] { observation_target t(std::vector<scan>{ss[w].sc}); auto o = t.slice_observation_channels(s, c); });
                bool cref = refused([&] { cadence t(std::vector<observation_target>{observation_target(std::vector<scan>{ss[w].sc})}); auto o = t.slice_cadence_channels(s, c); });
                h.check(tref == !ok && cref == !ok, "target-slice-range", [&] { return cat(h.desc, " target refused ", tref, " cadence refused ", cref); });
                if (!ref && ok && ss.size() < 6) { int64_t k = c == -1 ? n - s : c; ss.push_back({out, off + s, k, cat(ss[w].d, "[", s, ",", c, "]")}); }
                bad += !ok;
            } else if (kind != 2) {
                double lo = m.fch1 + m.foff * N * (double)off, span = m.foff * N * (double)n;
                double f; bool ok;
                int fk = (int)r.range(0, 3);
                if (fk == 0) { f = lo + span * r.uni(0.01, 0.99); ok = n > 0; }
                else if (fk == 1) { f = lo - m.foff * N * r.uni(0.05, 3); ok = false; }
                else if (fk == 2) { f = lo + span + m.foff * N * r.uni(0.05, 3); ok = false; }
                else { f = r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY, 1e300, -1e300}); ok = false; }
                h.describe(cat(hist, "; ", ss[w].d, " frequency ", f));
                int at = -1;
                bool ref = refused([&] { at = ss[w].sc.get_coarse_channel_with_frequency(f); });
                h.check(ref == !ok, ok ? "inside-frequency-refused" : "outside-frequency-accepted", [&] { return cat(h.desc, " gave ", at); });
                if (ok && !ref) h.check(at == (int)std::floor((f - lo) / (m.foff * N)), "wrong-frequency-channel", [&] { return cat(h.desc, " gave ", at); });
                bad += !ok;
            }
        }
        h.count("out_of_range_requests", bad);
        if (bad) h.nontrivial(cat(kind, nc, T, N, bad, "/", h.rng.next() % 64));
        if (kind == 0) unlink(scratch(h, "c03.h5").c_str());
    });
    h.cases("blocks", 600, 12000, [&] {
        Rng &r = h.rng;
        int64_t T = r.range(1, 5), N = r.range(1, 20);
        std::vector<float> all = rand_data(r, T * N, 1);
        auto p = scratch(h, "c03b.h5");
        write_fb(p, std_fb(T, N, rand_meta(r), all));
        h5_filterbank_file hf(p);
        for (int k = 0; k < 12; ++k) {
            auto e = [&](int64_t n) { return r.chance(0.15) ? r.pick({(int64_t)INT64_MAX, (int64_t)INT64_MIN, (int64_t)1 << 32, (int64_t)-1}) : r.range(-1, n + 1); };
            std::vector<int64_t> o{e(T), r.chance(0.9) ? 0 : e(1), e(N)}, c{e(T), r.chance(0.9) ? 1 : e(1), e(N)};
            if (r.chance(0.05)) o.pop_back();
            if (r.chance(0.05)) c.push_back(1);
            int64_t dims[3] = {T, 1, N};
            auto o_given = o, c_given = c; // nothing given: from the start, as far as it goes
            if (r.chance(0.15)) { o_given.clear(); o = {0, 0, 0}; }
            if (r.chance(0.15)) { c_given.clear(); c = {}; for (size_t d = 0; d < 3 && d < o.size(); ++d) c.push_back(o[d] < 0 || o[d] > dims[d] ? -1 : dims[d] - o[d]); }
            bool ok = o.size() == 3 && c.size() == 3;
            for (int d = 0; ok && d < 3; ++d) ok = o[d] >= 0 && o[d] < dims[d] && c[d] >= 1 && c[d] <= dims[d] - o[d];
            h.describe(cat("T ", T, " N ", N, " block at ", vec(o_given), " of ", vec(c_given)));
            bland::ndarray b;
            bool ref = refused([&] { b = hf.read_data(o_given, c_given); });
            h.check(ref == !ok, ok ? "valid-block-refused" : "invalid-block-accepted", [&] { return h.desc; });
            if (ok && !ref) {
                std::vector<float> w;
                for (int64_t t = 0; t < c[0]; ++t) for (int64_t f = 0; f < c[2]; ++f) w.push_back(all[(o[0] + t) * N + o[2] + f]);
                h.check(biteq(fvals(b), w), "block-data", [&] { return firstdiff(fvals(b), w); });
            }
        }
        h.nontrivial(cat(T, "x", N, h.desc));
        unlink(p.c_str());
    });
}

// ---------------------------------------------------------------------------------------------------------------- C05
struct NumVal { bool is_int; bool neg; uint64_t mag; double d; }; // exact value of an attribute as stored
template <class T> bool fits_exact(const NumVal &v, T *out) {
    if (v.is_int) {
        if constexpr (std::is_floating_point_v<T>) { *out = v.neg ? (T)(-(double)v.mag) : (T)v.mag; return true; } // nearest
        else {
            if (v.neg) { if (!std::is_signed_v<T> || v.mag > (uint64_t)std::numeric_limits<T>::max() + 1) return false; *out = (T)(0 - v.mag); return true; }
            if (v.mag > (uint64_t)std::numeric_limits<T>::max()) return false;
            *out = (T)v.mag;
            return true;
        }
    } else {
        if constexpr (std::is_floating_point_v<T>) { *out = (T)v.d; return true; }
        else {
            if (!(v.d == std::trunc(v.d)) || !(std::abs(v.d) < 1.8446744073709552e19)) return false;
            NumVal w{true, v.d < 0, (uint64_t)std::abs(v.d), 0};
            return fits_exact<T>(w, out);
        }
    }
}
struct StoredNum { Attr a; bool single_numeric; NumVal v; std::string d; };
hid_t half_type() {
    static hid_t t = [] {
        hid_t x = H5Tcopy(H5T_IEEE_F32LE);
        H5Tset_fields(x, 15, 10, 5, 0, 10);
        H5Tset_precision(x, 16);
        H5Tset_ebias(x, 15);
        H5Tset_size(x, 2);
        return x;
    }();
    return t;
}
StoredNum stored_num(Rng &r, const std::string &name) {
    StoredNum s;
    s.single_numeric = true;
    int k = (int)r.range(0, 13);
    auto put = [&](auto v, hid_t type, hid_t mem) { s.a.name = name; s.a.type = type; s.a.memtype = mem; s.a.raw.resize(sizeof v); memcpy(s.a.raw.data(), &v, sizeof v); };
    if (k <= 5) {
        int w = (int)r.range(0, 3);
        bool sg = r.chance(0.5), be = r.chance(0.5);
        static const hid_t tt[2][2][4] = {{{H5T_STD_U8LE, H5T_STD_U16LE, H5T_STD_U32LE, H5T_STD_U64LE}, {H5T_STD_U8BE, H5T_STD_U16BE, H5T_STD_U32BE, H5T_STD_U64BE}},
                                          {{H5T_STD_I8LE, H5T_STD_I16LE, H5T_STD_I32LE, H5T_STD_I64LE}, {H5T_STD_I8BE, H5T_STD_I16BE, H5T_STD_I32BE, H5T_STD_I64BE}}};
        int bits = 8 << w;
        uint64_t raw = r.chance(0.5) ? r.next() : r.pick({(uint64_t)0, (uint64_t)1, (uint64_t)5, ~(uint64_t)0, (uint64_t)1 << (bits - 1), ((uint64_t)1 << (bits - 1)) - 1, (uint64_t)127, (uint64_t)128, (uint64_t)255});
        if (bits < 64) raw &= ((uint64_t)1 << bits) - 1;
        if (sg) {
            int64_t v = bits == 64 ? (int64_t)raw : (int64_t)(raw << (64 - bits)) >> (64 - bits);
            put(v, tt[1][be][w], H5T_NATIVE_INT64);
            s.v = {true, v < 0, v < 0 ? (uint64_t)0 - (uint64_t)v : (uint64_t)v, 0};
        } else {
            put(raw, tt[0][be][w], H5T_NATIVE_UINT64);
            s.v = {true, false, raw, 0};
        }
        s.d = cat(sg ? "i" : "u", bits, be ? "be" : "le", " ", s.v.neg ? "-" : "", s.v.mag);
    } else if (k <= 9) {
        double v = r.pick({0.0, 1.0, -1.0, 6.0, 255.0, 256.0, -128.0, 32767.0, 1e9, 4294967295.0, 9007199254740992.0, 0.5, 2.75, -0.25, 1e300, 9.3e18, 1.9e19, -9.223372036854775808e18});
        int kind = (int)r.range(0, 4);
        if (kind == 4) { v = r.pick({0.0, 1.0, -2.0, 0.5, 1024.0}); put(v, half_type(), H5T_NATIVE_DOUBLE); }
        else {
            if (kind <= 1 && std::abs(v) > 1e38) v = 3;
            static const hid_t tt[4] = {H5T_IEEE_F32LE, H5T_IEEE_F32BE, H5T_IEEE_F64LE, H5T_IEEE_F64BE};
            put(v, tt[kind], H5T_NATIVE_DOUBLE);
            if (kind <= 1) v = (float)v;
        }
        s.v = {false, false, 0, v};
        s.d = cat("float kind ", kind, " ", v);
    } else {
        s.single_numeric = false;
        s.v = {true, false, 0, 0};
        if (k == 10) { s.a = str(name, {"12"}, r.chance(0.5) ? Attr::VLEN : Attr::FIXED, 0, H5T_STR_NULLTERM, r.chance(0.5)); s.d = "string"; }
        else if (k == 11) {
            int n = (int)r.range(1, 3);
            put((int64_t)7, H5T_STD_I32LE, H5T_NATIVE_INT64);
            std::vector<int64_t> v;
            for (int i = 0; i < n; ++i) v.push_back(7 + i);
            s.a.raw.resize(8 * n); memcpy(s.a.raw.data(), v.data(), 8 * n); s.a.dims = {(hsize_t)n};
            s.single_numeric = n == 1; s.v = {true, false, 7, 0};
            s.d = cat("array of ", n);
        } else if (k == 12) { put((int64_t)7, H5T_STD_I64LE, H5T_NATIVE_INT64); s.a.null_space = true; s.d = "no value"; }
        else {
            int w = (int)r.range(0, 2);
            if (w == 0) { hid_t t = H5Tcreate(H5T_COMPOUND, 16); H5Tinsert(t, "a", 0, H5T_NATIVE_INT64); H5Tinsert(t, "b", 8, H5T_NATIVE_INT64); s.a.name = name; s.a.type = s.a.memtype = t; s.a.raw.assign(16, 1); s.d = "compound"; }
            else if (w == 1) { hid_t t = H5Tcreate(H5T_OPAQUE, 40); H5Tset_tag(t, "x"); s.a.name = name; s.a.type = s.a.memtype = t; s.a.raw.assign(40, 1); s.d = "opaque"; }
            else { hsize_t n = 6; hid_t t = H5Tarray_create2(H5T_NATIVE_DOUBLE, 1, &n); s.a.name = name; s.a.type = s.a.memtype = t; s.a.raw.assign(48, 0); s.d = "array type"; }
        }
    }
    return s;
}
template <class T> void attr_as(H &h, h5_filterbank_file &f, const StoredNum &s, const char *tn) {
    T got{}, want{};
    bool ref = refused([&] { got = f.read_data_attr<T>("x"); });
    h.count(ref ? "attributes_refused" : "attributes_converted");
    if (ref) return;
    if (!h.check(s.single_numeric, "non-number-read-as-number", [&] { return cat(s.d, " as ", tn, " gave ", +got); })) return;
    bool ok = fits_exact<T>(s.v, &want);
    h.check(ok && got == want, "attribute-value", [&] { return cat(s.d, " as ", tn, " gave ", +got, ok ? cat(" expected ", +want) : std::string(" but does not fit")); });
}

struct StoredStr { Attr a; bool single = true; std::string v, d; };
StoredStr stored_str(Rng &r, const std::string &name) {
    StoredStr s;
    std::string v;
    int n = (int)r.pick({0, 1, 5, 9, 40, 300});
    for (int i = 0; i < n; ++i) v += (char)r.range(33, 126);
    if (n > 3 && r.chance(0.3)) v[n / 2] = ' ';
    if (r.chance(0.1)) v += "\xc3\xa9"; // utf-8
    int k = (int)r.range(0, 6);
    H5T_str_t pad = r.pick({H5T_STR_NULLTERM, H5T_STR_NULLPAD, H5T_STR_SPACEPAD});
    if (k <= 2) s.a = str(name, {v}, Attr::FIXED, r.chance(0.5) ? v.size() + r.range(0, 20) : 0, pad, r.chance(0.5));
    else if (k <= 4) s.a = str(name, {v}, Attr::VLEN, 0, pad, r.chance(0.5));
    else if (k == 5) { s.a = str(name, {v, "other"}, r.chance(0.5) ? Attr::VLEN : Attr::FIXED); s.single = false; }
    else { s.a = r.chance(0.5) ? inum(name, 1234567890123) : num(name, 2.5); s.single = false; }
    if (r.chance(0.3)) s.a.cset = H5T_CSET_UTF8;
    s.v = v;
    s.d = cat("string kind ", k, " pad ", (int)pad, " width ", s.a.width, " '", v.substr(0, 40), "'");
    return s;
}

// run body in a child and classify how it ended; the child's sanitizer report goes to a file
struct ChildEnd { int kind; std::string detail, key; }; // 0 fine, 1 crash in our code, 2 crash inside libhdf5, 3 timeout
ChildEnd in_child(H &h, const std::function<int()> &body) {
    auto ef = scratch(h, "child.err");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        struct itimerval t {};
        setitimer(ITIMER_PROF, &t, nullptr);
        signal(SIGPROF, SIG_DFL);
        struct rlimit rl { 20, 21 };
        setrlimit(RLIMIT_CPU, &rl);
        int rc = 50;
        try { rc = body(); } catch (const std::exception &e) { rc = 50; } catch (const H5::Exception &e) { rc = 50; } catch (...) { rc = 51; }
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 50)) { h.count(WEXITSTATUS(st) ? "corrupt_refused" : "corrupt_accepted"); return {0, "", ""}; }
    std::string err;
    if (FILE *f = fopen(ef.c_str(), "r")) { char b[65536]; size_t n = fread(b, 1, sizeof b, f); err.assign(b, n); fclose(f); }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return {3, err, "timeout"};
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 90) return {1, err, cat("wrong-data-", WEXITSTATUS(st))};
    // innermost frame outside the sanitizer runtime and libc, of the report itself and of the allocation it is about
    auto in_hdf5 = [&](size_t from) {
        std::istringstream is(err.substr(from));
        std::string line;
        while (std::getline(is, line)) {
            if (line.find("#") == std::string::npos || line.find(" 0x") == std::string::npos) continue;
            if (line.find("libsanitizer") != std::string::npos || line.find("libasan") != std::string::npos || line.find("/libc.so") != std::string::npos || line.find("interceptor") != std::string::npos || line.find("sysdeps/") != std::string::npos) continue;
            return line.find("libhdf5") != std::string::npos || line.find("libz.") != std::string::npos;
        }
        return false;
    };
    size_t al   = err.find("allocated by");
    bool third  = in_hdf5(0);
    bool owned  = al != std::string::npos && !in_hdf5(al);
    size_t st_pos = err.find("located in stack of");
    if (st_pos != std::string::npos && !in_hdf5(st_pos)) owned = true;
    // HDF5 reads from memory of ours only the selections and dataspace sizes it is given; anything else it reads is its own
    // metadata, chunk or file buffer, whatever allocation the wild address of a corrupted file happens to fall next to
    bool is_read = err.find("\nREAD of size") != std::string::npos || err.find("caused by a READ") != std::string::npos;
    if (third && is_read && err.find("H5Sselect") == std::string::npos && err.find("H5Screate") == std::string::npos) owned = false;
    if (third && !owned) return {2, err, "hdf5"};
    std::string key = "corrupt-file-";
    size_t e = err.find("ERROR: AddressSanitizer");
    if (e != std::string::npos) key += err.substr(e + 25, err.find_first_of(" \n", e + 25) - e - 25);
    else if (err.find("runtime error") != std::string::npos) key += "ub";
    else key += cat("status-", st);
    return {1, err.substr(0, 3500), key};
}

void C05(H &h) {
    quiet();
    h.rule = "an attribute storage variant read as every type, a dataset/label/attribute variant opened and read, or a truncated or corrupted file opened and read in a child process";
    h.cases("attribute", 2000, 30000, [&] {
        Rng &r = h.rng;
        auto p = scratch(h, "c05.h5");
        FB f = std_fb(2, 3, Meta{}, {1, 2, 3, 4, 5, 6});
        auto s  = stored_num(r, "x");
        auto ss = stored_str(r, "y");
        f.attrs.push_back(s.a);
        f.attrs.push_back(ss.a);
        h.describe(cat("attribute ", s.d, "; ", ss.d));
        write_fb(p, f);
        h5_filterbank_file hf(p);
        attr_as<double>(h, hf, s, "double");
        if (!(s.v.is_int == false && std::abs(s.v.d) > 1e38)) attr_as<float>(h, hf, s, "float");
        attr_as<int8_t>(h, hf, s, "int8"); attr_as<int16_t>(h, hf, s, "int16"); attr_as<int32_t>(h, hf, s, "int32"); attr_as<int64_t>(h, hf, s, "int64");
        attr_as<uint8_t>(h, hf, s, "uint8"); attr_as<uint16_t>(h, hf, s, "uint16"); attr_as<uint32_t>(h, hf, s, "uint32"); attr_as<uint64_t>(h, hf, s, "uint64");
        for (int twice = 0; twice < 2; ++twice) {
            std::string got;
            bool ref = refused([&] { got = hf.read_data_attr<std::string>("y"); });
            if (!ref) {
                std::string want = ss.v;
                if (ss.a.pad == H5T_STR_SPACEPAD && ss.a.kind == Attr::FIXED) want.erase(want.find_last_not_of(' ') + 1);
                h.check(ss.single && got == want, "string-value", [&] { return cat(ss.d, " gave '", got, "' expected '", want, "'"); });
            } else h.check(!ss.single, "string-refused", [&] { return cat(ss.d); });
        }
        h.check(refused([&] { (void)hf.read_data_attr<double>("y"); }) || ss.a.kind == Attr::RAW, "string-read-as-number", [&] { return ss.d; });
        h.check(refused([&] { (void)hf.read_data_attr<double>("nothere"); }) && refused([&] { (void)hf.read_data_attr<std::string>("nothere"); }), "missing-attribute-read", [&] { return std::string(); });
        if (s.single_numeric || !ss.single) h.nontrivial(s.d + ss.d);
        unlink(p.c_str());
    });
    h.cases("structure", 2000, 30000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int64_t T = r.range(1, 4), N = r.range(1, 16);
        std::vector<float> all = rand_data(r, T * N, 1);
        FB f = std_fb(T, N, m, all);
        int fpc = r.chance(0.3) ? 0 : (int)r.range(1, N);
        std::string d;
        bool must_refuse = false;       // not openable as a whole
        bool exact = true;              // when opened, the model below applies
        int64_t nch = N;
        switch (r.range(0, 13)) {
        case 0: f.no_data = true; must_refuse = true; d = "no dataset"; break;
        case 1: f.data_is_group = true; must_refuse = true; d = "group"; break;
        case 2: {
            int k = (int)r.range(0, 4);
            f.dims = k == 0 ? std::vector<hsize_t>{(hsize_t)(T * N)} : k == 1 ? std::vector<hsize_t>{(hsize_t)T, (hsize_t)N} : k == 2 ? std::vector<hsize_t>{(hsize_t)T, 1, 1, (hsize_t)N} : k == 3 ? std::vector<hsize_t>{0, 1, (hsize_t)N} : std::vector<hsize_t>{(hsize_t)T, 1, 0};
            if (k >= 3) f.data.clear();
            if (r.chance(0.5) && k < 3) { std::vector<std::string> l{"time", "feed_id", "frequency", "other"}; l.resize(f.dims.size()); f.set(str("DIMENSION_LABELS", l)); }
            must_refuse = true;
            d = cat("shape ", vec(f.dims));
            break;
        }
        case 3: f.data_scalar = true; f.data = {1}; must_refuse = true; d = "scalar dataset"; break;
        case 4: { int64_t feeds = r.range(2, 3); f.dims[1] = feeds; f.data = rand_data(r, T * N * feeds, 1); must_refuse = true; d = "two feeds"; break; }
        case 5: {
            auto l = r.pick({std::vector<std::string>{"time", "feed_id"}, std::vector<std::string>{"time", "feed_id", "frequency", "x"}, std::vector<std::string>{"time", "time", "frequency"},
                             std::vector<std::string>{"feed_id", "time", "frequency"}, std::vector<std::string>{"a", "b", "c"}, std::vector<std::string>{"time", "frequency", "feed_id"}, std::vector<std::string>{}, std::vector<std::string>{"time", "feed_id", "feed_id"}});
            if (l.empty()) { if (r.chance(0.5)) f.set(inum("DIMENSION_LABELS", 3)); else f.erase("DIMENSION_LABELS"); }
            else f.set(str("DIMENSION_LABELS", l, r.chance(0.5) ? Attr::VLEN : Attr::FIXED));
            must_refuse = true;
            d = cat("labels ", l.size());
            break;
        }
        case 6: {
            int64_t k = r.pick({(int64_t)-1, (int64_t)0, N + 1, (int64_t)1 << 40, (int64_t)INT64_MIN, (int64_t)INT64_MAX, (int64_t)1 << 32, ((int64_t)1 << 32) + 1});
            f.set(inum("nchans", k)); must_refuse = true; d = cat("nchans ", k);
            break;
        }
        case 7: {
            auto n = r.pick({"fch1", "foff", "source_name", "src_dej", "src_raj", "telescope_id", "tsamp", "tstart", "nchans", "DIMENSION_LABELS"});
            f.erase(n); must_refuse = true; d = cat("no ", n);
            break;
        }
        case 8: {
            auto n = r.pick({"fch1", "foff", "src_dej", "src_raj", "tsamp", "tstart"});
            f.set(r.chance(0.5) ? str(n, {"abc"}) : [&] { auto a = num(n, 1); a.null_space = true; return a; }());
            must_refuse = true; d = cat("malformed ", n);
            break;
        }
        case 9: {
            auto n = r.pick({"machine_id", "nbits", "nifs", "data_type", "az_start", "za_start"});
            f.set(r.chance(0.5) ? str(n, {"abc"}) : inum(n, r.pick({(int64_t)-1, (int64_t)INT64_MAX, (int64_t)0}))); d = cat("odd optional ", n);
            break;
        }
        case 10: fpc = r.pick({-1, INT32_MIN, -7}); must_refuse = true; d = cat("fpc ", fpc); break;
        case 11: fpc = r.pick({(int)N + 1, INT32_MAX, (int)N * 2}); d = cat("fpc ", fpc, " more than the channels"); break;
        case 12: {
            f.file_attrs = false; d = "no file attributes";
            if (r.chance(0.5)) { f.chunked = f.gzip = true; f.data = all; d += " gzip"; }
            break;
        }
        default: {
            nch = r.range(1, N); f.set(r.chance(0.5) ? inum("nchans", nch) : num("nchans", (double)nch)); d = cat("nchans ", nch, " of ", N);
            if (T == nch && N != nch) { must_refuse = false; exact = true; nch = -1; } // labels look swapped: only a refusal or exact data is acceptable
            break;
        }
        }
        h.describe(cat("T ", T, " N ", N, " fpc ", fpc, ": ", d));
        auto p = scratch(h, "c05s.h5");
        write_fb(p, f);
        std::optional<scan> sc;
        std::string why;
        bool ref = refused([&] { sc.emplace(p, fpc); }, &why);
        h.count(ref ? "structures_refused" : "structures_accepted");
        if (must_refuse && !ref) {
            // opening may be deferred, but nothing may be readable
            bool any = false;
            for (int i = 0; i < std::min(sc->get_number_coarse_channels(), 3); ++i)
                if (!refused([&] { auto c = sc->read_coarse_channel(i); (void)c->data(); })) any = true;
            h.check(false, "malformed-file-accepted", [&] { return cat(h.desc, any ? " and data returned" : " (opened)"); });
        }
        if (!must_refuse && nch > 0) {
            h.check(!ref, "usable-file-refused", [&] { return cat(h.desc, ": ", why); });
        }
        if (!ref && !must_refuse && exact) {
            int64_t nc, fp;
            int64_t use = nch > 0 ? nch : sc->nchans();
            if (fpc == 0) std::tie(nc, fp) = infer(use, m.foff, m.tsamp); else { fp = fpc; nc = use / fpc; }
            h.check(sc->get_number_coarse_channels() == nc, "odd-file-channels", [&] { return cat(h.desc, ": ", sc->get_number_coarse_channels(), " expected ", nc); });
            for (int64_t i = 0; i < nc; ++i) {
                auto cc = sc->read_coarse_channel((int)i);
                auto v = fvals(cc->data());
                auto w = slice_chan(all, T, N, i * fp, fp);
                h.check(biteq(v, w), "odd-file-data", [&] { return cat(h.desc, " channel ", i, ": ", firstdiff(v, w)); });
            }
            h.check(refused([&] { auto c = sc->read_coarse_channel((int)nc); (void)c->data(); }), "odd-file-extra-channel", [&] { return h.desc; });
        }
        h.nontrivial(h.desc);
        unlink(p.c_str());
    });
    // files that claim to hold more than anything can: nothing of the kind is read, whether or not the product wraps
    h.cases("claims", 200, 3000, [&] {
        Rng &r = h.rng;
        Meta m = rand_meta(r);
        int a = (int)r.range(1, 50), b = (int)r.range(std::max(1, 34 - a), 58);
        int64_t T = (int64_t(1) << a) + (r.chance(0.5) ? r.range(0, 3) : 0), N = (int64_t(1) << b) + (r.chance(0.5) ? r.range(0, 3) : 0);
        int fpc = r.chance(0.3) ? 0 : (int)std::min<int64_t>(N, r.pick({int64_t(1) << 30, int64_t(1) << 20, int64_t(8), int64_t(1)}));
        bool chunked = r.chance(0.7);
        h.describe(cat("claims T=", T, " N=", N, " fpc ", fpc, chunked ? " chunked" : ""));
        auto p = scratch(h, "c05h.h5");
        FB f = std_fb(T, 1, m, {});
        f.set(inum("nchans", N));
        f.no_data = true;
        write_fb(p, f);
        {
            hid_t file = H5Fopen(p.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
            hsize_t dims[3] = {(hsize_t)T, 1, (hsize_t)N}, chunk[3] = {(hsize_t)std::min<int64_t>(T, 64), 1, (hsize_t)std::min<int64_t>(N, 1 << 16)};
            hid_t sp = H5Screate_simple(3, dims, nullptr), pl = H5Pcreate(H5P_DATASET_CREATE);
            if (chunked) H5Pset_chunk(pl, 3, chunk);
            hid_t ds = sp < 0 ? -1 : H5Dcreate2(file, "data", H5T_IEEE_F32LE, sp, H5P_DEFAULT, pl, H5P_DEFAULT);
            bool made = ds >= 0;
            if (made) { for (auto &x : f.attrs) write_attr(ds, x); H5Dclose(ds); }
            H5Pclose(pl); if (sp >= 0) H5Sclose(sp); H5Fclose(file);
            if (!made) { h.count("hdf5_cannot_express"); unlink(p.c_str()); return; }
        }
        std::optional<scan> sc;
        bool no = refused([&] { sc.emplace(p, fpc); });
        h.count(no ? "claims_refused_at_open" : "claims_opened");
        if (!no) {
            int64_t fp, nc;
            if (fpc) { fp = fpc; nc = N / fpc; } else std::tie(nc, fp) = infer(N, m.foff, m.tsamp);
            bool counted = nc < (int64_t(1) << 31); // the interface numbers coarse channels with an int
            if (counted) h.check(sc->get_number_coarse_channels() == nc, "claimed-channels", [&] { return cat(sc->get_number_coarse_channels(), " expected ", nc); });
            bool fits = (double)T * (double)fp * 4 < 1e9;
            for (int64_t i : {int64_t(0), counted ? nc - 1 : 5}) {
                std::vector<int64_t> shape;
                bool rd = refused([&] { auto c = sc->read_coarse_channel((int)i); shape = bland::ndarray(c->data()).shape(); });
                if (!rd) h.check((double)T * (double)fp * 4 < 4.4e9 && shape == std::vector<int64_t>({T, fp}), "claimed-size-read", [&] { return cat("channel ", i, ": ", vec(shape)); });
                if (fits && fp > 0) h.count("claims_that_fit");
                h.count(rd ? "claims_refused_at_read" : "claims_read");
            }
        }
        h.check(refused([&] { h5_filterbank_file hf(p); (void)hf.read_data(); }), "claimed-size-read", [&] { return "whole file"; });
        h.nontrivial(h.desc);
        unlink(p.c_str());
    });
    auto readall = [](const std::string &p, int fpc, const std::vector<float> *want, int64_t T, int64_t N) {
        scan sc(p, fpc);
        (void)sc.fch1(); (void)sc.source_name();
        int bad = 0;
        for (int i = 0; i < std::min(sc.get_number_coarse_channels(), 64); ++i) {
            auto cc = sc.read_coarse_channel(i);
            auto d  = cc->data();
            auto k  = cc->mask();
            if (ref::numel(d.shape()) != ref::numel(k.shape())) return 91;
            auto v = fvals(d);
            if (want && fpc > 0 && (d.shape() != std::vector<int64_t>({T, fpc}) || !biteq(v, slice_chan(*want, T, N, i * fpc, fpc)))) bad = 1;
        }
        return bad ? 90 : 0;
    };
    h.cases("truncated", 400, 6000, [&] {
        Rng &r = h.rng;
        int64_t T = r.range(1, 4), N = 8 * r.range(1, 16);
        std::vector<float> all = rand_data(r, T * N, 0);
        for (auto &x : all) x += 1; // no zeros: invented zeros would show
        FB f = std_fb(T, N, rand_meta(r), all);
        f.chunked = r.chance(0.4); f.gzip = r.chance(0.3);
        auto p = scratch(h, "c05t.h5");
        write_fb(p, f);
        FILE *fp = fopen(p.c_str(), "rb"); fseek(fp, 0, SEEK_END); int64_t size = ftell(fp); fclose(fp);
        int64_t cut = r.chance(0.3) ? size - r.range(1, 64) : r.range(0, size - 1);
        h.describe(cat("file of ", size, " bytes (T ", T, " N ", N, f.chunked ? " chunked" : "", f.gzip ? " gzip" : "", ") cut to ", cut));
        if (truncate(p.c_str(), cut)) return;
        auto e = in_child(h, [&] { return readall(p, 8, &all, T, N); });
        if (e.kind == 1) h.fail("truncated-" + e.key, e.detail);
        if (e.kind >= 2) h.count(e.kind == 2 ? "third_party_crashes" : "timeouts");
        h.nontrivial(h.desc);
        unlink(p.c_str());
    });
    h.cases("corrupted", 1200, 40000, [&] {
        Rng &r = h.rng;
        int64_t T = r.range(1, 4), N = 8 * r.range(1, 16);
        FB f = std_fb(T, N, rand_meta(r), rand_data(r, T * N, 0));
        f.chunked = r.chance(0.4); f.gzip = r.chance(0.3);
        if (r.chance(0.3)) f.set(str("source_name", {"fixed name"}, Attr::FIXED, 12));
        if (r.chance(0.3)) f.set(str("DIMENSION_LABELS", {"time", "feed_id", "frequency"}, Attr::FIXED));
        auto p = scratch(h, "c05c.h5");
        write_fb(p, f);
        std::string bytes;
        { FILE *fp = fopen(p.c_str(), "rb"); char b[1 << 16]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) bytes.append(b, n); fclose(fp); }
        int n = (int)r.pick({1, 1, 2, 4, 16});
        std::string d;
        // most of a small file is padding: aim at bytes that hold something
        for (int i = 0; i < n; ++i) {
            size_t at = 0;
            for (int tries = 0; tries < 50; ++tries) { at = r.range(0, (int64_t)bytes.size() - 1); if (bytes[at]) break; }
            uint8_t nv = r.chance(0.4) ? (uint8_t)(bytes[at] ^ (1 << r.range(0, 7))) : (uint8_t)r.pick({0, 255, 127, 128, 1, (int)r.range(0, 255)});
            bytes[at] = (char)nv;
            d += cat(" ", at, "=", (int)nv);
        }
        { FILE *fp = fopen(p.c_str(), "wb"); fwrite(bytes.data(), 1, bytes.size(), fp); fclose(fp); }
        int fpc = r.chance(0.5) ? 8 : 0;
        h.describe(cat("file of ", bytes.size(), " bytes (T ", T, " N ", N, f.chunked ? " chunked" : "", f.gzip ? " gzip" : "", ") fpc ", fpc, " bytes", d));
        auto e = in_child(h, [&] { return readall(p, fpc, nullptr, T, N); });
        if (e.kind == 1) h.fail(e.key, e.detail);
        if (e.kind >= 2) h.count(e.kind == 2 ? "third_party_crashes" : "timeouts");
        h.nontrivial(h.desc);
        unlink(p.c_str());
    });
}
} // namespace

int main(int argc, char **argv) { return vh::run_main(argc, argv, {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C05", C05}}); }
