// Common harness: seeded cases, oracle reporting, crash attribution, evidence counters.
// Every random choice derives from (seed, property, case number), so a case can be replayed alone.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
    uint64_t s[2];
    uint64_t drawn = 0, other_at[2] = {0, 0}, other[2] = {0, 0}; // the draws (counted from 1) to be replaced, and by what
    static uint64_t mix(uint64_t &x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        uint64_t r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        if (++drawn == other_at[0]) return other[0];
        if (drawn == other_at[1]) return other[1];
        return r;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
    double  uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double  uni(double lo, double hi) { return lo + (hi - lo) * uni(); }
    bool    chance(double p) { return uni() < p; }
    double  normal() {
        double u = uni(), v = uni();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + next() % v.size()); }
};

inline uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

template <class... A> std::string cat(const A &...a) {
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}
template <class T> std::string vec(const std::vector<T> &v, size_t lim = 64) {
    std::ostringstream o;
    o.precision(9);
    o << "[";
    for (size_t i = 0; i < v.size() && i < lim; ++i) o << (i ? "," : "") << +v[i];
    if (v.size() > lim) o << ",..(" << v.size() << ")";
    o << "]";
    return o.str();
}

// shared with the driver: survives a crash of this process
struct Shm {
    uint64_t case_no;
    uint64_t evaluations;
    char     desc[4096];
};

struct Fail { std::string key, detail; uint64_t case_no; std::string desc; };

struct H {
    std::string property, tier, out;
    uint64_t    seed = 1;
    int64_t     only = -1, start = 0, shard = 0, nshard = 1;
    Rng         rng;
    uint64_t    case_no = 0, evaluations = 0;
    std::string desc;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string>     samples;
    std::map<std::string, uint64_t> counts;
    std::vector<Fail>               fails;
    std::map<std::string, int>      fail_per_key;
    std::string rule, scratch;
    Shm *shm = nullptr;
    bool thorough() const { return tier == "thorough"; }

    void count(const std::string &k, uint64_t n = 1) { counts[k] += n; }
    // describe the case before touching the code under test, so a crash can be attributed
    void describe(const std::string &d) {
        desc = d;
        if (shm) { strncpy(shm->desc, d.c_str(), sizeof shm->desc - 1); shm->desc[sizeof shm->desc - 1] = 0; }
    }
    // a case is non-trivial when the caller says so with a signature of what made it different
    void nontrivial(const std::string &sig) {
        if (distinct.insert(fnv(sig)).second && samples.size() < 4 && (evaluations % 7 == 0 || samples.empty()))
            samples.push_back(desc.empty() ? sig : desc.substr(0, 600));
    }
    void fail(const std::string &key, const std::string &detail) {
        if (++fail_per_key[key] <= 2) {
            fails.push_back({key, detail, case_no, desc});
            fprintf(stderr, "FAIL %s case %" PRIu64 " key=%s: %s\n   case: %s\n", property.c_str(), case_no, key.c_str(),
                    detail.substr(0, 1500).c_str(), desc.substr(0, 1500).c_str());
        }
    }
    bool check(bool ok, const std::string &key, const std::function<std::string()> &detail) {
        count("oracle_checks");
        if (!ok) fail(key, detail());
        return ok;
    }
    // run n (quick) or n*mult (thorough) cases
    std::map<std::string, std::function<void()>> bodies; // usable while the workload function that added them runs
    void cases(const std::string &label, int64_t quick, int64_t thorough_n, const std::function<void()> &body) {
        int64_t n = thorough() ? thorough_n : quick;
        bodies[label] = body;
        if (getenv("VERIF_SCALE")) n = std::max<int64_t>(1, n * atof(getenv("VERIF_SCALE")));
        for (int64_t i = 0; i < n; ++i, ++case_no) {
            if ((int64_t)case_no < start) continue;
            if (only >= 0 ? (int64_t)case_no != only : (int64_t)(case_no % nshard) != shard) continue;
            const uint64_t case_seed = seed * 0x9e3779b97f4a7c15ULL ^ fnv(property + "/" + label) ^ (uint64_t)i * 0xd1342543de82ef95ULL;
            rng = Rng(case_seed);
            if (shm) { shm->case_no = case_no; shm->evaluations = evaluations; }
            describe(label);
            count("cases_" + label);
            once(body);
            if ((seed + (uint64_t)i) % 6 != 3) continue;
            // the same case again with one or two draws replaced: whatever the library kept from the last call is now stale
            Rng pick(seed ^ fnv(label) ^ (uint64_t)i * 0x9e3779b97f4a7c15ULL), again(case_seed);
            uint64_t draws = std::max<uint64_t>(1, rng.drawn);
            for (int k = 0, m = pick.chance(0.3) ? 2 : 1; k < m; ++k) {
                again.other_at[k] = (uint64_t)pick.range(1, (int64_t)std::min<uint64_t>(draws, pick.pick({12, 40, 40, 1 << 30})));
                again.other[k] = pick.next();
            }
            rng = again;
            if (shm) shm->evaluations = evaluations;
            describe(label);
            count("cases_repeated_with_a_draw_changed");
            once(body);
        }
    }
    void once(const std::function<void()> &body) {
        arm();
        ++evaluations;
        struct timespec t0 {};
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
        try {
            body();
        } catch (const std::exception &e) {
            fail("unexpected-exception", cat("exception escaped: ", e.what()));
        } catch (...) {
            fail("unexpected-exception", "unknown exception escaped");
        }
        struct timespec t {};
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
        uint64_t ms = (uint64_t)((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000), &c = counts["max_case_cpu_ms"];
        c = std::max(c, ms);
    }
    int cpu_secs = 0; // set by workloads whose cases are long
    int cpu_limit() const { return cpu_secs ? cpu_secs : thorough() ? 180 : 60; }
    // a hang is judged by CPU time spent inside one case (typical cases take milliseconds), never by wall time
    void arm() const {
        struct itimerval t {};
        t.it_value.tv_sec = cpu_limit();
        setitimer(ITIMER_PROF, &t, nullptr);
    }
    int finish() {
        struct itimerval t {};
        setitimer(ITIMER_PROF, &t, nullptr);
        FILE *f = fopen(out.c_str(), "w");
        if (!f) { perror("out"); return 2; }
        fprintf(f, "{\"property\":%s,\"seed\":%" PRIu64 ",\"evaluations\":%" PRIu64 ",\"distinct_nontrivial\":%zu,\"rule\":%s,",
                jstr(property).c_str(), seed, evaluations, distinct.size(), jstr(rule).c_str());
        fprintf(f, "\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
        fprintf(f, "],\"hashes\":[");
        { bool c = false; for (auto d : distinct) { fprintf(f, "%s%" PRIu64, c ? "," : "", d); c = true; } }
        fprintf(f, "],\"counts\":{");
        bool first = true;
        for (auto &c : counts) { fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(c.first).c_str(), c.second); first = false; }
        fprintf(f, "},\"fails\":[");
        for (size_t i = 0; i < fails.size(); ++i)
            fprintf(f, "%s{\"key\":%s,\"case\":%" PRIu64 ",\"detail\":%s,\"desc\":%s}", i ? "," : "", jstr(fails[i].key).c_str(),
                    fails[i].case_no, jstr(fails[i].detail.substr(0, 4000)).c_str(), jstr(fails[i].desc.substr(0, 4000)).c_str());
        fprintf(f, "]}\n");
        fclose(f);
        return 0;
    }
};

inline H *&cur() { static H *h = nullptr; return h; }
inline void on_prof(int) {
    static const char m[] = "VH-HANG: one case used more CPU time than any should\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(86);
}

using Entry = std::function<void(H &)>;
// usage: prog PROPERTY TIER SEED OUT SHM SCRATCH [--only N] [--start N]
inline int run_main(int argc, char **argv, const std::map<std::string, Entry> &entries) {
    if (argc < 7) { fprintf(stderr, "usage: %s PROPERTY TIER SEED OUT SHM SCRATCH [--only N] [--start N]\n", argv[0]); return 2; }
    static H h;
    cur()      = &h;
    h.property = argv[1]; h.tier = argv[2]; h.seed = strtoull(argv[3], 0, 10); h.out = argv[4]; h.scratch = argv[6];
    for (int i = 7; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--only")) h.only = atoll(argv[i + 1]);
        if (!strcmp(argv[i], "--shard")) h.shard = atoll(argv[i + 1]);
        if (!strcmp(argv[i], "--nshard")) h.nshard = atoll(argv[i + 1]);
        if (!strcmp(argv[i], "--start")) h.start = atoll(argv[i + 1]);
    }
    int fd = open(argv[5], O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Shm)) == 0) h.shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (h.shm == MAP_FAILED) h.shm = nullptr;
    signal(SIGPROF, on_prof);
    auto it = entries.find(h.property);
    if (it == entries.end()) { fprintf(stderr, "no entry for %s\n", h.property.c_str()); return 2; }
    it->second(h);
    return h.finish();
}

// true when f throws any std::exception
template <class F> bool throws(F &&f, std::string *what = nullptr) {
    try { f(); } catch (const std::exception &e) { if (what) *what = e.what(); return true; }
    return false;
}

} // namespace vh
