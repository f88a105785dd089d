// Common part of the C++ monitors: deterministic generators, the event/verdict recorder, leak probe.
// Every driver is a program  drv --seed S --cases N --out FILE --state FILE [--only K] [--tier quick|thorough]
// It runs cases 0..N-1; case K depends on (S, K) alone, so --only K replays one case.
// --state holds, at any moment, the case that is running (for the parent, when a sanitizer ends the process).
// --out gets a JSON document: counters, distinct signatures, samples, violations.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <exception>
#include <stdexcept>

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef VP_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vp {

inline uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
    bool p(double x) { return u() < x; }
    double n() { double a = u(1e-12, 1), b = u(); return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b); }
    template <class C> auto& pick(C& c) { return c[next() % c.size()]; }
};

inline std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

struct Violation { std::string tag, what; long k; };

struct Mon {
    uint64_t seed = 1; long cases = 100; long only = -1; bool thorough = false;
    std::string out, state;
    int statefd = -1;
    long cur = -1;
    std::map<std::string, long> counters;
    std::unordered_set<uint64_t> sigs;
    long evaluations = 0;
    std::vector<std::string> samples;
    std::vector<Violation> viols;
    std::map<std::string, long> tagcount;

    static Mon& get() { static Mon m; return m; }

    void args(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
            else if (a == "--cases") cases = atol(v.c_str());
            else if (a == "--only") only = atol(v.c_str());
            else if (a == "--out") out = v;
            else if (a == "--state") state = v;
            else if (a == "--tier") thorough = v == "thorough";
        }
        if (!state.empty()) statefd = open(state.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    }
    void begin(long k, const char* what = "") {
        cur = k;
        if (statefd >= 0) { char b[256]; int n = snprintf(b, sizeof b, "%-12ld %-200.200s\n", k, what); if (pwrite(statefd, b, n, 0) < 0) {} }
    }
    void hit(const std::string& c, long n = 1) { counters[c] += n; }
    void sig(const std::string& s) { sigs.insert(std::hash<std::string>()(s)); }
    void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
    void fail(const std::string& tag, const std::string& what) {
        tagcount[tag]++;
        if (tagcount[tag] <= 3 && viols.size() < 60) viols.push_back({tag, what, cur});
    }
    bool check(bool ok, const std::string& tag, const std::string& what) { hit("asserts"); if (!ok) fail(tag, what); return ok; }

    int finish() {
        FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
        if (!f) return 3;
        fprintf(f, "{\"evaluations\": %ld, \"distinct\": %zu, \"counters\": {", evaluations, sigs.size());
        bool first = true;
        for (auto& c : counters) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", esc(c.first).c_str(), c.second); first = false; }
        fprintf(f, "}, \"samples\": [");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(samples[i]).c_str());
        fprintf(f, "], \"violation_counts\": {");
        first = true;
        for (auto& c : tagcount) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", esc(c.first).c_str(), c.second); first = false; }
        fprintf(f, "}, \"violations\": [");
        for (size_t i = 0; i < viols.size(); i++)
            fprintf(f, "%s{\"tag\": \"%s\", \"what\": \"%s\", \"case\": %ld}", i ? ", " : "", esc(viols[i].tag).c_str(), esc(viols[i].what).c_str(), viols[i].k);
        fprintf(f, "]}\n");
        if (!out.empty()) fclose(f); else fflush(f);
        return 0;
    }

    // Runs body(rng, k) for every case.
    int run(int argc, char** argv, std::function<void(Rng&, long)> body) {
        args(argc, argv);
        for (long k = 0; k < cases; k++) {
            if (only >= 0 && k != only) continue;
            begin(k);
            evaluations++;
            Rng r(mix(seed * 1000003ULL + 17) ^ mix((uint64_t)k + 77));
            try { body(r, k); }
            catch (std::exception& e) { fail("exception", fmt("unexpected exception: %.800s", e.what())); }
        }
        return finish();
    }
};

inline size_t allocated() {
#ifdef VP_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

// Runs f twice as warm-up would; fails with tag when the second run leaves more bytes allocated than before it.
template <class F> void leakcheck(const std::string& tag, const std::string& what, F f) {
#ifdef VP_ASAN
    f();                     // warm-up: lazy statics, caches
    size_t a = allocated();
    f();
    size_t b = allocated();
    Mon::get().hit("leak_probes");
    if (b > a) Mon::get().fail(tag, what + fmt(": %zu bytes still allocated after the objects were destroyed", b - a));
#else
    f();
#endif
}

inline double reldiff(double a, double b, double scale = 1) { return std::fabs(a - b) / std::max(scale, std::max(std::fabs(a), std::fabs(b))); }
inline bool close(double a, double b, double rtol, double atol) { if (std::isnan(a) || std::isnan(b)) return false; return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b)); }

}  // namespace vp
