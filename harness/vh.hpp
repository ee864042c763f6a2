// Common plumbing of every runtime monitor in this directory.
//
//  * a workload is a list of named monitors, each run for a number of cases;
//  * case k of monitor m draws everything from an RNG seeded by
//    (VERIF_SEED, m, k), so a single case replays on its own;
//  * the case being executed is published in a small mmap'ed progress file, so
//    that the driver can name it when a sanitizer, a signal or a CPU-time limit
//    ends the process;
//  * what the monitors observed is counted (evaluations, distinct observations,
//    named events, samples) and written as JSON for the driver to merge.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <memory>
#include <limits>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#if defined(BUILD_MSAN)
#include <sanitizer/msan_interface.h>
#endif

namespace vh {

inline uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
inline uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t u64() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint32_t u32() { return (uint32_t)(u64() >> 32); }
    // uniform in [0,n)
    size_t below(size_t n) { return n ? (size_t)(u64() % n) : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(u64() % (uint64_t)(hi - lo + 1)); }
    double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // uniform, now and then a round number
    float  f(double lo, double hi) { float x = (float)uni(lo, hi); if ((s >> 40 & 63) == 0) { float q = hi - lo >= 2 ? std::round(x) : std::round(x * 10) / 10; if (q > (float)lo && q < (float)hi) return q; } return x; }
    bool chance(double p) { return unit() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    // magnitude log-uniform in [lo,hi], lo>0
    float logf_(double lo, double hi) { float x = (float)std::exp(uni(std::log(lo), std::log(hi))); if ((s >> 40 & 63) == 0) { float q = x >= 1 ? std::round(x) : 1 / std::round(1 / x); if (q > (float)lo && q < (float)hi) return q; } return x; }
    float slogf_(double lo, double hi) { float v = logf_(lo, hi); return (u64() & 1) ? -v : v; }
    // any bit pattern
    float anyFloat() { uint32_t b = u32(); float x; std::memcpy(&x, &b, 4); return x; }
};

struct Stats {
    uint64_t evals = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> events;
    std::vector<std::string> samples;
    std::map<std::string, double> maxima;
};

struct Progress { char monitor[64]; uint64_t idx; uint64_t seed; char note[256]; };

struct Global {
    uint64_t seed = 1; bool thorough = false; int shard = 0, shards = 1;
    double scale = 1.0;
    std::string outJson, onlyMon; int64_t onlyIdx = -1; bool only = false;
    bool verbose = false;
    Stats st; Progress *prog = nullptr;
    std::string curMon; uint64_t curIdx = 0;
    int violations = 0; std::vector<std::string> vlines;
    uint64_t casesRun = 0; std::map<std::string, uint64_t> casesPer;
};
inline Global &G() { static Global g; return g; }

inline void ev(const char *name, uint64_t n = 1) { G().st.events[name] += n; }
inline void maxi(const char *name, double v) { auto &m = G().st.maxima; auto it = m.find(name); if (it == m.end()) m[name] = v; else if (v > it->second) it->second = v; }
// one oracle evaluation; `sig` identifies what was observed
inline void seen(uint64_t sig) { G().st.evals++; auto &d = G().st.distinct; if (d.size() < 400000) d.insert(mix(sig)); }
inline void evaln(uint64_t n = 1) { G().st.evals += n; }
inline uint64_t fb(float x) { uint32_t b; std::memcpy(&b, &x, 4); return b; }
inline uint64_t sig2(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ULL + mix(b)); }
inline uint64_t sig3(uint64_t a, uint64_t b, uint64_t c) { return sig2(sig2(a, b), c); }
inline void eg(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void eg(const char *fmt, ...) { auto &s = G().st.samples; if (s.size() >= 12) return; char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); s.push_back(b); }
inline void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *fmt, ...) { if (!G().prog) return; va_list ap; va_start(ap, fmt); vsnprintf(G().prog->note, sizeof G().prog->note, fmt, ap); va_end(ap); }

struct CaseAbort {};
inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// a refuted oracle: record it and leave the case
inline void fail(const char *fmt, ...) {
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    Global &g = G(); g.violations++;
    char l[1800]; snprintf(l, sizeof l, "%s#%llu: %s", g.curMon.c_str(), (unsigned long long)g.curIdx, b);
    if (g.vlines.size() < 20) g.vlines.push_back(l);
    fprintf(stderr, "REFUTED %s\n", l);
    if (getenv("VH_FAILFAST")) { fflush(stderr); _exit(3); }
    throw CaseAbort();
}
#define VH_CHECK(cond, ...) do { if (!(cond)) ::vh::fail(__VA_ARGS__); } while (0)

// floating comparison: |a-b| <= abs + rel*max(|ref|); NaN equals NaN, inf equals same inf
inline bool near(double got, double ref, double absT, double relT) {
    if (std::isnan(ref)) return std::isnan(got);
    if (std::isnan(got)) return false;
    if (std::isinf(ref)) return got == ref;
    if (std::isinf(got)) return std::fabs(ref) > 3.4028234e38 * (1 - relT);
    return std::fabs(got - ref) <= absT + relT * std::fabs(ref);
}

// Heap buffer of exactly n elements: ASan red zones on both sides, plus canary
// verification of our own in builds without ASan.
template <class T> struct Buf {
    size_t n; unsigned char *raw; T *p;
    static size_t pad() {
#if defined(__SANITIZE_ADDRESS__)
        return 0;
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
        return 0;
# else
        return 64;
# endif
#else
        return 64;
#endif
    }
    explicit Buf(size_t n_, unsigned char fill = 0xA5) : n(n_) {
        size_t b = n * sizeof(T); raw = (unsigned char *)malloc(b + 2 * pad() + (b + 2 * pad() == 0)); std::memset(raw, 0xC7, b + 2 * pad()); p = (T *)(raw + pad()); std::memset((void *)p, fill, b);
    }
    Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
    ~Buf() { free(raw); }
    T &operator[](size_t i) { return p[i]; }
    void set(const std::vector<T> &v) { for (size_t i = 0; i < v.size() && i < n; ++i) p[i] = v[i]; }
    std::vector<T> vec() const { return std::vector<T>(p, p + n); }
    bool intact() const { for (size_t i = 0; i < pad(); ++i) if (raw[i] != 0xC7 || raw[pad() + n * sizeof(T) + i] != 0xC7) return false; return true; }
    void check(const char *what) const { if (!intact()) fail("memory outside %s (%zu elements) was written", what, n); }
};

// Object placed on memory pre-filled with a pattern, to expose dependence on
// uninitialised members.
template <class T> struct OnPattern {
    unsigned char *raw; T *p;
    explicit OnPattern(unsigned char fill) { raw = (unsigned char *)aligned_alloc(64, (sizeof(T) + 63) / 64 * 64); std::memset(raw, fill, sizeof(T)); p = new (raw) T(); }
    ~OnPattern() { p->~T(); free(raw); }
    OnPattern(const OnPattern &) = delete;
    T *operator->() { return p; } T &operator*() { return *p; }
};

struct Monitor { std::string name; uint64_t quick, thorough; std::function<void(Rng &, uint64_t)> fn; bool sharded; };
inline std::vector<Monitor> &monitors() { static std::vector<Monitor> m; return m; }
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, std::function<void(Rng &, uint64_t)> f) { monitors().push_back({n, q, t, f, true}); } };
// MONITOR(name, quick cases, thorough cases) { body using rng, idx }
#define MONITOR(name, q, t) static void mon_##name(::vh::Rng &rng, uint64_t idx); static ::vh::Reg reg_##name(#name, q, t, mon_##name); static void mon_##name([[maybe_unused]] ::vh::Rng &rng, [[maybe_unused]] uint64_t idx)

inline void jstr(FILE *f, const std::string &s) { fputc('"', f); for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

inline void writeOut() {
    Global &g = G(); if (g.outJson.empty()) return;
#if defined(BUILD_MSAN)
    __msan_scoped_disable_interceptor_checks(); // strings come from the uninstrumented libstdc++
#endif
    FILE *f = fopen(g.outJson.c_str(), "w"); if (!f) return;
    fprintf(f, "{\"evals\":%llu,\"cases\":%llu,\"violations\":%d,", (unsigned long long)g.st.evals, (unsigned long long)g.casesRun, g.violations);
    fprintf(f, "\"vlines\":["); for (size_t i = 0; i < g.vlines.size(); ++i) { if (i) fputc(',', f); jstr(f, g.vlines[i]); }
    fprintf(f, "],\"samples\":["); for (size_t i = 0; i < g.st.samples.size(); ++i) { if (i) fputc(',', f); jstr(f, g.st.samples[i]); }
    fprintf(f, "],\"events\":{"); bool first = true; for (auto &e : g.st.events) { if (!first) fputc(',', f); first = false; jstr(f, e.first); fprintf(f, ":%llu", (unsigned long long)e.second); }
    fprintf(f, "},\"maxima\":{"); first = true; for (auto &e : g.st.maxima) { if (!first) fputc(',', f); first = false; jstr(f, e.first); fprintf(f, ":%.6g", std::isfinite(e.second) ? e.second : 1e308); }
    fprintf(f, "},\"cases_per\":{"); first = true; for (auto &e : g.casesPer) { if (!first) fputc(',', f); first = false; jstr(f, e.first); fprintf(f, ":%llu", (unsigned long long)e.second); }
    fprintf(f, "},\"distinct\":%zu}\n", g.st.distinct.size());
    fclose(f);
    if (g.outJson.size()) { // distinct signatures, for an exact union across shards
        FILE *d = fopen((g.outJson + ".sig").c_str(), "wb"); if (d) { for (uint64_t h : g.st.distinct) fwrite(&h, 8, 1, d); fclose(d); }
    }
}

inline void onCpu(int) { static const char m[] = "HANG: case exceeded its CPU-time limit\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(86); }
inline void arm(int secs) { struct itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &t, nullptr); }

inline int run(int argc, char **argv) {
    Global &g = G(); std::string progPath;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") g.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--thorough") g.thorough = true;
        else if (a == "--scale") g.scale = atof(nx().c_str());
        else if (a == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &g.shard, &g.shards); }
        else if (a == "--out") g.outJson = nx();
        else if (a == "--progress") progPath = nx();
        else if (a == "--only") { std::string s = nx(); size_t p = s.find('#'); g.only = true; g.onlyMon = s.substr(0, p); g.onlyIdx = p == std::string::npos ? -1 : atoll(s.c_str() + p + 1); }
        else if (a == "--list") { for (auto &m : monitors()) printf("%s %llu %llu\n", m.name.c_str(), (unsigned long long)m.quick, (unsigned long long)m.thorough); return 0; }
    }
    if (!progPath.empty()) {
        int fd = open(progPath.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) { void *m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) g.prog = (Progress *)m; }
        if (fd >= 0) close(fd);
    }
    signal(SIGVTALRM, onCpu);
    for (auto &m : monitors()) {
        if (g.only && m.name != g.onlyMon) continue;
        uint64_t n = g.thorough ? m.thorough : m.quick;
        if (g.scale != 1.0 && n > 1) { n = (uint64_t)std::ceil((double)n * g.scale); if (n < 1) n = 1; }
        int bad = 0;
        uint64_t h = hstr(m.name.c_str());
        uint64_t first = 0, last = n;
        if (g.only && g.onlyIdx >= 0) { first = (uint64_t)g.onlyIdx; last = first + 1; }
        for (uint64_t k = first; k < last; ++k) {
            if (!g.only && k % (uint64_t)g.shards != (h + (uint64_t)g.shard) % (uint64_t)g.shards) continue;
            g.curMon = m.name; g.curIdx = k;
            if (g.prog) { snprintf(g.prog->monitor, sizeof g.prog->monitor, "%s", m.name.c_str()); g.prog->idx = k; g.prog->seed = g.seed; g.prog->note[0] = 0; }
            Rng rng(mix(g.seed * 0x100000001B3ULL ^ h) + k * 0x9E3779B97F4A7C15ULL);
            if (g.casesRun % 16 == 0) arm(60);
            try { m.fn(rng, k); } catch (CaseAbort &) { if (++bad >= 3) k = last; }
            g.casesRun++; g.casesPer[m.name]++;
        }
    }
    arm(0);
    if (g.prog) std::memset(g.prog, 0, sizeof *g.prog);
    writeOut();
    return g.violations ? 3 : 0;
}
} // namespace vh
#define VH_MAIN int main(int argc, char **argv) { return ::vh::run(argc, argv); }
#endif
