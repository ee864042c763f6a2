// T01: tapped delay line and transport delay reproduce the history of samples.
#include <include/tdl.hpp>
#include <include/ltisys.hpp>
#include "sig.hpp"
#include <deque>
using namespace vh;
using qlibs::tdl;
namespace {
bool same(float a, float b) { return fb(a) == fb(b) || (std::isnan(a) && std::isnan(b)); }
struct Line {
    size_t n; Buf<float> mem; tdl d; std::deque<float> h; // h[0] most recent
    Line(size_t n_, float iv, bool ctor, Rng &r) : n(n_), mem(n_) {
        (void)r; if (ctor) { d.~tdl(); new (&d) tdl(mem.p, n, iv); } else d.setup(mem.p, n, iv); h.assign(n, iv); VH_CHECK(d.isInitialized(), "line not initialised after setup");
    }
    void push(float x, bool op) { if (op) d(x); else d.insertSample(x); h.push_front(x); h.pop_back(); mem.check("the delay line area"); }
    void flush(float x) { d.flush(x); h.assign(n, x); mem.check("the delay line area"); }
    void verify(Rng &r, bool all) {
        VH_CHECK(same(d.getRecent(), h[0]), "most recent sample is %g, expected %g (n=%zu)", d.getRecent(), h[0], n);
        VH_CHECK(same(d.getOldest(), h[n - 1]), "oldest sample is %g, expected %g (n=%zu)", d.getOldest(), h[n - 1], n);
        VH_CHECK(same(d[-1], h[n - 1]), "[-1] is %g, expected the oldest %g (n=%zu)", d[-1], h[n - 1], n);
        size_t lo = 0, hi = n; if (!all && n > 4) { lo = r.below(n); hi = lo + 1; }
        for (size_t i = lo; i < hi; ++i) { float a = d.getAtIndex(i), b = d[(int)i]; VH_CHECK(same(a, h[i]), "sample delayed by %zu of %zu is %g, expected %g", i, n, a, h[i]); VH_CHECK(same(b, h[i]), "[%zu] of %zu is %g, expected %g", i, n, b, h[i]); evaln(2); }
        int bad = r.chance(0.5) ? (int)(n + r.below(1000)) : -2 - (int)r.below(1000); if (r.chance(0.2)) { static const long long E[] = {256, 65536, 0x10000000LL, 0x40000000LL, 0x7FFFFF00LL, -256, -65536, -0x40000000LL, -0x7FFFFF00LL}; bad = (int)(E[r.below(9)] + (long long)r.below(n)); if (bad >= -1 && bad < (int)n) bad = -0x7FFFFFFF - 1; ev("far_index"); } VH_CHECK(std::isnan(d[bad]), "[%d] of a %zu-sample line is %g, expected not-a-number", bad, n, d[bad]);
        seen(sig3(n, fb(h[0]), fb(h[n - 1])));
    }
};
}
MONITOR(history, 4000, 120000) {
    size_t n1 = 1 + rng.below(rng.chance(0.4) ? 4 : 60), n2 = 1 + rng.below(8); Line a(n1, rng.f(-5, 5), rng.chance(0.5), rng), b(n2, 0, false, rng);
    a.verify(rng, true); int steps = (int)(3 * n1 + 10 + rng.below(40)); float u = 1;
    for (int i = 0; i < steps; ++i) {
        Line &l = rng.chance(0.7) ? a : b; u += 1;                    // unique values: a read names the write it saw
        double p = rng.unit(); if (p < 0.015) { l.flush(u); ev("flush"); } else if (p < 0.02) { l.d.setup(l.mem.p, l.n, u); l.h.assign(l.n, u); ev("setup_again"); } else l.push(p < 0.05 ? rng.anyFloat() : u, rng.chance(0.5));
        a.verify(rng, n1 <= 16); b.verify(rng, true);
    }
    ev("samples", (uint64_t)steps); if (n1 == 1) ev("single_sample_line"); eg("line of %zu and line of %zu, %d interleaved operations", n1, n2, steps);
}
MONITOR(large_line, 3, 12) { size_t n = 65500 + rng.below(3000); Line a(n, -1.f, false, rng); for (size_t i = 0; i < 2 * n + 7; ++i) { a.push((float)(i + 1), false); if (i % 4001 == 0) a.verify(rng, false); } a.verify(rng, true); a.flush(3); a.verify(rng, true); ev("large_line"); }
MONITOR(long_run, 60, 1500) { size_t n = 1 + rng.below(300); Line a(n, 0, false, rng); for (size_t i = 0; i < 6 * n + 5; ++i) { a.push((float)(i + 1), false); if (i % 7 == 0) a.verify(rng, n < 40 || i % 91 == 0); } a.verify(rng, true); ev("wraps", 6); }
namespace {
template <size_t D> void delayCase(Rng &rng) {
    float iv = rng.chance(0.5) ? 0.f : rng.f(-10, 10); qlibs::transportDelay<D> d(iv), other(-iv - 1); qlibs::discreteDelay<D> e; std::vector<float> in;
    size_t steps = 3 * D + 10 + rng.below(20);
    for (size_t k = 0; k < steps; ++k) { float x = rng.chance(0.05) ? rng.anyFloat() : (float)(k + 1); in.push_back(x); if (rng.chance(0.5)) other(x * 2); float y = d(x), z = e(x); float want = k >= D ? in[k - D] : iv, want0 = k >= D ? in[k - D] : 0.f; VH_CHECK(same(y, want), "delay of %zu samples: output %zu is %g, expected %g", D, k, y, want); VH_CHECK(same(z, want0), "default delay of %zu samples: output %zu is %g, expected %g", D, k, z, want0); seen(sig2(D, k)); }
    ev("transport_delay");
}
}
MONITOR(transport, 900, 20000) { switch (idx % 9) { case 0: delayCase<1>(rng); break; case 1: delayCase<2>(rng); break; case 2: delayCase<3>(rng); break; case 3: delayCase<4>(rng); break; case 4: delayCase<7>(rng); break; case 5: delayCase<10>(rng); break; case 6: delayCase<16>(rng); break; case 7: delayCase<33>(rng); break; default: delayCase<100>(rng); } }
MONITOR(delay_from_time, 4000, 100000) { float dt = rng.logf_(1e-4, 10); size_t k = rng.below(2000); double fr = rng.uni(-0.45, 0.45); float T = (float)((k + fr) * (double)dt); if (T < 0) T = 0; size_t g = qlibs::delayFromTime(T, dt); double q = (double)T / dt; VH_CHECK(std::fabs((double)g - q) <= 0.5 + 1e-3 + q * 1e-6, "delay of %g s at %g s per sample = %zu samples (%g)", T, dt, g, q); seen(sig2(g, fb(dt))); ev("delay_from_time"); }
// one line object set up over one area after the other
MONITOR(moved, 1500, 40000) { tdl d; std::vector<std::unique_ptr<Buf<float>>> keep; for (int k = 0, K = 2 + (int)rng.below(4); k < K; ++k) { size_t n = 1 + rng.below(rng.chance(.3) ? 40 : 6); keep.emplace_back(new Buf<float>(n, 0xFF)); float iv = rng.f(-5, 5); d.setup(keep.back()->p, n, iv); std::deque<float> h(n, iv); for (size_t i = 0, N = rng.below(3 * n + 3); i <= N; ++i) { for (size_t q = 0; q < n; ++q) VH_CHECK(same(d[(int)q], h[q]) && same(d.getAtIndex(q), h[q]), "setup %d over %zu elements, %zu samples: sample delayed by %zu is %g, expected %g", k, n, i, q, d[(int)q], h[q]); VH_CHECK(std::isnan(d[(int)n]) && same(d.getOldest(), h[n - 1]) && same(d.getRecent(), h[0]), "setup %d over %zu elements: oldest %g, recent %g, beyond the end %g", k, n, d.getOldest(), d.getRecent(), d[(int)n]); float x = rng.f(-100, 100); d(x); h.push_front(x); h.pop_back(); seen(sig3(k, n, fb(x))); if (rng.chance(.05)) { d.flush(iv); h.assign(n, iv); } } for (auto &b : keep) b->check("the delay line area"); ev("moved"); } }
MONITOR(lifecycle, 50, 50) { tdl d; VH_CHECK(!d.isInitialized(), "a line without area claims to be initialised"); float a[5]; tdl e(a, 2.5f); VH_CHECK(e.isInitialized() && e[4] == 2.5f && std::isnan(e[5]), "constructor from an array"); d.setup(a, -1.f); VH_CHECK(d.getOldest() == -1.f && d[4] == -1.f && std::isnan(d[5]), "setup from an array"); d.flush(); VH_CHECK(d.getOldest() == 0.f && d.getRecent() == 0.f && d[2] == 0.f, "flush() must fill with zero"); seen(idx); ev("lifecycle"); }
// the convenience overloads (array, default initial value) configure the very same line
namespace { template <size_t N> void overloadCase(Rng &rng) {
    float a[N], b[N], c[N]; float iv = rng.f(-9, 9); tdl d0(a, iv), d1(b), d2(&c[0], N); auto all = [&](tdl &d, float want, const char *how) { for (size_t i = 0; i < N; ++i) VH_CHECK(same(d[(int)i], want), "%s: sample delayed by %zu of %zu is %g, expected %g", how, i, N, d[(int)i], want); VH_CHECK(std::isnan(d[(int)N]), "%s: a line of %zu samples has a sample %zu", how, N, N); };
    all(d0, iv, "constructor(array,value)"); all(d1, 0.f, "constructor(array)"); all(d2, 0.f, "constructor(pointer,size)"); d0.setup(a); all(d0, 0.f, "setup(array)"); d1.setup(b, iv); all(d1, iv, "setup(array,value)"); d2.insertSample(iv); d2.setup(&c[0], N); all(d2, 0.f, "setup(pointer,size)"); d2.setup(&c[0], N, iv); all(d2, iv, "setup(pointer,size,value)"); d2.flush(); all(d2, 0.f, "flush()"); d2.flush(iv); all(d2, iv, "flush(value)");
    for (size_t k = 0; k < 2 * N + 1; ++k) { d0((float)k); d1.insertSample((float)k); } for (size_t i = 0; i < N; ++i) VH_CHECK(same(d0[(int)i], d1[(int)i]), "array and pointer lines differ at %zu", i); seen(sig2(N, fb(iv))); ev("overloads"); } }
MONITOR(overloads, 400, 4000) { switch (idx % 5) { case 0: overloadCase<1>(rng); break; case 1: overloadCase<2>(rng); break; case 2: overloadCase<3>(rng); break; case 3: overloadCase<8>(rng); break; default: overloadCase<17>(rng); } }
VH_MAIN
