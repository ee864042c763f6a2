// S01: sliding-window smoothers (mean, mean O(1), outlier removers, Gaussian window).
#include "smooth_ref.hpp"
using namespace vh;
MONITOR(windowed, 12000, 400000) {
    int k1 = (int)(idx % 5), k2 = (int)rng.below(5); auto a = makeWindowed(rng, k1), b = makeWindowed(rng, k2);
    double wa = wide(rng, 1e4, 12); Signal s1(rng, wa), s2(rng, wa / 10); bool ok1 = true, ok2 = true; int rounds = 1 + (int)rng.below(6);
    for (int r = 0; r < rounds; ++r) {
        if (ok1) ok1 = drive(*a, s1, 5 + (int)rng.below(120), (uint64_t)k1, 1e4); if (ok2) ok2 = drive(*b, s2, 3 + (int)rng.below(30), (uint64_t)k2, 1e3);
        if (rng.chance(0.3)) { a->reset(); a->ref->unsure = false; ok1 = true; ev("reset"); } if (rng.chance(0.1)) { VH_CHECK(b->again(), "%s: repeated setup refused", b->name.c_str()); b->ref->reset(); b->fresh = true; b->ref->unsure = false; ok2 = true; ev("setup_again"); }
    }
    ev(a->name.substr(0, 4).c_str()); eg("%s and %s interleaved, %d rounds", a->name.c_str(), b->name.c_str(), rounds);
}
// the Gaussian kernel handed back to the caller is normalised, symmetric about its centre and bell shaped
MONITOR(kernel, 2000, 60000) {
    size_t n = 1 + rng.below(40); Buf<float> w(n), k(n); float sg = rng.f(0.3, 20), c = rng.f(0, (double)n - 0.01); qlibs::smootherGMWF s; VH_CHECK(s.setup(sg, c, w.p, k.p, n), "setup refused");
    w.check("the window"); k.check("the kernel"); double sum = 0; for (size_t i = 0; i < n; ++i) { sum += k[i]; VH_CHECK(k[i] >= 0 && k[i] <= 1.0001f, "kernel[%zu]=%g", i, k[i]); }
    VH_CHECK(std::fabs(sum - 1) < 1e-4, "kernel sums to %.7g", sum);
    for (size_t i = 0; i + 1 < n; ++i) { if ((double)i + 1 <= c) VH_CHECK(k[i] <= k[i + 1] * 1.0001f + 1e-9f, "kernel not rising before its centre"); if ((double)i >= c) VH_CHECK(k[i + 1] <= k[i] * 1.0001f + 1e-9f, "kernel not falling after its centre"); }
    seen(sig3(n, fb(sg), fb(c))); ev("kernel");
}
// impulse through a mean window: exactly n equal outputs, then none
MONITOR(impulse, 600, 6000) {
    size_t n = 1 + rng.below(60); Buf<float> w(n), w2(n); qlibs::smootherMWM1 a; qlibs::smootherMWM2 b; VH_CHECK(a.setup(w.p, n) && b.setup(w2.p, n), "setup"); a.smooth(0); b.smooth(0); float A = rng.f(1, 1000);
    for (size_t i = 0; i < 3 * n; ++i) { float x = i == 0 ? A : 0, e = i < n ? A / (float)n : 0; float y = a.smooth(x), z = b.smooth(x); VH_CHECK(std::fabs(y - e) <= 1e-5 * A && std::fabs(z - e) <= 1e-5 * A, "impulse response %zu of a %zu window: %g and %g, expected %g", i, n, y, z, e); }
    seen(sig2(n, fb(A))); ev("impulse");
}
// one instance in use for more than 2^16 samples; whole-number samples keep the window sums exact, so nothing may have built up
MONITOR(soak, 10, 200) {
    int k = (int)(idx % 5); size_t n = 1 + rng.below(30), N = 66000 + rng.below(6000); Buf<float> w(n), kr(n); qlibs::smootherMWM1 a; qlibs::smootherMWM2 b; qlibs::smootherMOR1 c; qlibs::smootherMOR2 d; qlibs::smootherGMWF g; float sg = rng.f(.5, 6), ct = (float)rng.below(n); qlibs::smoother *s[] = { &a, &b, &c, &d, &g }; bool ok = k == 0 ? a.setup(w.p, n) : k == 1 ? b.setup(w.p, n) : k == 2 ? c.setup(w.p, n, .3f) : k == 3 ? d.setup(w.p, n, .3f) : g.setup(sg, ct, w.p, kr.p, n); VH_CHECK(ok, "setup refused"); RMean M(n); RGauss G(sg, ct, n); bool rej = k == 2 || k == 3; double m = 100;
    for (size_t i = 0; i < N; ++i) { bool out = rej && i > 0 && rng.chance(.1); float x = rej ? (i == 0 ? 100.f : out ? (rng.chance(.5) ? 200.f : 20.f) : (float)rng.range(92, 108)) : (float)rng.range(-1000, 1000); double e; if (rej) { e = out ? m : x; m = M.step(e); } else e = k == 4 ? G.step(x) : M.step(x); float y = s[k]->smooth(x); VH_CHECK(std::fabs(y - e) <= (rej ? .3 : 1.), "smoother %d, window %zu: output %zu of one long run is %.9g, expected %.9g", k, n, i, y, e); if (i % 64 == 0) { w.check("the window"); seen(sig3(k, fb(x), fb(y))); } } ev("long_run_samples", N);
}
// windows of more than 2^16 samples; where the cost per sample allows it, over more than two windows
MONITOR(large_window, 5, 40) {
    int k = (int)(idx % 5); size_t n = 65530 + rng.below(60); if (idx < 5) n = 65537 + rng.below(30); Buf<float> w(n), kr(n); qlibs::smootherMWM1 a; qlibs::smootherMWM2 b; qlibs::smootherMOR1 c; qlibs::smootherMOR2 d; qlibs::smootherGMWF g; float sg = rng.f(3e3, 3e4), ct = (float)rng.below(n); bool ok = k == 0 ? a.setup(w.p, n) : k == 1 ? b.setup(w.p, n) : k == 2 ? c.setup(w.p, n, .3f) : k == 3 ? d.setup(w.p, n, .3f) : g.setup(sg, ct, w.p, kr.p, n); VH_CHECK(ok, "setup refused"); qlibs::smoother *s[] = { &a, &b, &c, &d, &g };
    std::vector<double> kn; if (k == 4) { double t = 0; for (size_t i = 0; i < n; ++i) { double q = (double)i - ct; kn.push_back(std::exp(-q * q / (2. * sg * sg))); t += kn.back(); } for (auto &q : kn) q /= t; }
    // a ramp away from the first value: what the outputs are depends on the number of old samples still inside
    bool rej = k == 2 || k == 3; std::vector<double> h; size_t N = k == 1 || k == 3 ? 2 * n + 100 : 60; double sum = 0, m = 100;
    for (size_t i = 0; i < N; ++i) { float x = i == 0 ? 100.f : rej ? (i % 16 == 5 ? 300.f : i % 2 ? 96.f : 120.f) : (float)(1000 + rng.below(1000)) ; if (i == 0) { h.assign(n, 100.); sum = 100. * (double)n; } double acc = rej && std::fabs(m - x) > .3 * m ? m : x; h.push_back(acc); sum += acc - h[h.size() - 1 - n]; m = sum / (double)n; double e = rej ? acc : m; if (k == 4) { e = 0; for (size_t j = 0; j < n; ++j) e += kn[j] * h[h.size() - 1 - j]; } float y = s[k]->smooth(x); VH_CHECK(std::fabs(y - e) <= 2e-3 * std::fabs(e) , "smoother %d, window %zu: output %zu is %.9g, expected %.9g", k, n, i, y, e); if (i % 64 == 0) seen(sig3(k, fb(x), fb(y))); evaln(); } w.check("the window"); kr.check("the kernel"); ev("large_window", N);
}
VH_MAIN
