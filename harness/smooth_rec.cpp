// S02: recursive smoothers (LPF1, LPF2, EXPW, KLMN, DESF, ALNF).
#include "smooth_ref.hpp"
using namespace vh;
MONITOR(recursive, 14000, 400000) {
    int k1 = (int)(idx % 6), k2 = (int)rng.below(6); auto a = makeRecursive(rng, k1), b = makeRecursive(rng, k2);
    double A1 = a->adaptive ? 1.5 : 1e4, A2 = b->adaptive ? 1.0 : 1e3; Signal s1(rng, A1), s2(rng, A2); bool ok1 = true, ok2 = true; int rounds = 1 + (int)rng.below(5);
    for (int r = 0; r < rounds; ++r) {
        if (ok1) ok1 = drive(*a, s1, 5 + (int)rng.below(a->adaptive ? 50 : 100), (uint64_t)k1, A1); if (ok2) ok2 = drive(*b, s2, 3 + (int)rng.below(30), (uint64_t)k2, A2);
        if (rng.chance(0.3)) { a->reset(); a->ref->unsure = false; ok1 = true; ev("reset"); } if (rng.chance(0.1)) { VH_CHECK(b->again(), "%s: repeated setup refused", b->name.c_str()); b->ref->unsure = false; b->ref->reset(); b->fresh = true; ok2 = true; ev("setup_again"); }
    }
    ev(a->name.substr(0, 4).c_str()); eg("%s and %s interleaved, %d rounds", a->name.c_str(), b->name.c_str(), rounds);
}
// a constant input is reproduced in steady state by every recursive smoother
MONITOR(constant, 3000, 60000) {
    int k = (int)(idx % 5); auto a = makeRecursive(rng, k); float c = rng.slogf_(0.01, 1e4); float y = 0; int N = 4000; for (int i = 0; i < N; ++i) y = a->feed(c);
    if (k == 4 || k == 1) for (int i = 0; i < 20000; ++i) y = a->feed(c);
    VH_CHECK(std::fabs(y - c) <= 1e-3 * std::fabs(c), "%s: constant input %g settles at %g", a->name.c_str(), c, y); seen(sig3(k, fb(c), fb(y))); ev("steady_state");
}
// the Kalman gain settles on the fixed point of its Riccati recursion
MONITOR(kalman_gain, 500, 5000) {
    float q = rng.logf_(1e-2, 10), r = rng.logf_(1e-2, 10), p = rng.logf_(1e-2, 10); qlibs::smootherKLMN s; VH_CHECK(s.setup(q, r, p), "setup"); for (int i = 0; i < 400; ++i) s.smooth(0); float y = s.smooth(1); double P = (q + std::sqrt((double)q * q + 4.0 * q * r)) / 2, g = P / (P + r); VH_CHECK(std::fabs(y - g) <= 2e-3, "steady-state gain %g, expected %g (q=%g r=%g)", y, g, q, r); seen(sig2(fb(q), fb(r))); ev("kalman_gain");
}
// the adaptive filter learns: its error power falls on a predictable signal
MONITOR(adaptation, 300, 3000) {
    size_t n = 4 + rng.below(8); Buf<float> w(n), k(n), k1(n); bool mom = rng.chance(0.5); qlibs::smootherALNF s; VH_CHECK(s.setup(0.02f, mom ? 0.3f : 0.0f, n, w.p, k.p, mom ? k1.p : nullptr), "setup"); double per = rng.uni(8, 20), e1 = 0, e2 = 0; for (int i = 0; i < 2000; ++i) { float x = (float)std::sin(6.283185307 * i / per); float y = s.smooth(x); if (i >= 20 && i < 120) e1 += (x - y) * (x - y); if (i >= 1900) e2 += (x - y) * (x - y); }
    VH_CHECK(e2 <= e1 * 0.9 + 1e-3, "ALNF n=%zu: error power %g did not fall (%g at start)", n, e2, e1); w.check("window"); k.check("weights"); k1.check("previous weights"); seen(sig2(n, (uint64_t)(per * 1e6))); ev("adaptation");
}
// one instance in use for more than 2^16 samples, with memories of thousands of samples
MONITOR(soak, 12, 240) {
    int k = (int)(idx % 6); auto u = makeRecursive(rng, k); bool slow = k == 5 || rng.chance(.3); double A = 1000, level = 0; size_t N = 66000 + rng.below(6000); Signal sg(rng, 1.2); if (k == 5) { k = 2; } if (k == 2 && (slow || rng.chance(.5))) { auto *s = new qlibs::smootherEXPW; u.reset(new Unit); u->s.reset(s); float l = rng.pick(std::vector<float>{ .999995f, .99999f, .9999f, .9997f, .999f }); VH_CHECK(s->setup(l), "setup(%g) refused", l); u->ref.reset(new REXPW(l)); u->relTol = 1e-3; char b[40]; snprintf(b, sizeof b, "EXPW(%g)", l); u->name = b; } int64_t left = 0;
    for (size_t i = 0; i < N; ++i) { if (left-- <= 0) { level = rng.uni(-.8, .8) * A; left = (int64_t)rng.logf_(1, 20000); } float x = (float)(level + rng.uni(-.2, .2) * A); float y = u->feed(x); double e = u->ref->step(x), tol = 10 * u->relTol * u->amplification * A + 1e-3 * A; VH_CHECK(std::fabs(y - e) <= tol, "%s: output %zu of one long run is %.9g, expected %.9g", u->name.c_str(), i, y, e); if (i % 64 == 0) seen(sig3(k, fb(x), fb(y))); } ev("long_run_samples", N);
}
// adaptive filters of more than 2^16 weights
MONITOR(large_filter, 3, 30) {
    size_t n = 65537 + rng.below(40); Buf<float> x(n), w(n), w1(n); bool mom = idx % 2; float al = rng.f(1e-7, 1e-6), mu = mom ? rng.f(.01, .5) : 0.f; qlibs::smootherALNF s; VH_CHECK(s.setup(al, mu, n, x.p, w.p, mom || rng.chance(.3) ? w1.p : nullptr), "setup refused"); AlnfT<double> d; d.a = al; d.mu = mu; d.n = n; float c = rng.f(.5, 2); for (int i = 0; i < 25; ++i) { float u = i < 3 ? c : c + rng.f(-1, 1), y = s.smooth(u); double e = d.step(u); VH_CHECK(std::fabs(y - e) <= 2e-2 * (std::fabs(e) + 1), "%zu weights: output %d is %.9g, expected %.9g", n, i, y, e); seen(sig3(n, fb(u), fb(y))); evaln(); } x.check("the window"); w.check("the weights"); w1.check("the previous weights"); ev("large_filter");
}
VH_MAIN
