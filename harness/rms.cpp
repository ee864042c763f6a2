// R01: running RMS estimate.
#include <include/rms.hpp>
#include "smooth_ref.hpp"
using namespace vh;
namespace {
struct RRms { REXPW e; RMean m; RLPF1 l; RRms(size_t n) : e(0.99f), m(n), l(0.75f) {} double step(double x) { return l.step(m.step(std::sqrt(e.step(x * x)))); } };
}
MONITOR(model, 4000, 120000) {
    size_t n = pickN(rng); std::vector<std::unique_ptr<Buf<float>>> ws; ws.emplace_back(new Buf<float>(n, 0xFF)); qlibs::rms r; VH_CHECK(r.setup(ws[0]->p, n), "setup refused"); RRms ref(n); float a = 0.75f, l = 0.99f;
    if (rng.chance(0.5)) { l = rng.chance(0.1) ? 1.f : rng.f(0.5, 0.999); a = rng.f(0.05, 0.99); VH_CHECK(r.setParams(l, a), "setParams(%g,%g) refused", l, a); ref.e.l = l; ref.l.a = a; ev("setParams"); }
    Signal s(rng, wide(rng, 1e3, 14.5)); double mx = 0, mn = 1e30; int N = 20 + (int)rng.below(150), warm = 0;
    for (int i = 0; i < N; ++i) {
        float x = s.next(); float y = r.update(x); double e = ref.step(x); for (auto &b : ws) b->check("the rms window"); mx = std::max(mx, (double)std::fabs(x)); mn = std::min(mn, (double)std::fabs(x));
        double tol = 1e-4 * mx + 1e-4 * e + 1e-25; VH_CHECK(std::fabs(y - e) <= tol, "rms window %zu lambda %g alpha %g: output %d is %.8g, expected %.8g", n, l, a, i, y, e);
        VH_CHECK(y >= mn - tol && y <= mx + tol, "rms %g outside [%g,%g] of the magnitudes seen", y, mn, mx); seen(sig3(n, fb(x), fb(y)));
        if (rng.chance(0.02)) { float bl = rng.chance(0.5) ? 0.f : 1.5f; VH_CHECK(!r.setParams(bl, 0.5f) && !r.setParams(0.5f, rng.chance(0.4) ? -0.1f : rng.chance(.5) ? 0.f : 1.01f), "invalid parameters accepted"); VH_CHECK(!r.setup(nullptr, n) && !r.setup(ws.back()->p, 0), "invalid setup accepted"); ev("refused"); }
        if (rng.chance(0.01) && ++warm < 3) { if (rng.chance(.6)) { n = pickN(rng); ws.emplace_back(new Buf<float>(n, 0xFF)); ev("other_window"); } VH_CHECK(r.setup(ws.back()->p, n), "repeated setup refused"); ref = RRms(n); a = 0.75f; l = 0.99f; mx = 0; mn = 1e30; ev("setup_again"); }
    }
    ev("updates", (uint64_t)N); eg("window %zu lambda %g alpha %g, %d updates", n, l, a, N);
}
// scale and sign: the estimate is even in its input and homogeneous
MONITOR(symmetry, 1500, 30000) { size_t n = pickN(rng); Buf<float> w1(n), w2(n), w3(n); qlibs::rms a, b, c; VH_CHECK(a.setup(w1.p, n) && b.setup(w2.p, n) && c.setup(w3.p, n), "setup"); Signal s(rng, 100); double mx = 0; for (int i = 0; i < 80; ++i) { float x = s.next(); mx = std::max(mx, (double)std::fabs(x)); float y = a.update(x), z = b.update(-x), q = c.update(4 * x); VH_CHECK(y == z, "rms of the negated signal differs: %g %g", y, z); VH_CHECK(std::fabs(q - 4 * y) <= 1e-4 * (4 * mx) + 1e-25, "rms of 4x is %g, 4*rms(x) is %g", q, 4 * y); seen(sig2(fb(x), fb(y))); } ev("symmetry"); }
// periodic signals: converges to the true RMS value
MONITOR(sine, 300, 4000) { size_t n = 8 + rng.below(50); Buf<float> w(n); qlibs::rms r; r.setup(w.p, n); double A = rng.uni(0.1, 100), per = rng.uni(5, 25), dc = rng.chance(0.5) ? 0 : rng.uni(-50, 50); float y = 0; double mean = 0; for (int i = 0; i < 3000; ++i) { y = r.update((float)(dc + A * std::sin(6.283185307 * i / per))); if (i >= 2000) mean += y; } mean /= 1000; double e = std::sqrt(dc * dc + A * A / 2); VH_CHECK(std::fabs(mean - e) <= 0.06 * e, "rms of %g + %g*sine(period %g): %g, expected %g", dc, A, per, mean, e); seen(sig2((uint64_t)(A * 1e6), n)); ev("true_rms"); float c = rng.slogf_(0.01, 1e3); r.setup(w.p, n); for (int i = 0; i < 5; ++i) { y = r.update(c); VH_CHECK(std::fabs(y - std::fabs(c)) <= 1e-4 * std::fabs(c), "rms of constant %g is %g", c, y); } }
// acceptance of the parameters over their whole documented range, and the array overload
MONITOR(params, 1500, 20000) {
    auto lim = [&] { switch (rng.below(8)) { case 0: return 1.f; case 1: return std::nextafter(1.f, 0.f); case 2: return std::nextafter(1.f, 2.f); case 3: return 1.0005f; case 4: return -rng.logf_(1e-6, 2); case 5: return rng.logf_(1e-9, 1e-3); case 6: return 0.f; default: return rng.f(0.001, 1); } };
    float w1[9], w2[9]; qlibs::rms a, b; VH_CHECK(a.setup(w1), "setup(array) refused"); VH_CHECK(b.setup(&w2[0], 9), "setup(pointer) refused"); Signal s(rng, 100); float l = lim(), al = lim();
    bool valid = l > 0 && l <= 1 && al > 0 && al <= 1, edge = l == 0 || al == 0; bool ra = a.setParams(l, al), rb = b.setParams(l, al);
    if (!edge) VH_CHECK(ra == valid, "setParams(%.9g,%.9g) returned %d", l, al, (int)ra); VH_CHECK(ra == rb, "setParams(%.9g,%.9g) depends on the way the instance was set up", l, al);
    if (valid || !ra) { RRms ref(9); if (ra) { ref.e.l = l; ref.l.a = al; } double mx = 0; for (int i = 0; i < 30; ++i) { float x = s.next(), y = a.update(x), z = b.update(x); double e = ref.step(x); mx = std::max(mx, (double)std::fabs(x)); VH_CHECK(y == z, "array and pointer setups differ: %g %g", y, z); VH_CHECK(std::fabs(y - e) <= 1e-4 * mx + 1e-4 * e + 1e-25, "lambda %.9g alpha %.9g (%s): output %d is %.8g, expected %.8g", l, al, ra ? "accepted" : "refused", i, y, e); seen(sig3(fb(l), fb(al), fb(y))); } }
    ev(valid ? "params_accepted" : "params_refused");
}
// one estimator in use for more than 2^16 samples
MONITOR(soak, 3, 60) { size_t n = 1 + rng.below(40), N = 66000 + rng.below(6000); Buf<float> w(n); qlibs::rms r; VH_CHECK(r.setup(w.p, n), "setup refused"); RRms ref(n); double A = rng.logf_(.01, 1000), lv = 0; int64_t left = 0; for (size_t i = 0; i < N; ++i) { if (left-- <= 0) { lv = rng.uni(-.9, .9) * A; left = (int64_t)rng.logf_(1, 5000); } float x = (float)(lv + .1 * A * rng.uni(-1, 1)), y = r.update(x); double e = ref.step(x); VH_CHECK(std::fabs(y - e) <= 1e-3 * A, "rms window %zu: output %zu of one long run is %.8g, expected %.8g", n, i, y, e); if (i % 64 == 0) { w.check("the rms window"); seen(sig3(n, fb(x), fb(y))); } } ev("long_run_samples", N); }
VH_MAIN
