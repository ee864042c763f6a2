// N01: numerical integration and differentiation states (nState).
#include "vh.hpp"
#include "sig.hpp"
#include <include/numa.hpp>
using namespace vh; using namespace qlibs;
struct NRef { double x0 = 0, s1 = 0, s2 = 0, mag = 0; int im = INTEGRATION_TRAPEZOIDAL, dm = DERIVATION_2POINTS;
    void init(double a, double b, double c) { x0 = a; s1 = b; s2 = c; mag = std::fabs(a); }
    void upd(double s, bool u) { if (u) { s2 = s1; s1 = s; } }
    double integ(double s, double dt, bool u) { double w = std::fabs(s) + 2 * std::fabs(s1) + std::fabs(s2);
        double d = 0; switch (im) { case INTEGRATION_RECTANGULAR: d = s * dt; break; case INTEGRATION_TRAPEZOIDAL: d = (s + s1) / 2 * dt; break; case INTEGRATION_SIMPSON: d = (s + 4 * s1 + s2) / 6 * dt; break; default: d = (5 * s + 8 * s1 - s2) / 12 * dt; }
        x0 += d; mag += 1.2e-7 * std::fabs(x0) / 3e-7 + w * std::fabs(dt); upd(s, u); return x0; }
    double der(double s, double dt, bool u, double &tol) { double d = 0, w = 4 * (std::fabs(s) + std::fabs(s1) + std::fabs(s2)); switch (dm) { case DERIVATION_2POINTS: d = (s - s1) / dt; break; case DERIVATION_BACKWARD: d = (3 * s - 4 * s1 + s2) / (2 * dt); break; default: d = (4 * s1 - 3 * s2 - s) / (2 * dt); } tol = 6e-7 * w / std::fabs(dt) + 2e-6 * std::fabs(d) + 1e-37; upd(s, u); return d; } };
static const integrationMethod IM[] = { INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC };
static const derivationMethod DM[] = { DERIVATION_2POINTS, DERIVATION_BACKWARD, DERIVATION_FORWARD };
static const char *IN[] = { "rectangular", "trapezoidal", "simpson", "quadratic" }, *DN[] = { "2-points", "backward", "forward" };
// an arbitrary interleaving of integrate/derive/init/method changes on two instances follows the documented formulas
MONITOR(history, 20000, 800000) {
    OnPattern<nState> o1(rng.chance(0.5) ? 0xFF : 0x00); nState o2; nState *o[2] = { &*o1, &o2 }; NRef r[2]; float dt0 = rng.chance(.2) ? rng.logf_(1e-8, 1e6) : rng.logf_(1e-4, 10);
    if (rng.chance(0.3)) { float a = rng.slogf_(.01, 100), b = rng.slogf_(.01, 100), c = rng.slogf_(.01, 100); o2 = nState(a, b, c); r[1].init(a, b, c); ev("ctor_values"); }
    double A = rng.chance(.2) ? rng.logf_(1e-9, 1e12) : rng.logf_(0.01, 1e4); Signal sg(rng, A); int N = 10 + (int)rng.below(80);
    for (int i = 0; i < N; ++i) {
        int k = (int)rng.below(2); nState &s = *o[k]; NRef &q = r[k]; float x = sg.next(), dt = rng.chance(0.9) ? dt0 : rng.chance(.2) ? 0.f : (rng.chance(.3) ? -1.f : 1.f) * rng.logf_(1e-4, 10); bool up = !rng.chance(0.15);
        switch (rng.below(12)) {
            case 0: { float a = rng.chance(.5) ? 0 : x, b = rng.chance(.5) ? 0 : sg.next(), c = rng.chance(.5) ? 0 : sg.next(); if (rng.chance(.3)) { s.init(); q.init(0, 0, 0); } else if (rng.chance(.3)) { s.init(a); q.init(a, 0, 0); } else { s.init(a, b, c); q.init(a, b, c); } ev("init"); break; }
            case 1: { int m = (int)rng.below(4); s.setIntegrationMethod(IM[m]); q.im = IM[m]; ev("method_change"); break; }
            case 2: { int m = (int)rng.below(3); s.setDerivationMethod(DM[m]); q.dm = DM[m]; ev("method_change"); break; }
            case 3: case 4: case 5: case 6: { if (dt == 0) dt = dt0; if (dt < 0) ev("negative_step"); double tol; double e = q.der(x, dt, up, tol); float g = (up && rng.chance(.5)) ? s.derive(x, dt) : s.derive(x, dt, up); VH_CHECK(std::fabs(g - e) <= tol, "derivative (%s) of sample %d is %.9g, expected %.9g", DN[q.dm], i, g, e); ev(DN[q.dm]); seen(sig3(7, fb(x), fb(g))); break; }
            default: { double e = q.integ(x, dt, up); float g = (up && rng.chance(.5)) ? s.integrate(x, dt) : s.integrate(x, dt, up); VH_CHECK(std::fabs(g - e) <= 3e-7 * q.mag + 1e-6 * std::fabs(e) + 1e-37, "integral (%s) after sample %d is %.9g, expected %.9g", IN[q.im], i, g, e); ev(IN[q.im]); seen(sig3(8, fb(x), fb(g))); break; }
        }
        if (!up) ev("no_update");
        for (int j = 0; j < 2; ++j) { float v = (*o[j])(); VH_CHECK(std::fabs(v - r[j].x0) <= 3e-7 * r[j].mag + 1e-6 * std::fabs(r[j].x0) + 1e-37, "state %d reads %.9g, expected %.9g", j, v, r[j].x0);
            float z = rng.chance(.2) ? rng.slogf_(1e-4, 1e7) : rng.f(-5, 5); VH_CHECK((*o[j]) * z == v * z && z * (*o[j]) == z * v && (*o[j]) + z == v + z && z + (*o[j]) == z + v && (*o[j]) - z == v - z && z - (*o[j]) == z - v, "arithmetic with a state disagrees with its value"); if (z != 0) VH_CHECK((*o[j]) / z == v / z, "division of a state by a number"); if (v != 0) VH_CHECK(z / (*o[j]) == z / v, "division by a state"); }
    }
    eg("%d operations, dt=%g, amplitude %g", N, dt0, A);
}
// exactness on polynomials: the methods integrate/differentiate the polynomials they are exact for
MONITOR(polynomial, 8000, 200000) {
    double c0 = rng.uni(-5, 5), c1 = rng.uni(-5, 5), c2 = rng.uni(-3, 3); float dt = rng.f(0.01, 0.5); int N = 3 + (int)rng.below(40); auto f = [&](int deg, double t) { return c0 + (deg > 0 ? c1 * t : 0) + (deg > 1 ? c2 * t * t : 0); }; auto F = [&](int deg, double t) { return c0 * t + (deg > 0 ? c1 * t * t / 2 : 0) + (deg > 1 ? c2 * t * t * t / 3 : 0); };
    for (int m = 0; m < 4; ++m) { int deg = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 0 : 2; nState s; s.setIntegrationMethod(IM[m]); double h = dt; s.init((float)F(deg, 2 * h), (float)f(deg, 2 * h), (float)f(deg, h)); double scale = 0, y = 0;
        for (int i = 3; i < N + 3; ++i) { y = s.integrate((float)f(deg, i * h), dt); scale = std::max(scale, std::fabs(F(deg, i * h)) + (std::fabs(c0) + std::fabs(c1) * i * h + std::fabs(c2) * i * h * i * h) * i * h); }
        double e = F(deg, (N + 2) * h); VH_CHECK(std::fabs(y - e) <= 1e-6 * (N + 3) * (scale + 1), "%s rule on a degree %d polynomial: %.9g, expected %.9g", IN[m], deg, y, e); evaln(); }
    for (int m = 0; m < 3; ++m) { int deg = m == 0 ? 1 : 2; nState s; s.setDerivationMethod(DM[m]); double h = dt; s.init(0, (float)f(deg, 2 * h), (float)f(deg, h)); for (int i = 3; i < N + 3; ++i) { double t = i * h; float g = s.derive((float)f(deg, t), dt); double at = m == 2 ? t - 2 * h : t, e = c1 + (deg > 1 ? 2 * c2 * at : 0); double w = std::fabs(c0) + std::fabs(c1) * t + std::fabs(c2) * t * t; VH_CHECK(std::fabs(g - e) <= 1e-6 * w / h + 1e-5 * std::fabs(e), "%s derivative of a degree %d polynomial at step %d: %.9g, expected %.9g", DN[m], deg, i, g, e); } evaln(); }
    seen(sig3(fb((float)c0), fb((float)c1), fb(dt))); ev("polynomial");
}
// one state in use for more than 2^16 operations of each kind: every step is the formula applied to the value it held
MONITOR(soak, 4, 80) {
    nState a, b; float dt = rng.logf_(.001, 1); int m = (int)(idx % 4), q = (int)(idx % 3); a.setIntegrationMethod(IM[m]); b.setDerivationMethod(DM[q]); NRef r, p; r.im = IM[m]; p.dm = DM[q]; Signal sg(rng, 100); sg.kind = (int)rng.pick(std::vector<int>{ 0, 1, 6 }); size_t N = 66000 + rng.below(70000);
    for (size_t i = 0; i < N; ++i) { float x = sg.next(), v = a(); r.x0 = v; double e = r.integ(x, dt, true), tol; float g = a.integrate(x, dt); VH_CHECK(std::fabs(g - e) <= 1e-6 * std::fabs(e) + 1e-6 * std::fabs(v) + 1e-4 * dt && a() == g, "integral (%s) after sample %zu of one long run is %.9g, expected %.9g", IN[m], i, g, e); double f = p.der(x, dt, true, tol); float h = b.derive(x, dt); VH_CHECK(std::fabs(h - f) <= tol, "derivative (%s) of sample %zu of one long run is %.9g, expected %.9g", DN[q], i, h, f); if (i % 64 == 0) seen(sig3(m * 3 + q, fb(x), fb(g))); } ev("long_run_samples", N);
}
VH_MAIN
