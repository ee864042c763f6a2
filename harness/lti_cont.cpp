// L02: continuous transfer functions.
#include "lti_ref.hpp"
using namespace vh; using namespace qlibs;
// controllable canonical form advanced with the selected integration rule; instantiated in double (the oracle) and in
// single precision (how much rounding the system amplifies)
template <class T> struct CSim { size_t n; std::vector<T> b, a, x, s1, s2; T dt; int im = INTEGRATION_TRAPEZOIDAL; T b0; double mag = 0;
    void setup(const std::vector<float> &num, const std::vector<float> &den, float dt_) { n = den.size() - 1; dt = dt_; b.clear(); a.clear(); for (float v : num) b.push_back((T)(v / den[0])); for (float v : den) a.push_back((T)(v / den[0])); b0 = b[0]; clear(); }
    void clear() { x.assign(n, 0); s1 = x; s2 = x; }
    void init(const std::vector<float> &v) { for (size_t i = 0; i < n; ++i) x[i] = s1[i] = s2[i] = v[i]; }
    T rule(T s, T p, T q) { switch (im) { case INTEGRATION_RECTANGULAR: return s * dt; case INTEGRATION_TRAPEZOIDAL: return (s + p) / 2 * dt; default: return (s + 4 * p + q) / 6 * dt; } }
    T step(T u) { std::vector<T> dx(n); T d = u; for (size_t i = 0; i < n; ++i) { d -= a[i + 1] * x[i]; if (i) dx[i] = x[i - 1]; } dx[0] = d; for (size_t i = 0; i < n; ++i) { x[i] += rule(dx[i], s1[i], s2[i]); s2[i] = s1[i]; s1[i] = dx[i]; } T y = b0 * u; mag = std::fabs((double)(b0 * u)); for (size_t i = 0; i < n; ++i) { y += (b[i + 1] - a[i + 1] * b0) * x[i]; mag += (std::fabs((double)b[i + 1]) + std::fabs((double)(a[i + 1] * b0))) * std::fabs((double)x[i]); } return y; } };
#if defined(BUILD_OBS)
static const bool OBS = true;   // observable canonical form: same transfer function, another meaning of the initial states
#else
static const bool OBS = false;
#endif
static const integrationMethod IM[] = { INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON };
struct CSys { std::vector<float> num, den; std::unique_ptr<Buf<float>> bn, bd; std::unique_ptr<nState[]> x; std::unique_ptr<continuousSystem> s; CSim<double> d; CSim<float> f; double spread = 0, big = 0; bool dead = false; float dt; size_t n, k = 0;
    CSys(Rng &r, size_t n_, bool slow = false, bool wild = false) : n(n_) {
        // poles in the left half plane, time step a fraction of the fastest time constant
        std::vector<std::complex<double>> p; double fast = 0; while (p.size() < n) { double re = (wild ? r.uni(-1, 1) : -1) * r.uni(0.2, 3); if (n - p.size() >= 2 && r.chance(0.4)) { double im = r.uni(0.1, 3); p.push_back({re, im}); p.push_back({re, -im}); fast = std::max(fast, std::hypot(re, im)); } else { p.push_back(re); fast = std::max(fast, std::fabs(re)); } }
        auto q = polyFrom(p); float a0 = r.chance(0.5) ? 1.f : r.chance(.2) ? r.slogf_(1e-4, 1e5) : r.slogf_(0.2, 5); for (double v : q) den.push_back((float)(v * a0)); den[0] = a0; size_t z = r.below(n + 1); for (size_t i = 0; i <= n; ++i) num.push_back(i < n - z ? 0.f : r.f(-3, 3)); if (r.chance(0.3)) num[0] = r.f(-2, 2);
        dt = (float)(r.uni(slow ? 0.002 : 0.005, slow ? 0.004 : 0.1) / fast); bn.reset(new Buf<float>(n + 1)); bd.reset(new Buf<float>(n + 1)); bn->set(num); bd->set(den); x.reset(new nState[n]);
        if (r.chance(.3)) { // an object that was another system before
            size_t m = 1 + r.below(6); Buf<float> n0(m + 1), d0(m + 1); std::unique_ptr<nState[]> x0(new nState[m]); for (size_t i = 0; i <= m; ++i) { n0[i] = r.f(-3, 3); d0[i] = r.f(.1, 1); } s.reset(new continuousSystem(n0.p, d0.p, x0.get(), m, r.f(.001, .1))); for (size_t i = r.below(6); i; --i) s->excite(r.f(-9, 9)); if (r.chance(.5)) VH_CHECK(s->setIntegrationMethod(IM[r.below(3)]), "integration method refused"); VH_CHECK(s->setup(bn->p, bd->p, x.get(), n, dt), "setup of a system that was in use refused"); ev(m > n ? "was_larger" : "was_not_larger"); }
        else s.reset(new continuousSystem(bn->p, bd->p, x.get(), n, dt));
        VH_CHECK(s->isInitialized() && s->getType() == LTISYS_TYPE_CONTINUOUS, "continuous system with valid parameters is not initialised"); d.setup(num, den, dt); f.setup(num, den, dt); }
    void method(int m) { VH_CHECK(s->setIntegrationMethod(IM[m]), "integration method refused"); d.im = f.im = IM[m]; }
    void clear() { d.clear(); f.clear(); spread = 0; big = 0; dead = false; k = 0; }
    float step(float u) { float y = s->excite(u); bn->check("numerator"); bd->check("denominator"); double e = d.step(u), z = f.step(u); big = std::max(big, d.mag); spread = std::max(spread, std::fabs(e - z)); if (!(spread <= 1e-2 * big + 1e-3)) dead = true; if (dead) { ev("ill_conditioned_skipped"); return y; } double tol = 3e-6 * big + 50 * spread + 1e-30; VH_CHECK(std::fabs(y - e) <= tol, "order %zu: output %zu is %.9g, expected %.9g (tolerance %g)", n, k, y, e, tol); ++k; seen(sig3(n, fb(u), fb(y))); return y; }
};
MONITOR(response, 8000, 300000) {
    size_t n = idx < 6 ? 1 + idx : 1 + rng.below(5); CSys a(rng, n, false, rng.chance(.15)), b(rng, 1 + rng.below(4)); if (rng.chance(0.7)) a.method((int)rng.below(3)); if (rng.chance(0.5)) b.method((int)rng.below(3)); double wa = wide(rng, 50); Signal s1(rng, wa), s2(rng, wa); int N = 30 + (int)rng.below(300);
    for (int i = 0; i < N; ++i) { a.step(s1.next()); if (rng.chance(0.5)) b.step(s2.next());
        if (rng.chance(0.005)) { VH_CHECK(a.s->setInitStates(), "setInitStates refused"); a.clear(); ev("reset_states"); }
        else if (!OBS && rng.chance(0.005)) { std::vector<float> x0(n); for (auto &v : x0) v = rng.f(-3, 3); VH_CHECK(a.s->setInitStates(x0.data()), "setInitStates refused"); a.clear(); a.d.init(x0); a.f.init(x0); ev("init_states"); } }
    char o[16]; snprintf(o, sizeof o, "order_%zu", n); ev(o); if (a.num[0] != 0) ev("biproper"); eg("order %zu, dt=%g, %d samples", n, a.dt, N);
}
// against the analytic step response (matrix exponential) with a small time step: the discretisation error is small
MONITOR(truth, 400, 8000) {
    size_t n = 1 + rng.below(4); CSys a(rng, n, true); int m = (int)rng.below(3); a.method(m);
    // exact ZOH discretisation by scaling and squaring of exp(M dt), M=[[A,B],[0,0]]
    size_t N = n + 1; auto mul = [&](const std::vector<double> &X, const std::vector<double> &Y) { std::vector<double> Z(N * N, 0); for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < N; ++k) for (size_t j = 0; j < N; ++j) Z[i * N + j] += X[i * N + k] * Y[k * N + j]; return Z; };
    std::vector<double> M(N * N, 0); for (size_t j = 0; j < n; ++j) M[j] = -a.d.a[j + 1] * a.dt; M[n] = a.dt; for (size_t i = 1; i < n; ++i) M[i * N + i - 1] = a.dt; std::vector<double> E(N * N, 0), T(N * N, 0); for (size_t i = 0; i < N; ++i) E[i * N + i] = T[i * N + i] = 1; for (int k = 1; k < 25; ++k) { T = mul(T, M); for (auto &v : T) v /= k; for (size_t i = 0; i < N * N; ++i) E[i] += T[i]; }
    std::vector<double> x(n, 0); float u = rng.f(-10, 10); double peak = 0, worst = 0, sens = 0; for (size_t i = 0; i < n; ++i) sens = std::max(sens, 0.0); double prev = a.d.b0 * u;
    for (int k = 0; k < 2500; ++k) { std::vector<double> xn(n, 0); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) xn[i] += E[i * N + j] * x[j]; xn[i] += E[i * N + n] * u; } x = xn; double y = a.d.b0 * u, mag = std::fabs(y); for (size_t i = 0; i < n; ++i) { double c = (a.d.b[i + 1] - a.d.a[i + 1] * a.d.b0) * x[i]; y += c; mag += std::fabs(c); } peak = std::max(peak, mag); worst = std::max(worst, std::fabs(a.s->excite(u) - y)); prev = y; }
    (void)prev; double tol = 0.06 * peak + 0.05 * std::fabs(u) * 1; maxi("worst_relative_discretisation_error", worst / (peak + 1e-9)); VH_CHECK(worst <= tol, "step response of an order %zu system deviates from the exact one by %g (peak %g, dt=%g, rule %d)", n, worst, peak, a.dt, m); seen(sig3(n, fb(u), fb(a.dt))); ev("exact_step_response");
}
// steady state of a constant input is the static gain num(0)/den(0)
MONITOR(dcgain, 500, 10000) {
    CSys s(rng, 1 + rng.below(4)); s.method((int)rng.below(3)); float u = rng.slogf_(0.1, 50); float y = 0; int N = (int)(80.0 / s.dt); if (N > 120000) N = 120000; if (s.dt < 80.0 / 120000) return; double w = 0; for (int i = 0; i < N; ++i) { y = s.s->excite(u); w = s.d.step(u); } double e = s.d.b.back() / s.d.a.back() * u, mag = 0; for (double b : s.d.b) mag += std::fabs(b); if (!(std::fabs(w - e) <= 1e-5 * (std::fabs(e) + std::fabs(u)))) { ev("rule_unstable_skipped"); return; } VH_CHECK(std::fabs(y - e) <= 2e-3 * (std::fabs(e) + mag * std::fabs(u) / s.d.a.back()) + 1e-3 * std::fabs(u), "steady state %.9g, expected %.9g (order %zu)", y, e, s.n); seen(sig2(fb(u), fb(y))); ev("dc_gain");
}
// the other ways of defining the same system
MONITOR(construction, 1500, 30000) {
    float n3[3], d3[3] = { rng.f(.5, 2), rng.f(.5, 3), rng.f(.5, 3) }; for (auto &v : n3) v = rng.f(-2, 2); float n2[2] = { rng.f(-1, 1), rng.f(-2, 2) }, d2[2] = { rng.f(.5, 2), rng.f(.2, 3) }; const float dt = rng.f(0.005, 0.05);
    continuousTF<2> t2(n3, d3); continuousTF<1> t1(n2, d2); continuousSystem s2(t2, dt), s1(t1, dt); float m3[3], e3[3]; std::memcpy(m3, n3, sizeof m3); std::memcpy(e3, d3, sizeof e3); nState x2[2]; continuousSystem r2(m3, e3, x2, (size_t)2, dt);
    CSim<double> q2, q1; q2.setup({n3, n3 + 3}, {d3, d3 + 3}, dt); q1.setup({n2, n2 + 2}, {d2, d2 + 2}, dt); for (int i = 0; i < 100; ++i) { float u = rng.f(-10, 10), a = s2.excite(u), b = r2.excite(u), c = s1.excite(u); double e2 = q2.step(u), e1 = q1.step(u); VH_CHECK(std::fabs(a - e2) <= 1e-3 && a == b && std::fabs(c - e1) <= 1e-3, "systems built from a transfer-function object: %g %g expected %g; %g expected %g", a, b, e2, c, e1); seen(sig3(fb(u), fb(a), fb(c))); } ev("constructed");
}
// every overload, also on an instance and on states that were already in use, starts from rest
namespace { template <size_t N> void againCase(Rng &rng) {
    float num[N + 1], den[N + 1]; std::vector<std::complex<double>> po; for (size_t i = 0; i < N; ++i) po.push_back(-rng.uni(.3, 3)); auto q = polyFrom(po); float a0 = rng.f(.5, 2); for (size_t i = 0; i <= N; ++i) { den[i] = (float)q[i] * a0; num[i] = rng.f(-2, 2); } float dt = rng.f(0.005, 0.03);
    float n1[N + 1], d1[N + 1], n2[N + 1], d2[N + 1]; auto cp = [&] { std::memcpy(n1, num, sizeof num); std::memcpy(d1, den, sizeof den); std::memcpy(n2, num, sizeof num); std::memcpy(d2, den, sizeof den); }; cp(); nState x1[N], x2[N]; for (size_t i = 0; i < N; ++i) { x1[i].init(rng.f(-5, 5), rng.f(-5, 5), rng.f(-5, 5)); x2[i].init(rng.f(-5, 5), rng.f(-5, 5), rng.f(-5, 5)); } continuousTF<N> t(num, den);
    continuousSystem a(n1, d1, x1, dt), b(&n2[0], &d2[0], x2, N, dt), c(t, dt); bool again = rng.chance(.5); if (again) { for (int i = 0; i < 15; ++i) { a.excite(rng.f(-5, 5)); b.excite(rng.f(-5, 5)); c.excite(rng.f(-5, 5)); } cp(); VH_CHECK(a.setup(n1, d1, x1, dt) && b.setup(&n2[0], &d2[0], x2, N, dt), "repeated setup refused"); continuousTF<N> t2(num, den); t.num[0] = t2.num[0]; std::memcpy(t.num, num, sizeof num); std::memcpy(t.den, den, sizeof den); VH_CHECK(c.setup(t, dt), "repeated setup refused"); }
    CSim<double> r; r.setup({num, num + N + 1}, {den, den + N + 1}, dt); double big = 1; for (int i = 0; i < 60; ++i) { float u = rng.f(-10, 10), p0 = a.excite(u), p1 = b.excite(u), p2 = c.excite(u); double e = r.step(u); big = std::max(big, r.mag); VH_CHECK(std::fabs(p0 - e) < 1e-4 * big && std::fabs(p1 - e) < 1e-4 * big && std::fabs(p2 - e) < 1e-4 * big, "order %zu, %s: output %d is %g (arrays) %g (pointers) %g (transfer function), expected %g", N, again ? "set up again" : "used states", i, p0, p1, p2, e); seen(sig3(N, fb(u), fb(p0))); } ev(again ? "setup_again" : "dirty_states"); } }
MONITOR(setup_again, 2000, 40000) { switch (idx % 4) { case 0: againCase<1>(rng); break; case 1: againCase<2>(rng); break; case 2: againCase<3>(rng); break; default: againCase<4>(rng); } }
// the realisation selected at compile time is the one in use: its states are observable in the caller's array
MONITOR(realisation, 500, 5000) {
    CSys a(rng, 2 + rng.below(3)); bool ok = true; double b0 = a.d.b0, m = 1; for (int i = 0; i < 40; ++i) { float u = rng.f(-10, 10), y = a.s->excite(u); if (OBS) { m = std::max(m, (double)std::fabs(y)); ok = ok && std::fabs(a.x[0]() + b0 * u - y) <= 1e-5 * (m + std::fabs(b0 * u)); } else { double e = b0 * u, w = std::fabs(e); for (size_t k = 0; k < a.n; ++k) { double c = (a.d.b[k + 1] - a.d.a[k + 1] * b0) * a.x[k](); e += c; w += std::fabs(c); } ok = ok && std::fabs(e - y) <= 1e-5 * (w + 1); } evaln(); }
    VH_CHECK(ok, "the states of the %s canonical form do not give the output", OBS ? "observable" : "controllable"); seen(sig2(a.n, fb(a.dt))); ev(OBS ? "observable_form" : "controllable_form");
}
// one system in use for more than 2^16 samples
MONITOR(soak, 4, 80) { size_t n = 1 + rng.below(3), N = 66000 + rng.below(6000); CSys a(rng, n); a.method((int)rng.below(3)); Signal sg(rng, 20); sg.kind = (int)rng.pick(std::vector<int>{ 0, 1, 6 }); for (size_t i = 0; i < N; ++i) a.step(sg.next()); ev(a.dead ? "long_run_undecided" : "long_run_samples", N); }
// orders beyond 2^8, judged over the few samples that follow given states
MONITOR(high_order, 12, 120) {
    size_t n = idx == 0 ? 255 : idx == 1 ? 256 : idx == 2 ? 257 : 250 + rng.below(400); Buf<float> b(n + 1), a(n + 1); a[0] = rng.chance(.5) ? 1.f : 2.f; b[0] = (float)rng.range(-1, 1); for (size_t i = 1; i <= n; ++i) { a[i] = rng.f(-.3, .3); b[i] = (float)rng.range(-3, 3); } std::vector<float> num = b.vec(), den = a.vec(); float dt = .01f; std::unique_ptr<nState[]> x(new nState[n]); continuousSystem s(b.p, a.p, x.get(), n, dt); VH_CHECK(s.isInitialized(), "a system of order %zu is not initialised", n); int m = (int)rng.below(3); VH_CHECK(s.setIntegrationMethod(IM[m]), "integration method refused"); CSim<double> r; r.setup(num, den, dt); r.im = IM[m]; if (!OBS) { std::vector<float> x0(n); for (auto &v : x0) v = rng.f(-5, 5); VH_CHECK(s.setInitStates(x0.data()), "setInitStates refused"); r.init(x0); }
    for (int k = 0; k < 25; ++k) { float u = rng.f(-10, 10), y = s.excite(u); double e = r.step(u); VH_CHECK(std::fabs(y - e) <= 1e-4 * r.mag + 1e-3, "order %zu: output %d is %.9g, expected %.9g", n, k, y, e); seen(sig3(n, fb(u), fb(y))); } b.check("the numerator"); a.check("the denominator"); ev("high_order");
}
// ... and so are transfer-function objects of such orders
template <size_t N> static void longObject(Rng &rng) {
    struct C { float b[N + 1], a[N + 1], m[N + 1], e[N + 1]; nState x[N]; }; std::unique_ptr<C> c(new C); for (size_t i = 0; i <= N; ++i) { c->a[i] = rng.f(-.3, .3); c->b[i] = (float)rng.range(-3, 3); } c->a[0] = 2; std::memcpy(c->m, c->b, sizeof c->m); std::memcpy(c->e, c->a, sizeof c->e);
    std::unique_ptr<continuousTF<N>> t(new continuousTF<N>(c->b, c->a)); for (size_t i = 0; i <= N; ++i) VH_CHECK(fb(t->num[i]) == fb(c->m[i]) && fb(t->den[i]) == fb(c->e[i]), "coefficient %zu of an object of order %zu is %g and %g, %g and %g given", i, N, t->num[i], t->den[i], c->m[i], c->e[i]);
    continuousSystem s(*t, .01f), r(&c->m[0], &c->e[0], c->x, N, .01f); VH_CHECK(s.isInitialized() && r.isInitialized(), "an object of order %zu is refused", N);
    for (int i = 0; i < 25; ++i) { float u = rng.f(-10, 10), p = s.excite(u), q = r.excite(u); VH_CHECK(fb(p) == fb(q), "order %zu: output %d is %.9g from the object and %.9g from the same coefficients", N, i, p, q); seen(sig3(N, i, fb(p))); } ev("long_object");
}
MONITOR(long_objects, 9, 90) { switch (idx % 3) { case 0: longObject<257>(rng); break; case 1: longObject<300>(rng); break; default: longObject<1>(rng); } }
VH_MAIN
