// L01: discrete transfer functions realise their difference equation.
#include "lti_ref.hpp"
using namespace vh; using namespace qlibs;
struct DSys { size_t nb, na; float a0; std::vector<float> num, den; std::unique_ptr<Buf<float>> bn, bd, bx; std::unique_ptr<discreteSystem> s; DTF ref; double growth = 0;
    DSys(Rng &r, size_t nb_, size_t na_) : nb(nb_), na(na_) {
        a0 = r.chance(0.4) ? 1.f : r.chance(.2) ? r.slogf_(1e-6, 1e6) : r.slogf_(0.1, 10); auto roots = discRoots(r, na - 1, 0.85); auto p = polyFrom(roots); for (size_t i = 0; i < na; ++i) den.push_back((float)(p[i] * a0)); den[0] = a0;
        for (size_t i = 0; i < nb; ++i) num.push_back(r.chance(0.15) ? 0.f : r.f(-3, 3)); if (r.chance(0.2)) num[0] = 0;
        bn.reset(new Buf<float>(nb)); bd.reset(new Buf<float>(na)); bx.reset(new Buf<float>(std::max(na, nb), (unsigned char)r.u32())); bn->set(num); bd->set(den);
        for (float x : num) ref.b.push_back((double)(x / a0)); for (float x : den) ref.a.push_back((double)(x / a0));
        if (r.chance(.3)) { // an object that was another system before
            size_t ob = 1 + r.below(9), oa = 1 + r.below(9); Buf<float> n0(ob), d0(oa), x0(std::max(ob, oa)); for (size_t i = 0; i < ob; ++i) n0[i] = r.f(-3, 3); for (size_t i = 0; i < oa; ++i) d0[i] = r.f(-.1, .1); d0[0] = 2; s.reset(new discreteSystem(n0.p, d0.p, x0.p, ob, oa)); for (size_t i = r.below(6); i; --i) s->excite(r.f(-9, 9)); VH_CHECK(s->setup(bn->p, bd->p, bx->p, nb, na), "setup of a system that was in use refused"); ev(std::max(ob, oa) > std::max(nb, na) ? "was_larger" : "was_not_larger"); }
        else s.reset(new discreteSystem(bn->p, bd->p, bx->p, nb, na));
        VH_CHECK(s->isInitialized() && s->getType() == LTISYS_TYPE_DISCRETE, "discrete system with valid parameters is not initialised");
        for (size_t i = 0; i < nb; ++i) VH_CHECK(near((*bn)[i], ref.b[i], 1e-30, 1e-6), "numerator[%zu] normalised to %g, expected %g", i, (*bn)[i], ref.b[i]); for (size_t i = 0; i < na; ++i) VH_CHECK(near((*bd)[i], ref.a[i], 1e-30, 1e-6), "denominator[%zu] normalised to %g, expected %g", i, (*bd)[i], ref.a[i]);
        // impulse-response mass of 1/A: amplification of rounding errors
        std::vector<double> h; double m = 0; for (size_t k = 0; k < 300; ++k) { double v = k == 0; for (size_t j = 1; j < na && j <= k; ++j) v -= ref.a[j] * h[k - j]; h.push_back(v); m += std::fabs(v); } growth = m; }
    void zero() { ref.U.clear(); ref.Y.clear(); ref.V.clear(); ref.vmax = 0; }
    void step(float u) { float y = s->excite(u); bn->check("the numerator"); bd->check("the denominator"); bx->check("the discrete states"); double e = ref.step(u); double tol = 1.2e-7 * (2 + ref.asum()) * (growth + 1) * ref.vmax * (ref.bsum() + 1e-3) * (double)(na + nb) + 1e-30; if (!(tol < 1e30)) return; VH_CHECK(std::fabs(y - e) <= tol, "nb=%zu na=%zu: output %zu is %.9g, expected %.9g (tolerance %g)", nb, na, ref.Y.size() - 1, y, e, tol); maxi("tolerance_over_peak", tol / (ref.vmax + 1e-30)); seen(sig3(nb * 16 + na, fb(u), fb(y))); }
};
MONITOR(response, 12000, 400000) {
    size_t nb = 1 + rng.below(6), na = 1 + rng.below(6); if (idx < 64) { nb = 1 + idx % 8; na = 1 + idx / 8; } else if (rng.chance(.04)) { nb = 1 + rng.below(rng.chance(.3) ? 300 : 40); na = 1 + rng.below(18); } DSys a(rng, nb, na), b(rng, 1 + rng.below(6), 1 + rng.below(6)); double wa = wide(rng, 100); Signal s1(rng, wa), s2(rng, wa); int N = 20 + (int)rng.below(150);
    for (int i = 0; i < N; ++i) { a.step(s1.next()); if (rng.chance(0.7)) b.step(s2.next()); if (rng.chance(0.01)) { VH_CHECK(a.s->setInitStates(), "setInitStates refused"); a.zero(); ev("reset_states"); } }
    ev(nb > na ? "nb>na" : nb < na ? "nb<na" : "nb==na"); if (na == 1) ev("FIR"); eg("nb=%zu na=%zu a0=%g, %d samples", nb, na, a.a0, N);
}
// FIR helper: convolution with the given taps, or the plain sum without taps
MONITOR(fir, 6000, 150000) {
    size_t n = 1 + rng.below(rng.chance(.03) ? 700 : 24); Buf<float> w(n, 0), c(n); for (size_t i = 0; i < n; ++i) c[i] = rng.f(-2, 2); bool taps = rng.chance(0.7); std::vector<double> U; Signal sg(rng, wide(rng, 50)); int N = 5 + (int)rng.below(60) + (n > 24 ? (int)n : 0);
    for (int i = 0; i < N; ++i) { float u = sg.next(); U.push_back(u); float y = discreteSystem::updateFIR(w.p, n, u, taps ? c.p : nullptr); double e = 0, m = 0; for (size_t k = 0; k < n && k < U.size(); ++k) { double t = (taps ? c[k] : 1.0) * U[U.size() - 1 - k]; e += t; m += std::fabs(t); } w.check("FIR window"); c.check("FIR taps"); VH_CHECK(std::fabs(y - e) <= 2e-7 * (double)(n + 2) * m + 1e-30, "FIR output %.9g, expected %.9g", y, e); for (size_t k = 0; k < n && k < U.size(); ++k) VH_CHECK(w[k] == (float)U[U.size() - 1 - k], "FIR window element %zu", k); seen(sig3(n, fb(u), fb(y))); }
    ev(taps ? "fir_taps" : "fir_sum");
}
// steady state of a stable system driven by a constant is num(1)/den(1)
MONITOR(dcgain, 3000, 60000) {
    DSys s(rng, 1 + rng.below(5), 1 + rng.below(5)); float u = rng.slogf_(0.1, 100); double nb = 0, na = 0; for (double x : s.ref.b) nb += x; for (double x : s.ref.a) na += x; float y = 0; for (int i = 0; i < 600; ++i) y = s.s->excite(u); double e = nb / na * u; double tol = 2e-5 * (s.growth + 1) * (s.ref.bsum() + 0.01) * std::fabs(u) / std::fabs(na); VH_CHECK(std::fabs(y - e) <= tol, "steady state %.9g, expected %.9g", y, e); seen(sig2(fb(u), fb(y))); ev("dc_gain");
}
// initial states: the direct form II delay line starts from the given values
MONITOR(initstates, 4000, 100000) {
    size_t nb = 1 + rng.below(5), na = 1 + rng.below(5); DSys s(rng, nb, na); size_t n = std::max(nb, na); std::vector<float> x0(n); for (auto &v : x0) v = rng.f(-5, 5); for (int i = 0; i < (int)rng.below(10); ++i) s.s->excite(rng.f(-1, 1)); VH_CHECK(s.s->setInitStates(x0.data()), "setInitStates refused"); std::deque<double> x(x0.begin(), x0.end());
    double vm = 6; for (int i = 0; i < 30; ++i) { float u = rng.f(-5, 5); double v = u; for (size_t j = 1; j < na; ++j) v -= s.ref.a[j] * x[j - 1]; double y = s.ref.b[0] * v; for (size_t j = 1; j < nb; ++j) y += s.ref.b[j] * x[j - 1]; x.push_front(v); x.pop_back(); vm = std::max(vm, std::fabs(v)); float g = s.s->excite(u); double tol = 1.2e-7 * (2 + s.ref.asum()) * (s.growth + 1) * vm * (s.ref.bsum() + 1e-3) * (double)(na + nb); VH_CHECK(std::fabs(g - y) <= tol, "after initial states, output %d is %.9g, expected %.9g", i, g, y); seen(sig2(fb(u), fb(g))); } ev("init_states");
}
// definitions through transfer-function objects and array references are the same system
MONITOR(construction, 2000, 40000) {
    float n3[3], d4[4], n4[4], d2[2]; for (auto &v : n3) v = rng.f(-2, 2); for (auto &v : n4) v = rng.f(-2, 2); d4[0] = rng.f(0.5, 2); d4[1] = d4[0] * rng.f(-.4, .4); d4[2] = d4[0] * rng.f(-.3, .3); d4[3] = d4[0] * rng.f(-.2, .2); d2[0] = rng.f(.5, 2); d2[1] = rng.f(-.4, .4);
    discreteTF<3, 4> t1(n3, d4); discreteTF<4, 2> t2(n4, d2); discreteSystem s1(t1), s2(t2); float m3[3], e4[4], x4[4], m4[4], e2[2], y4[4]; std::memcpy(m3, n3, sizeof m3); std::memcpy(e4, d4, sizeof e4); std::memcpy(m4, n4, sizeof m4); std::memcpy(e2, d2, sizeof e2); discreteSystem r1(m3, e4, x4), r2(m4, e2, y4);
    DTF q1, q2; for (float v : n3) q1.b.push_back(v / d4[0]); for (float v : d4) q1.a.push_back(v / d4[0]); for (float v : n4) q2.b.push_back(v / d2[0]); for (float v : d2) q2.a.push_back(v / d2[0]);
    for (int i = 0; i < 40; ++i) { float u = rng.f(-10, 10); float a = s1.excite(u), b = r1.excite(u), c = s2.excite(u), d = r2.excite(u); double p = q1.step(u), q = q2.step(u); VH_CHECK(std::fabs(a - p) < 1e-3 && a == b && std::fabs(c - q) < 1e-3 && c == d, "systems built from the same transfer function differ: %g %g %g / %g %g %g", a, b, p, c, d, q); seen(sig3(fb(u), fb(a), fb(c))); } ev("constructed");
}
// every overload of setup, also on an instance and on states that were already in use, starts from rest
MONITOR(setup_again, 2000, 40000) {
    float n3[3], d4[4], m3[3], e4[4], k3[3], f4[4], x[4], y[4], z[4]; for (auto &v : n3) v = rng.f(-2, 2); d4[0] = rng.f(0.5, 2); for (int i = 1; i < 4; ++i) d4[i] = d4[0] * rng.f(-.3, .3); auto cp = [&] { std::memcpy(m3, n3, sizeof m3); std::memcpy(e4, d4, sizeof e4); std::memcpy(k3, n3, sizeof k3); std::memcpy(f4, d4, sizeof f4); }; cp(); discreteTF<3, 4> t(n3, d4);
    for (int i = 0; i < 4; ++i) x[i] = y[i] = z[i] = rng.f(-9, 9); discreteSystem a(m3, e4, x), b(t), c(&k3[0], &f4[0], z, 3, 4); for (int i = 0; i < (int)rng.below(20); ++i) { a.excite(rng.f(-5, 5)); b.excite(rng.f(-5, 5)); c.excite(rng.f(-5, 5)); }
    { float g5[5], h2[2], j5[5], k2[2], x5[5]; for (int i = 0; i < 5; ++i) j5[i] = g5[i] = rng.f(-2, 2); h2[0] = k2[0] = rng.f(.5, 2); h2[1] = k2[1] = rng.f(-.4, .4); discreteTF<5, 2> w(g5, h2); discreteSystem u(m3, e4, x), v(m3, e4, x); VH_CHECK(u.setup(w) && v.setup(j5, k2, x5), "a system with a longer numerator is refused"); DTF q; for (float g : g5) q.b.push_back(g / h2[0]); for (float g : h2) q.a.push_back(g / h2[0]); for (int i = 0; i < 20; ++i) { float in = rng.f(-5, 5), p0 = u.excite(in), p1 = v.excite(in); double e = q.step(in); VH_CHECK(std::fabs(p0 - e) < 1e-3 && std::fabs(p1 - e) < 1e-3, "longer numerator: output %d is %g (transfer function) %g (arrays), expected %g", i, p0, p1, e); } ev("longer_numerator"); }
    cp(); discreteTF<3, 4> t2(n3, d4); VH_CHECK(a.setup(m3, e4, x) && b.setup(rng.chance(.5) ? t2 : t) && c.setup(&k3[0], &f4[0], z, 3, 4), "repeated setup refused"); DTF q; for (float v : n3) q.b.push_back(v / d4[0]); for (float v : d4) q.a.push_back(v / d4[0]);
    for (int i = 0; i < 40; ++i) { float u = rng.f(-10, 10), p0 = a.excite(u), p1 = b.excite(u), p2 = c.excite(u); double e = q.step(u); VH_CHECK(std::fabs(p0 - e) < 1e-3 && std::fabs(p1 - e) < 1e-3 && std::fabs(p2 - e) < 1e-3, "after a repeated setup, output %d is %g (arrays) %g (transfer function) %g (pointers), expected %g", i, p0, p1, p2, e); seen(sig3(fb(u), fb(p0), 3)); } ev("setup_again"); (void)y;
}
// one system in use for more than 2^16 samples
MONITOR(soak, 4, 80) {
    size_t nb = 1 + rng.below(5), na = 1 + rng.below(5), n = std::max(nb, na), N = 66000 + rng.below(70000); DSys s(rng, nb, na); std::vector<double> x(n, 0.); double vm = 1e-3; Signal sg(rng, 20); sg.kind = (int)rng.pick(std::vector<int>{ 0, 1, 6 }); Buf<float> w(nb, 0), c(nb); for (size_t i = 0; i < nb; ++i) c[i] = (float)rng.range(-3, 3); std::deque<float> h(nb, 0.f);
    for (size_t i = 0; i < N; ++i) { float u = sg.next(); double v = u; for (size_t j = 1; j < na; ++j) v -= s.ref.a[j] * x[j - 1]; double y = s.ref.b[0] * v; for (size_t j = 1; j < nb; ++j) y += s.ref.b[j] * x[j - 1]; for (size_t j = n; --j > 0;) x[j] = x[j - 1]; x[0] = v; vm = std::max(vm, std::fabs(v)); float g = s.s->excite(u); double tol = 1.2e-7 * (2 + s.ref.asum()) * (s.growth + 1) * vm * (s.ref.bsum() + 1e-3) * (double)(na + nb); VH_CHECK(std::fabs(g - y) <= tol, "nb=%zu na=%zu: output %zu of one long run is %.9g, expected %.9g (tolerance %g)", nb, na, i, g, y, tol); h.push_front(u); h.pop_back(); double e = 0, m = 0; for (size_t j = 0; j < nb; ++j) { e += (double)c[j] * h[j]; m += std::fabs((double)c[j] * h[j]); } float f = discreteSystem::updateFIR(w.p, nb, u, c.p); VH_CHECK(std::fabs(f - e) <= 2e-7 * (double)(nb + 2) * m + 1e-30, "FIR output %zu of one long run is %.9g, expected %.9g", i, f, e); if (i % 64 == 0) { s.bx->check("the states"); seen(sig3(nb * 16 + na, fb(u), fb(g))); } } ev("long_run_samples", N);
}
// long filters: comb and multipath filters (a few coefficients far apart) over hundreds of samples; and orders beyond 2^16 from given states
MONITOR(long_filters, 60, 600) {
    bool far = idx % 20 == 0; size_t nb = 1 + rng.below(8), na = 1 + rng.below(8); switch (far ? idx / 20 % 3 : rng.below(3)) { case 0: nb = (far ? 65530 : 250) + rng.below(far ? 60 : 500); break; case 1: na = (far ? 65530 : 250) + rng.below(far ? 60 : 500); break; default: nb = (far ? 65530 : 250) + rng.below(far ? 60 : 300); na = (far ? 65530 : 250) + rng.below(far ? 60 : 300); } size_t n = std::max(nb, na);
    Buf<float> b(nb), a(na), x(n, 0x7F); for (size_t i = 0; i < nb; ++i) b[i] = 0; for (size_t i = 0; i < na; ++i) a[i] = 0; a[0] = rng.chance(.5) ? 1.f : 2.f; auto pos = [&](size_t m) { switch (rng.below(4)) { case 0: return m - 1; case 1: return m / 2; default: return (size_t)rng.below(m); } }; for (int k = 0; k < 5; ++k) { b[pos(nb)] = (float)rng.range(-3, 3); if (na > 1) { size_t q = pos(na); if (q) a[q] = a[0] * (k == 0 ? .5f : .0625f) * (rng.chance(.5) ? 1 : -1); } } b[nb - 1] = 2; b[0] += 1; if (na > 1) a[na - 1] = .25f * a[0];
    std::vector<std::pair<size_t, double>> B, A; for (size_t i = 0; i < nb; ++i) if (b[i] != 0) B.push_back({ i, b[i] / a[0] }); for (size_t i = 1; i < na; ++i) if (a[i] != 0) A.push_back({ i, a[i] / a[0] });
    discreteSystem s(b.p, a.p, x.p, nb, na); VH_CHECK(s.isInitialized(), "a system of order %zu is not initialised", n); std::vector<double> h; size_t N = far ? 40 : 2 * n + rng.below(100); h.reserve(n + N); if (far) { std::vector<float> x0(n); for (auto &v : x0) v = (float)rng.range(-9, 9); VH_CHECK(s.setInitStates(x0.data()), "setInitStates refused"); h.assign(x0.rbegin(), x0.rend()); } else h.assign(n, 0.); double vm = 10;
    for (size_t i = 0; i < N; ++i) { float u = (float)rng.range(-9, 9); double v = u; for (auto &c : A) v -= c.second * h[h.size() - c.first]; h.push_back(v); vm = std::max(vm, std::fabs(v)); double e = 0, m = 0; for (auto &c : B) { e += c.second * h[h.size() - 1 - c.first]; m += std::fabs(c.second); } float y = s.excite(u); VH_CHECK(std::fabs(y - e) <= 1e-4 * vm * (m + 1), "nb=%zu na=%zu: output %zu is %.9g, expected %.9g", nb, na, i, y, e); if (vm > 1e6) { ev("grown_skipped"); break; } seen(sig3(nb, na, fb(y))); } x.check("the states"); b.check("the numerator"); a.check("the denominator"); ev(far ? "order_beyond_65536" : "long_filter");
}
// transfer-function objects of any order are the system their coefficients say
template <size_t NB, size_t NA> static void longObject(Rng &rng) {
    struct C { float b[NB], a[NA], m[NB], e[NA], x[NB > NA ? NB : NA]; }; std::unique_ptr<C> c(new C); for (auto &v : c->b) v = rng.chance(.9) ? 0 : (float)rng.range(-3, 3); for (auto &v : c->a) v = 0; c->a[0] = 2; if (NA > 1) c->a[NA - 1] = .5f; if (NA > 5) c->a[NA - 3] = .25f; c->b[0] = 1; c->b[NB - 1] = 3; std::memcpy(c->m, c->b, sizeof c->m); std::memcpy(c->e, c->a, sizeof c->e);
    std::unique_ptr<discreteTF<NB, NA>> t(new discreteTF<NB, NA>(c->b, c->a)); discreteSystem s(*t), r(&c->m[0], &c->e[0], c->x, NB, NA); VH_CHECK(s.isInitialized() && r.isInitialized(), "an object of orders %zu and %zu is refused", NB, NA); r.setInitStates();
    size_t N = NB + NA > 2000 ? 30 : 2 * (NB + NA); for (size_t i = 0; i < N; ++i) { float u = (float)rng.range(-9, 9), p = s.excite(u), q = r.excite(u); VH_CHECK(fb(p) == fb(q), "orders %zu and %zu: output %zu is %.9g from the object and %.9g from the same coefficients", NB, NA, i, p, q); seen(sig3(NB, NA, fb(p))); } for (size_t i = 0; i < NB; ++i) VH_CHECK(fb(t->num[i]) == fb(c->m[i]), "numerator coefficient %zu of the object is %g, %g given", i, t->num[i], c->m[i]); for (size_t i = 0; i < NA; ++i) VH_CHECK(fb(t->den[i]) == fb(c->e[i]), "denominator coefficient %zu of the object is %g, %g given", i, t->den[i], c->e[i]); ev("long_object");
}
MONITOR(long_objects, 12, 120) { switch (idx % 6) { case 0: longObject<300, 2>(rng); break; case 1: longObject<2, 300>(rng); break; case 2: longObject<700, 601>(rng); break; case 3: longObject<70001, 1>(rng); break; case 4: longObject<3, 66001>(rng); break; default: longObject<1, 1>(rng); } }
VH_MAIN
