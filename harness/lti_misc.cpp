// L03: saturation, input delay, state reset and refusal of bad parameters, common to every LTI system.
#include "lti_ref.hpp"
using namespace vh; using namespace qlibs;
struct Any { bool disc; size_t n; std::vector<float> num, den; std::unique_ptr<Buf<float>> b1, a1, x1, b2, a2, x2; std::unique_ptr<nState[]> c1, c2; std::unique_ptr<ltisys> s, t;
    Any(Rng &r, bool d) : disc(d), n(1 + r.below(4)) {
        if (disc) { size_t nb = 1 + r.below(4); auto p = polyFrom(discRoots(r, n, 0.8)); for (double v : p) den.push_back((float)v); for (size_t i = 0; i < nb; ++i) num.push_back(r.f(-2, 2)); size_t m = std::max(nb, n + 1); for (int k = 0; k < 2; ++k) { auto &b = k ? b2 : b1, &a = k ? a2 : a1, &x = k ? x2 : x1; b.reset(new Buf<float>(nb)); a.reset(new Buf<float>(n + 1)); x.reset(new Buf<float>(m)); b->set(num); a->set(den); (k ? t : s).reset(new discreteSystem(b->p, a->p, x->p, nb, n + 1)); } }
        else { std::vector<std::complex<double>> p; for (size_t i = 0; i < n; ++i) p.push_back(-r.uni(0.2, 3)); auto q = polyFrom(p); for (double v : q) den.push_back((float)v); for (size_t i = 0; i <= n; ++i) num.push_back(r.f(-2, 2)); float dt = r.f(0.005, 0.05); for (int k = 0; k < 2; ++k) { auto &b = k ? b2 : b1, &a = k ? a2 : a1; auto &c = k ? c2 : c1; b.reset(new Buf<float>(n + 1)); a.reset(new Buf<float>(n + 1)); c.reset(new nState[n]); b->set(num); a->set(den); (k ? t : s).reset(new continuousSystem(b->p, a->p, c.get(), n, dt)); } } }
};
// twin systems: one plain, one with saturation and/or delay; the second must equal clamp(plain(delayed input)), bit for bit
MONITOR(saturation_delay, 15000, 500000) {
    Any q(rng, rng.chance(0.5)); bool sat = rng.chance(0.8), del = rng.chance(0.5); float lo = rng.f(-20, 5), hi = lo + rng.logf_(rng.chance(.2) ? 1e-5 : 0.01, 40); if (!(hi > lo)) hi = lo + 1; if (rng.chance(0.2)) lo = 0, hi = rng.f(0.5, 20); else if (rng.chance(0.2)) hi = 0, lo = -rng.f(0.5, 20); size_t nD = rng.chance(.04) ? 60 + rng.below(400) : 1 + rng.below(12); std::vector<std::unique_ptr<Buf<float>>> ws; ws.emplace_back(new Buf<float>(nD, 0xFF)); float iv = rng.chance(0.5) ? 0 : rng.f(-5, 5); Signal sg(rng, 30); std::deque<float> line;
    if (sat) VH_CHECK(q.s->setSaturation(lo, hi), "saturation [%g,%g] refused", lo, hi);
    if (del) { VH_CHECK(q.s->setDelay(ws.back()->p, nD, iv), "delay refused"); line.assign(nD, iv); }
    if (rng.chance(0.3)) { VH_CHECK(!q.s->setSaturation(hi, lo) && !q.s->setSaturation(lo, lo), "inverted or empty saturation range accepted"); ev("bad_saturation_refused"); }
    int N = 20 + (int)rng.below(150) + (nD > 12 ? (int)nD : 0); if (idx < 4) { N += 66000; ev("long_run_samples", (uint64_t)N); }
    for (int i = 0; i < N; ++i) {
        float u = sg.next(), v = u; if (del) { line.push_front(u); line.pop_back(); v = line.back(); } float y = q.t->excite(v), e = y; if (sat) { if (e < lo) { e = lo; ev("low_limit"); } else if (e > hi) { e = hi; ev("high_limit"); } else ev("inside_limits"); }
        float g = q.s->excite(u); for (auto &b : ws) b->check("the delay window"); VH_CHECK(g == e || (std::isnan(g) && std::isnan(e)), "%s system: output %d is %.9g, expected %.9g (limits %d [%g,%g], delay %zu)", q.disc ? "discrete" : "continuous", i, g, e, sat, lo, hi, del ? nD - 1 : 0);
        if (sat) VH_CHECK(g >= lo && g <= hi, "output %.9g outside of [%g,%g]", g, lo, hi);
        if (ws.size() < 8 && rng.chance(0.01)) { del = true; if (rng.chance(.6)) { nD = 1 + rng.below(30); ws.emplace_back(new Buf<float>(nD, 0xFF)); iv = rng.f(-5, 5); ev("delay_changed"); } VH_CHECK(q.s->setDelay(ws.back()->p, nD, iv), "delay refused"); line.assign(nD, iv); ev("delay_reset"); }
        if (sat && rng.chance(0.01)) { lo = rng.f(-20, 5); hi = lo + rng.logf_(0.01, 40); VH_CHECK(q.s->setSaturation(lo, hi), "saturation refused"); ev("limits_changed"); }
        if (rng.chance(0.01)) { VH_CHECK(q.s->setInitStates() && q.t->setInitStates(), "setInitStates refused"); ev("states_reset"); }
        seen(sig3(q.disc * 8 + sat * 4 + del * 2, fb(u), fb(g)));
    }
    if (del) ev("delayed"); if (sat) ev("saturated"); eg("%s order %zu, saturation %d, delay %zu", q.disc ? "discrete" : "continuous", q.n, sat, del ? nD - 1 : 0);
}
// linearity and time invariance, without saturation: superposition and shifted responses
MONITOR(linearity, 5000, 150000) {
    Any q(rng, rng.chance(0.5)); int N = 60; std::vector<float> u1(N), u2(N), y1(N), y2(N); float al = rng.f(-2, 2); Signal a(rng, 10), b(rng, 10); for (int i = 0; i < N; ++i) { u1[i] = a.next(); u2[i] = b.next(); } for (int i = 0; i < N; ++i) y1[i] = q.s->excite(u1[i]); VH_CHECK(q.s->setInitStates(), "reset"); for (int i = 0; i < N; ++i) y2[i] = q.s->excite(u2[i]); double m = 1e-6; for (int i = 0; i < N; ++i) m = std::max(m, (double)std::fabs(y1[i]) + std::fabs(y2[i]) + std::fabs(u1[i]) + std::fabs(u2[i]));
    for (int i = 0; i < N; ++i) { float y = q.t->excite(u1[i] + al * u2[i]); VH_CHECK(std::fabs(y - ((double)y1[i] + al * (double)y2[i])) <= 1e-3 * m * 5, "superposition fails at sample %d: %g, expected %g", i, y, y1[i] + al * y2[i]); }
    int d = 1 + (int)rng.below(20); VH_CHECK(q.t->setInitStates(), "reset"); for (int i = 0; i < d; ++i) VH_CHECK(q.t->excite(0) == 0, "a system at rest does not stay at rest"); for (int i = 0; i + d < N; ++i) { float y = q.t->excite(u1[i]); VH_CHECK(std::fabs(y - y1[i]) <= 1e-4 * m, "response shifted by %d samples differs at %d: %g, expected %g", d, i, y, y1[i]); }
    seen(sig3(fb(u1[0]), fb(u2[1]), fb(al))); evaln(2 * N); ev("superposition");
}
// transport delay: output k is input k-N, before that the initial value
template <size_t ND> static void tdelay(Rng &rng) { float iv = rng.f(-5, 5); transportDelay<ND> d(iv); discreteDelay<ND> z; std::vector<float> h; for (size_t k = 0; k < 3 * ND + 10; ++k) { float x = rng.f(-100, 100); h.push_back(x); float e = k >= ND ? h[k - ND] : iv, e0 = k >= ND ? h[k - ND] : 0.f; VH_CHECK(d(x) == e, "transport delay of %zu: output %zu", ND, k); VH_CHECK(z(x) == e0, "discrete delay of %zu: output %zu", ND, k); seen(sig3(ND, fb(x), fb(e))); } ev("transport_delay"); }
MONITOR(transport, 2000, 40000) { switch (rng.below(7)) { case 0: tdelay<1>(rng); break; case 1: tdelay<2>(rng); break; case 2: tdelay<3>(rng); break; case 3: tdelay<7>(rng); break; case 4: tdelay<16>(rng); break; case 5: tdelay<delayFromTime(2.5f, 0.1f)>(rng); break; default: tdelay<61>(rng); }
    float dt = rng.f(0.001, 1), T = dt * (float)rng.uni(1, 500); double q = (double)T / dt; size_t g = delayFromTime(T, dt); if (std::fabs(q + 0.5 - std::floor(q + 0.5)) > 1e-3 && std::fabs(q + .5 - std::ceil(q + .5)) > 1e-3) VH_CHECK(g == (size_t)std::floor(q + 0.5), "delayFromTime(%g,%g)=%zu", T, dt, g); }
// bad parameters are refused and leave an unusable system that answers zero
MONITOR(guards, 3000, 30000) {
    size_t n = 1 + rng.below(4); Buf<float> b(n + 1), a(n + 1), x(n + 1); for (size_t i = 0; i <= n; ++i) b[i] = a[i] = 1; nState st[8]; float w[4];
    for (int m = 0; m < 8; ++m) { discreteSystem s(nullptr, nullptr, nullptr, 0, 0); bool ok = s.setup((m & 1) ? b.p : nullptr, (m & 2) ? a.p : nullptr, (m & 4) ? x.p : nullptr, n + 1, n + 1); VH_CHECK(ok == (m == 7) && s.isInitialized() == ok, "discrete setup mask %d -> %d", m, ok); VH_CHECK(s.setSaturation(0, 1) == ok && s.setInitStates() == ok && s.setDelay(w, 4) == ok, "discrete system accepts settings before setup (mask %d)", m); VH_CHECK((s.getType() == LTISYS_TYPE_DISCRETE) == ok && (ok || s.getType() == LTISYS_TYPE_UNKNOWN), "type"); if (!ok) VH_CHECK(s.excite(rng.f(1, 5)) == 0, "uninitialised discrete system answers non-zero");
        continuousSystem c(nullptr, nullptr, nullptr, 0, 0.1f); ok = c.setup((m & 1) ? b.p : nullptr, (m & 2) ? a.p : nullptr, (m & 4) ? st : nullptr, n, 0.1f); VH_CHECK(ok == (m == 7) && c.isInitialized() == ok, "continuous setup mask %d -> %d", m, ok); VH_CHECK(c.setSaturation(0, 1) == ok && c.setInitStates() == ok && c.setDelay(w, 4) == ok && c.setIntegrationMethod(INTEGRATION_SIMPSON) == ok, "continuous system accepts settings before setup (mask %d)", m); VH_CHECK((c.getType() == LTISYS_TYPE_CONTINUOUS) == ok && (ok || c.getType() == LTISYS_TYPE_UNKNOWN), "type"); if (!ok) VH_CHECK(c.excite(rng.f(1, 5)) == 0, "uninitialised continuous system answers non-zero"); seen(sig3(m, n, fb(rng.f(0, 1)))); }
    discreteSystem s(nullptr, nullptr, nullptr, 0, 0); VH_CHECK(!s.setup(b.p, a.p, x.p, 0, n + 1), "empty numerator accepted"); VH_CHECK(!s.setup(b.p, a.p, x.p, n + 1, 0) && !s.isInitialized(), "empty denominator accepted"); { discreteSystem d(b.p, a.p, x.p, n + 1, n + 1), e(b.p, a.p, x.p, n + 1, n + 1); bool with = rng.chance(.5); float v[4]; if (with) VH_CHECK(d.setDelay(v, 4, 2.f), "delay refused"); VH_CHECK(!d.setDelay(nullptr, 4) && !d.setDelay(w, 0) && !d.setDelay(nullptr, 3, 1.f), "delay without window accepted"); std::deque<float> q(4, 2.f); for (int i = 0; i < 12; ++i) { float u = rng.f(-5, 5), z = u; q.push_back(u); if (with) z = q[1]; q.pop_front(); float t[8]; for (size_t k = 0; k <= n; ++k) t[k] = x[k]; float y = d.excite(u); for (size_t k = 0; k <= n; ++k) x[k] = t[k]; float g = e.excite(z); VH_CHECK(y == g, "after a refused delay the output is %g, expected %g", y, g); } ev("bad_delay_refused"); } continuousSystem c(nullptr, nullptr, nullptr, 0, 0.1f); VH_CHECK(!c.setup(b.p, a.p, st, 0, 0.1f), "order zero accepted"); ev("guards");
}
VH_MAIN
