// P01: output limits, anti-windup, bumpless transfer and refusal of invalid settings.
#include "pid_ref.hpp"
using namespace vh; using namespace qlibs;
// whatever the gains, samples and settings, the action stays inside the limits in force
MONITOR(limits, 12000, 400000) {
    OnPattern<pidController> P(0xFF); pidController &p = *P; float lo = 0, hi = 100; VH_CHECK(p.setup(rng.slogf_(1e-3, 1e3), rng.slogf_(1e-3, 1e3), rng.slogf_(1e-3, 100), rng.logf_(1e-4, 10)), "setup refused"); float ref = 0; Signal a(rng, 1e4), b(rng, 1e4); pidAutoTuning at; 
    int N = idx < 3 ? 66000 : 120; if (idx < 3) ev("long_run_samples", (uint64_t)N); for (int i = 0; i < N; ++i) {
        if (rng.chance(0.1)) switch (rng.below(9)) {
            case 0: { float l = rng.slogf_(1e-3, 1e4), h = l + rng.logf_(1e-2, 1e5); if (h > l) { VH_CHECK(p.setSaturation(l, h), "setSaturation(%g,%g) refused", l, h); lo = l; hi = h; } break; }
            case 1: { float l = rng.slogf_(1e-3, 1e4), h = l - (rng.chance(.5) ? 0.f : rng.logf_(1e-2, 1e5)); if (rng.chance(.4)) switch (rng.below(4)) { case 0: h = lo; l = lo + rng.logf_(1e-2, 1e3); break; case 1: l = hi; h = hi - rng.logf_(1e-2, 1e3); break; case 2: l = hi; h = lo; break; default: l = h = rng.chance(.5) ? lo : hi; } if (h > l) break; VH_CHECK(!p.setSaturation(l, h), "inverted limits (%g,%g) accepted", l, h); ev("inverted_limits_refused"); break; }
            case 2: p.setMode(rng.chance(.5) ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC); break; case 3: p.setManualInput(rng.slogf_(.1, 1e5)); break; case 4: p.setDirection(rng.chance(.5) ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD); break; case 5: p.setExtraGains(rng.f(0, 3), rng.f(0, 3)); break; case 6: p.setModelReferenceControl(ref); break; case 7: p.reset(); break; default: p.setGains(rng.slogf_(1e-3, 1e4), rng.slogf_(1e-3, 1e4), rng.slogf_(1e-3, 1e3)); }
        ref = b.next(); float w = rng.chance(0.02) ? rng.slogf_(1e5, 1e15) : a.next(), u = p.control(w, b.next()); if (std::isnan(u)) { ev("overflowed_to_nan_skipped"); return; } VH_CHECK(u >= lo && u <= hi, "control action %.9g outside of [%.9g,%.9g]", u, lo, hi); ev(u == lo ? "at_low_limit" : u == hi ? "at_high_limit" : "between"); seen(sig3(fb(u), fb(lo), fb(hi))); }
}
// anti-windup: after a saturation of any length the integral action recovers as fast as after a short one
MONITOR(windup, 2000, 40000) {
    float dt = rng.f(0.01, 0.1), kc = rng.f(0.5, 3), ki = rng.f(0.2, 2); float lo = rng.f(-20, -1), hi = rng.f(1, 20); int rec[2]; bool neg = rng.chance(.5); float over = rng.f(1, 20);
    for (int k = 0; k < 2; ++k) { pidController p; p.setup(kc, ki, 0, dt); p.setSaturation(lo, hi); int n = k == 0 ? (int)(60 / dt) : (int)(600 / dt); float w = neg ? -over * 5 : over * 5; float u = 0; for (int i = 0; i < n; ++i) u = p.control(w, 0); VH_CHECK(u == (neg ? lo : hi), "not saturated by a large persistent error: %g", u); int r = 0; float w2 = neg ? 2.0f : -2.0f; while (r < 100000) { u = p.control(w2, 0); ++r; if (neg ? u > lo : u < hi) break; } rec[k] = r; }
    VH_CHECK(rec[1] <= rec[0] + 3 && rec[0] <= rec[1] + 3, "recovery takes %d steps after 60 s of saturation and %d after 600 s", rec[0], rec[1]); seen(sig3(rec[0], fb(kc), fb(ki))); ev("windup"); maxi("recovery_steps", rec[1]);
    // without anti-windup the recovery does grow: the experiment is able to see the difference
    if (idx % 16 == 0) { int q[2]; for (int k = 0; k < 2; ++k) { pidController p; p.setup(kc, ki, 0, dt); p.setExtraGains(0, 1); p.setSaturation(lo, hi); int n = k == 0 ? (int)(60 / dt) : (int)(600 / dt); for (int i = 0; i < n; ++i) p.control(over * 5, 0); int r = 0; while (r < 1000000) { ++r; if (p.control(-2.0f, 0) < hi) break; } q[k] = r; } VH_CHECK(q[1] > q[0] * 3, "integrator without anti-windup recovers in %d/%d steps", q[0], q[1]); ev("windup_control"); }
}
// bumpless transfer in both directions around an equilibrium
MONITOR(bumpless, 2000, 40000) {
    float dt = rng.f(0.01, 0.08), K = rng.f(0.5, 3), T = rng.f(0.5, 4), kc = rng.f(0.3, 1.5), ki = rng.f(0.1, 0.6); pidController p; p.setup(kc, ki, 0, dt); p.setSaturation(-100, 100); float y = 0, w = rng.f(5, 30) * (rng.chance(.5) ? 1.f : -1.f), u = 0; auto run = [&](int n) { for (int i = 0; i < n; ++i) { u = p.control(w, y); y += (K * u - y) * dt / T; } };
    run((int)(500 / dt)); VH_CHECK(std::fabs(y - w) < 2e-3 * std::fabs(w) + 1e-3, "integral action does not remove the error: %g for a reference of %g", y, w); float u0 = u; VH_CHECK(p.setMode(pidMode::PID_MANUAL), "mode"); u = p.control(w, y); VH_CHECK(std::fabs(u - u0) <= 0.01 * std::fabs(u0) + 0.01, "automatic to manual bumps from %g to %g", u0, u); run((int)(20 / dt)); VH_CHECK(std::fabs(u - u0) <= 0.03 * std::fabs(u0) + 0.03, "manual output drifts from %g to %g", u0, u);
    // move by hand, then wait for the plant to settle with the reference following it
    p.setManualInput(rng.f(-2, 2)); for (int i = 0; i < (int)(3 / dt); ++i) { w = y; u = p.control(w, y); y += (K * u - y) * dt / T; } p.setManualInput(0); for (int i = 0; i < (int)(200 / dt); ++i) { w = y; u = p.control(w, y); y += (K * u - y) * dt / T; } float u2 = u; p.setMode(pidMode::PID_AUTOMATIC); u = p.control(w, y); VH_CHECK(std::fabs(u - u2) <= 0.02 * (std::fabs(u2) + std::fabs(u0)) + 0.05, "manual to automatic bumps from %g to %g", u2, u); run((int)(5 / dt)); VH_CHECK(std::fabs(u - u2) <= 0.05 * (std::fabs(u2) + std::fabs(u0)) + 0.1, "drift after the transfer: %g to %g", u2, u); seen(sig3(fb(u), fb(kc), fb(ki))); ev("bumpless");
}
// settings outside of their domain are refused without effect; nothing works before setup
MONITOR(guards, 4000, 60000) {
    OnPattern<pidController> A((unsigned char)rng.u32()); float w = rng.f(-50, 50), y = rng.f(-50, 50), r = 0; pidAutoTuning at;
    pidGains G0 = { 1, 1, 1 }; VH_CHECK(!A->setGains(1, 1, 1) && !A->setGains(G0) && !A->setParams(1, 1, 1) && !A->setExtraGains(1, 1) && !A->setSaturation(0, 1) && !A->setSeries() && !A->setEpsilon(1) && !A->setDerivativeFilter(.5f) && !A->setDerivativeFilterTimeConstant(1) && !A->setMode(pidMode::PID_MANUAL) && !A->setReferenceWeighting(1, 1) && !A->setManualInput(1) && !A->setModelReferenceControl(r) && !A->removeModelReferenceControl() && !A->reset() && !A->setDirection(pidDirection::PID_BACKWARD) && !A->bindAutoTuning(at) && !A->enableAutoTuning(10) && !A->isAutoTuningComplete() && !A->setAutoTuningParameters(.5f, .5f, .9f) && !A->setAutoTuningControllerType(pidType::PID_TYPE_P) && !A->unbindAutoTuning(), "a setting is accepted before setup"); VH_CHECK(A->control(w, y) == w, "before setup the controller answers %g for a reference of %g", A->control(w, y), w);
    VH_CHECK(!A->setup(1, 1, 1, rng.chance(.5) ? 0.f : -rng.logf_(1e-3, 10)), "non-positive time step accepted"); VH_CHECK(!A->setMode(pidMode::PID_MANUAL), "controller usable after a refused setup");
    pidController p, q; float kc = rng.f(.1, 3), ki = rng.f(.1, 1), kd = rng.f(0, .2), dt = rng.f(.01, .2); p.setup(kc, ki, kd, dt); q.setup(kc, ki, kd, dt); VH_CHECK(!p.setup(9, 9, 9, 0), "zero time step accepted on an initialised controller");
    VH_CHECK(!p.setDerivativeFilter(1.0f) && !p.setDerivativeFilter(rng.f(1, 5)) && !p.setDerivativeFilter(-rng.f(.001, 2)), "derivative filter outside of [0,1) accepted"); VH_CHECK(!p.setDerivativeFilterTimeConstant(-rng.f(.001, 2)), "negative filter time constant accepted"); VH_CHECK(!p.setModelReferenceControl(r, 0, 1) && !p.setModelReferenceControl(r, 1, 0) && !p.setModelReferenceControl(r, -1, 1), "non-positive adaptation constants accepted"); float l = rng.f(-5, 5); VH_CHECK(!p.setSaturation(l, l) && !p.setSaturation(l, l - 1), "empty limits accepted"); VH_CHECK(!p.enableAutoTuning(5) && !p.setAutoTuningParameters(.5f, .5f, .9f) && !p.isAutoTuningComplete() && !p.unbindAutoTuning(), "auto-tuning without a bound tuner accepted");
    VH_CHECK(p.bindAutoTuning(at), "bind"); VH_CHECK(!p.setAutoTuningParameters(0, .5f, .9f) && !p.setAutoTuningParameters(.5f, 0, .9f) && !p.setAutoTuningParameters(.5f, .5f, 0) && !p.setAutoTuningParameters(1.1f, .5f, .9f) && !p.setAutoTuningParameters(.5f, 1.1f, .9f) && !p.setAutoTuningParameters(.5f, .5f, 1.1f) && p.setAutoTuningParameters(1, 1, 1), "auto-tuning parameters outside of (0,1]"); VH_CHECK(p.unbindAutoTuning() && !p.unbindAutoTuning(), "unbind");
    for (int i = 0; i < 40; ++i) { float a = rng.f(-50, 50), b = rng.f(-50, 50), u1 = p.control(a, b), u2 = q.control(a, b); VH_CHECK(u1 == u2, "refused settings changed the controller: %g against %g", u1, u2); seen(sig3(fb(a), fb(b), fb(u1))); } ev("guards");
    // the same while model-reference control is in use
    pidController c, d; for (pidController *k : { &c, &d }) { k->setup(kc, ki, kd, dt); k->setSaturation(-1e6f, 1e6f); k->setModelReferenceControl(r, .5f, .3f); } for (int i = 0; i < 30; ++i) { if (i % 10 == 5) { float bad = rng.chance(.5) ? 0.f : -rng.logf_(1e-3, 10), ok = rng.f(.1, 2), r2 = 5; VH_CHECK(!c.setModelReferenceControl(r, bad, ok) && !c.setModelReferenceControl(r, ok, bad) && !c.setModelReferenceControl(r2, bad, bad), "non-positive adaptation constants accepted"); } r = rng.f(-3, 3); float a = rng.f(-5, 5), b = rng.f(-5, 5), u1 = c.control(a, b), u2 = d.control(a, b); VH_CHECK(u1 == u2, "a refused model reference changed the controller: %g against %g", u1, u2); } ev("guards_model_reference");
}
// reset and repeated setup restore the initial behaviour exactly
MONITOR(restart, 4000, 100000) {
    pidController p, q; float kc = rng.f(-2, 3), ki = rng.f(0, 1), kd = rng.f(0, .2), dt = rng.f(.01, .2); p.setup(kc, ki, kd, dt); q.setup(kc, ki, kd, dt); float ref = 3; bool mr = rng.chance(.3); if (mr) { p.setModelReferenceControl(ref); q.setModelReferenceControl(ref); } p.setSaturation(-50, 50); q.setSaturation(-50, 50); bool pre = rng.chance(.3); if (pre) { float m0 = rng.f(-30, 30); for (pidController *c : { &p, &q }) { c->setMode(pidMode::PID_MANUAL); c->setManualInput(m0); } } for (int i = 0; i < 30; ++i) p.control(rng.f(-100, 100), rng.f(-100, 100)); bool again = rng.chance(.4) && !mr; if (again) { p.setMode(pidMode::PID_MANUAL); p.setManualInput(3); p.setDirection(pidDirection::PID_BACKWARD); p.setReferenceWeighting(.2f, .9f); p.setExtraGains(.3f, .4f); p.setEpsilon(2); p.setDerivativeFilter(.1f); p.setup(kc, ki, kd, dt); p.setSaturation(-50, 50); } else VH_CHECK(p.reset(), "reset refused");
    if (pre && again) { q.setMode(pidMode::PID_AUTOMATIC); q.setManualInput(0); } bool man = rng.chance(.35); float mi = rng.f(-30, 30); if (man) for (pidController *c : { &p, &q }) { c->setMode(pidMode::PID_MANUAL); c->setManualInput(mi); }
    for (int i = 0; i < 60; ++i) { if (man && i == 20) for (pidController *c : { &p, &q }) c->setMode(pidMode::PID_AUTOMATIC); float w = rng.f(-20, 20), y = rng.f(-20, 20), a = p.control(w, y), b = q.control(w, y); VH_CHECK(a == b, "after %s, action %d is %.9g, a fresh controller gives %.9g", again ? "a second setup" : "reset", i, a, b); seen(sig3(fb(w), fb(y), fb(a))); } ev(again ? "second_setup" : "reset"); if (man) ev("restart_in_manual_mode");
}
VH_MAIN
