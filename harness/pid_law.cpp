// P02: the control law, for every sequence of settings and samples.
#include "pid_ref.hpp"
using namespace vh; using namespace qlibs;
template <class F> static void both(PidLaw<double> &d, PidLaw<float> &f, F g) { g(d); g(f); }
#define SET(...) do { auto _g = [&](auto &L) { using T = decltype(L.kc); (void)sizeof(T); __VA_ARGS__; }; _g(d); _g(f); } while (0)
static const derivationMethod DM[] = { DERIVATION_2POINTS, DERIVATION_BACKWARD, DERIVATION_FORWARD };
static const integrationMethod IM[] = { INTEGRATION_RECTANGULAR, INTEGRATION_TRAPEZOIDAL, INTEGRATION_SIMPSON, INTEGRATION_QUADRATIC };
MONITOR(law, 16000, 600000) {
    OnPattern<pidController> P(rng.chance(0.5) ? 0xFF : 0x7F); pidController &pid = *P; PidLaw<double> d; PidLaw<float> f; float modelRef = 0; float dt = rng.chance(.15) ? rng.logf_(1e-5, 20) : rng.logf_(1e-3, 0.5); bool plant = rng.chance(0.5); double py = 0, pk = rng.uni(0.3, 3), pt = rng.uni(0.2, 5);
    const float tiny = rng.chance(0.08) ? 1e-4f : rng.chance(.06) ? 100.f : 1.f, U = rng.chance(.25) ? rng.logf_(1e-3, 1e5) : 1.f; /* size of the signals */ auto gain = [&](double hi) { return tiny * (rng.chance(0.15) ? 0.f : rng.chance(0.15) ? -rng.logf_(0.01, hi) : rng.logf_(0.01, hi)); };
    float kc = gain(10), ki = gain(3), kd = gain(1); if (rng.chance(0.3)) { pidGains g = { kc, ki, kd }; VH_CHECK(pid.setup(g, dt), "setup refused"); } else VH_CHECK(pid.setup(kc, ki, kd, dt), "setup refused"); SET(L.kc = kc; L.ki = ki; L.kd = kd; L.dt = dt);
    double big = 0, spread = 0; if (U != 1 && rng.chance(.8)) { float lo = -U * rng.logf_(1, 300), hi = U * rng.logf_(1, 300); VH_CHECK(pid.setSaturation(lo, hi), "setSaturation refused"); SET(L.lo = lo; L.hi = hi); ev("other_magnitudes"); } Signal sw(rng, 50 * U), sy(rng, 50 * U); int N = 20 + (int)rng.below(160); double pset = rng.chance(0.5) ? 0.0 : 0.08; int pre = (int)rng.below(6);
    for (int i = 0; i < N; ++i) {
        int cfg = i < 1 ? pre : (rng.chance(pset) ? 1 : 0);
        for (int q = 0; q < cfg; ++q) switch (rng.below(17)) {
            case 0: { float a = gain(10), b = gain(3), c = gain(1); pidGains pg = { a, b, c }; VH_CHECK(rng.chance(.5) ? pid.setGains(a, b, c) : pid.setGains(pg), "setGains refused"); SET(L.kc = a; L.ki = b; L.kd = c); ev("setGains"); break; }
            case 1: { float k = gain(5), ti = rng.logf_(0.1, 20), td = rng.logf_(0.01, 0.5); VH_CHECK(pid.setParams(k, ti, td), "setParams refused"); float a = k / ti, b = k * td; SET(L.kc = k; L.ki = a; L.kd = b); ev("setParams"); break; }
            case 2: { float w = rng.chance(.3) ? 0.f : rng.f(0, 2), t = rng.f(0, 2); VH_CHECK(pid.setExtraGains(w, t), "setExtraGains refused"); SET(L.kw = w; L.kt = t); ev("setExtraGains"); break; }
            case 3: { float lo = U * rng.f(-200, 50), hi = lo + U * rng.logf_(0.5, 300); VH_CHECK(pid.setSaturation(lo, hi), "setSaturation refused"); SET(L.lo = lo; L.hi = hi); ev("setSaturation"); break; }
            case 4: { float e = rng.chance(.5) ? FLT_MIN : U * rng.logf_(0.01, 5); VH_CHECK(pid.setEpsilon(e), "setEpsilon refused"); SET(L.eps = e); ev("setEpsilon"); break; }
            case 5: { float b = rng.chance(.2) ? 0.f : rng.f(0, .99); VH_CHECK(pid.setDerivativeFilter(b), "setDerivativeFilter refused"); SET(L.beta = b); ev("setDerivativeFilter"); break; }
            case 6: { float b = rng.f(-.5, 1.5), c = rng.f(-.5, 1.5); VH_CHECK(pid.setReferenceWeighting(b, c), "refused"); float b2 = std::min(1.f, std::max(0.f, b)), c2 = std::min(1.f, std::max(0.f, c)); SET(L.b = b2; L.c = c2); ev("setReferenceWeighting"); break; }
            case 7: { bool m = rng.chance(.5); VH_CHECK(pid.setMode(m ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC), "refused"); SET(L.manual = m); ev(m ? "manual" : "automatic"); break; }
            case 8: { float m = U * rng.f(-20, 20); VH_CHECK(pid.setManualInput(m), "refused"); SET(L.mIn = m); ev("setManualInput"); break; }
            case 9: { bool b = rng.chance(.5); VH_CHECK(pid.setDirection(b ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD), "refused"); SET(L.back = b); ev(b ? "backward" : "forward"); break; }
            case 10: { int m = (int)rng.below(3); pid.setDerivationMethod(DM[m]); SET(L.Dv.dm = DM[m]); ev("setDerivationMethod"); break; }
            case 11: { int m = (int)rng.below(4); pid.setIntegrationMethod(IM[m]); SET(L.I.im = IM[m]); ev("setIntegrationMethod"); break; }
            case 12: { VH_CHECK(pid.reset(), "reset refused"); SET(L.reset()); spread = 0; big = 0; ev("reset"); break; }
            case 13: { if (!rng.chance(.5)) break; float g = rng.logf_(.01, 1), a = rng.logf_(.01, 1); VH_CHECK(pid.setModelReferenceControl(modelRef, g, a), "refused"); SET(L.Mr.init(); L.gamma = g; L.alpha = a; L.mrac = true); ev("mrac"); break; }
            case 14: { VH_CHECK(pid.removeModelReferenceControl(), "refused"); SET(L.mrac = false); ev("mrac_removed"); break; }
            case 15: { float tf = rng.logf_(0.01, 5); VH_CHECK(pid.setDerivativeFilterTimeConstant(tf), "refused"); double b = std::exp(-(double)dt / tf); SET(L.beta = (T)b); ev("setDerivativeFilterTimeConstant"); spread = std::max(spread, 1e-5 * big); break; }
            default: { float a = rng.logf_(.1, 5), b = rng.logf_(.05, 2), c = rng.logf_(.01, .5); VH_CHECK(pid.setGains(a, b, c) && pid.setSeries(), "refused"); double ti = (double)a / b, td = (double)c / a, t = 1 + td / ti; double K = a * t, I = a / ti, Dd = K * td / t; pidGains g = pid.getGains(); VH_CHECK(near(g.Kc, K, 0, 1e-5) && near(g.Ki, I, 0, 1e-5) && near(g.Kd, Dd, 0, 1e-5), "series form of (%g,%g,%g) is (%g,%g,%g), expected (%g,%g,%g)", a, b, c, g.Kc, g.Ki, g.Kd, K, I, Dd); SET(L.kc = g.Kc; L.ki = g.Ki; L.kd = g.Kd); ev("setSeries"); }
        }
        float w = sw.next(), y = plant ? (float)py : sy.next(); modelRef = U * rng.f(-5, 5); double e = d.step(w, y, modelRef), z = f.step(w, y, modelRef); float u = pid.control(w, y);
        if (plant) py += (pk * u - py) * dt / (pt + dt);
        big = std::max(big, d.mag + std::fabs((double)d.lo) * (d.manual || e == d.lo) + std::fabs((double)d.hi) * (e == d.hi)); spread = std::max(spread, std::fabs(e - z));
        spread = std::max(spread, std::fabs(d.v - (double)f.v)); if (d.unsure || f.unsure || !(d.mag < 1e12) || !(spread <= 1e-2 * (U + big))) { ev("undecidable_in_single_precision"); return; }
        double tol = 3e-6 * big + 60 * spread + 1e-30; VH_CHECK(std::fabs(u - e) <= tol, "control action %d is %.9g, expected %.9g (tolerance %g; kc=%g ki=%g kd=%g dt=%g manual=%d)", i, u, e, tol, (double)d.kc, (double)d.ki, (double)d.kd, dt, d.manual);
        VH_CHECK(u >= (float)d.lo && u <= (float)d.hi, "control action %.9g outside of [%g,%g]", u, (double)d.lo, (double)d.hi); pidGains g = pid.getGains(); VH_CHECK(g.Kc == f.kc && g.Ki == f.ki && g.Kd == f.kd, "gains changed on their own"); maxi("tolerance_relative", tol / (1 + big)); seen(sig3(fb(w), fb(y), fb(u)));
        if (e == d.lo || e == d.hi) ev("saturated"); else ev("unsaturated");
    }
    eg("kc=%g ki=%g kd=%g dt=%g, %d samples, %s", kc, ki, kd, dt, N, plant ? "closed loop" : "open loop");
}
// one controller in use for more than 2^16 samples, in a closed loop
MONITOR(soak, 4, 80) {
    pidController pid; PidLaw<double> d; PidLaw<float> f; float dt = rng.logf_(.01, .2), kc = rng.f(.2, 2), ki = rng.f(.05, .5), kd = rng.f(.05, .5), be = rng.f(.5, .95); VH_CHECK(pid.setup(kc, ki, kd, dt) && pid.setSaturation(-50, 50) && pid.setDerivativeFilter(be), "setup refused"); SET(L.kc = kc; L.ki = ki; L.kd = kd; L.dt = dt; L.lo = -50; L.hi = 50; L.beta = be); double py = 0, pt = rng.uni(1, 5), big = 0, spread = 0; float lv = 0, mr = 0; int64_t left = 0; size_t N = 66000 + rng.below(6000), i = 0;
    for (; i < N; ++i) { if (left-- <= 0) { lv = rng.f(-20, 20); left = (int64_t)rng.logf_(5, 3000); } float w = lv + rng.f(-1, 1), y = (float)py; double e = d.step(w, y, mr), z = f.step(w, y, mr); float u = pid.control(w, y); py += (u - py) * dt / (pt + dt); big = std::max(big, d.mag); spread = std::max(spread, std::max(std::fabs(e - z), std::fabs(d.v - (double)f.v))); if (d.unsure || f.unsure || !(spread <= 1e-2 * (1 + big))) break; double tol = 3e-6 * big + 60 * std::min(spread, 1e-3 * big); VH_CHECK(std::fabs(u - e) <= tol, "control action %zu of one long run is %.9g, expected %.9g (tolerance %g)", i, u, e, tol); maxi("long_run_tolerance", tol); if (i % 64 == 0) seen(sig3(fb(w), fb(y), fb(u))); } ev("long_run_samples", i); if (i < N) ev("long_run_cut_short");
}
VH_MAIN
