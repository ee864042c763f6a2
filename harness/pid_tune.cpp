// P03: auto-tuning and model-reference adaptation.
#include "pid_ref.hpp"
using namespace vh; using namespace qlibs;
static void rules(pidType t, double K, double T, double sp, double &kc, double &ki, double &kd) { double td = 0.1 * T; kc = ki = kd = 0; switch (t) { case pidType::PID_TYPE_P: kc = sp * (1.03 / K) * (T / td + 0.34); break; case pidType::PID_TYPE_PD: kc = sp * (1.24 / K) * (T / td + 0.129); kd = kc * 0.27 * td * (T - 0.324 * td) / (T + 0.129 * td); break; case pidType::PID_TYPE_PI: kc = sp * (0.9 / K) * (T / td + 0.092); ki = kc * (T + 2.22 * td) / (3.33 * td * (T + 0.092 * td)); break; default: kc = sp * (1.35 / K) * (T / td + 0.185); ki = kc * (T + 0.611 * td) / (2.5 * td * (T + 0.185 * td)); kd = 0.37 * kc * td * T / (T + 0.185 * td); } }
static const pidType TY[] = { pidType::PID_TYPE_P, pidType::PID_TYPE_PI, pidType::PID_TYPE_PD, pidType::PID_TYPE_PID };
// a first-order plant is identified and the controller gets the gains of the tuning rules for it, once, after the requested number of steps
MONITOR(tuning, 4000, 100000) {
    float dt = rng.f(0.05, 0.2); if (rng.chance(.3)) dt *= (float)std::pow(10., rng.uni(-4, 4)); double K = rng.logf_(0.3, 4), T = dt * rng.uni(4, 25), a = std::exp(-dt / T), b = K * (1 - a); float kc = (float)(0.5 / K), ki = (float)(0.5 / K / T); pidController p; VH_CHECK(p.setup(kc, ki, 0, dt), "setup"); const float amp = rng.chance(.5) ? 10.f : rng.logf_(1, 300); p.setSaturation(-100 * amp, 100 * amp); pidAutoTuning at; VH_CHECK(p.bindAutoTuning(at), "bind refused"); pidType ty = TY[rng.below(4)]; float sp = rng.f(0.05, 1), mu = rng.f(0.3, 0.95), la = rng.f(0.97, 1); bool par = rng.chance(0.7), setty = rng.chance(0.7); if (par) { VH_CHECK(p.setAutoTuningParameters(1, 1, 1), "auto-tuning parameters of one refused"); VH_CHECK(p.setAutoTuningParameters(mu, sp, la), "parameters refused"); } else sp = 0.25f; if (setty) VH_CHECK(p.setAutoTuningControllerType(ty), "type refused"); else ty = pidType::PID_TYPE_PI;
    uint32_t n = idx % 2000 == 7 ? 65536 + (uint32_t)rng.below(3000) : 250 + (uint32_t)rng.below(200); if (n > 60000) ev("long_tuning"); VH_CHECK(p.enableAutoTuning(n), "enable refused"); double y = 0; float w = amp / 2; int per = 15 + (int)rng.below(20); uint32_t done = 0; pidGains g0 = p.getGains(), g1 = g0; bool unbind = rng.chance(0.1);
    for (uint32_t k = 0; k < n + 400; ++k) { if (k % per == 0) w = amp * rng.f(-1, 1); if (unbind && k == n / 2) { VH_CHECK(p.unbindAutoTuning(), "unbind refused"); } float yf = (float)y, u = p.control(w, yf); y = a * y + b * u; pidGains g = p.getGains(); bool c = p.isAutoTuningComplete(); evaln();
        if (!done && (g.Kc != g0.Kc || g.Ki != g0.Ki || g.Kd != g0.Kd)) { VH_CHECK(c, "gains changed before auto-tuning is complete"); }
        if (c && !done) { done = k + 1; g1 = g; VH_CHECK(done >= n && done <= n + 20, "auto-tuning complete after %u steps, %u requested", done, n); }
        if (done) { VH_CHECK(c && g.Kc == g1.Kc && g.Ki == g1.Ki && g.Kd == g1.Kd, "gains changed after auto-tuning completed"); if (k > done + 60) break; } }
    if (unbind) { VH_CHECK(!done && p.getGains().Kc == kc, "an unbound tuner still changes the gains"); ev("unbound"); return; }
    VH_CHECK(done, "auto-tuning never completes (%u steps requested)", n); double ek, ei, ed; rules(ty, K, T, sp, ek, ei, ed); auto off = [](double g, double e) { return e == 0 ? std::fabs(g) : std::fabs(g / e - 1); }; double worst = std::max(off(g1.Kc, ek), std::max(off(g1.Ki, ei), off(g1.Kd, ed))); maxi("worst_gain_error", worst); maxi("late_steps", (double)(done - n));
    VH_CHECK(worst <= 0.01, "plant K=%g T=%g dt=%g type %d: gains (%g,%g,%g), tuning rules give (%g,%g,%g); mu=%g lambda=%g n=%u", K, T, dt, (int)ty, g1.Kc, g1.Ki, g1.Kd, ek, ei, ed, mu, la, n); VH_CHECK(p.setGains(rng.f(-3, 0), rng.f(-1, 1), 0) && p.isAutoTuningComplete(), "completion forgotten after new gains"); pidController other; other.setup(1, 1, 0, 1); VH_CHECK(!other.isAutoTuningComplete(), "completion reported by a controller without tuner"); seen(sig3((int)ty, fb((float)K), fb((float)T))); ev("tuned"); pidGains e2 = at.getEstimates(); (void)e2; eg("plant K=%.3g T=%.3g: gains %.4g %.4g %.4g after %u steps", K, T, g1.Kc, g1.Ki, g1.Kd, done);
}
// while the tuner is enabled without a limit the gains stay untouched and it never reports completion
MONITOR(indefinite, 500, 8000) {
    pidController p; p.setup(.4f, .2f, 0, .1f); pidAutoTuning at; p.bindAutoTuning(at); bool z = rng.chance(.5); VH_CHECK(p.enableAutoTuning(z ? 0 : pidAutoTuning::UNDEFINED), "enable refused"); double y = 0; float w = 5; for (int k = 0; k < 2000; ++k) { if (k % 25 == 0) w = rng.f(0, 10); float u = p.control(w, (float)y); y = .9 * y + .1 * u; VH_CHECK(!p.isAutoTuningComplete(), "complete"); pidGains g = p.getGains(); VH_CHECK(g.Kc == .4f && g.Ki == .2f && g.Kd == 0, "gains changed while tuning is not limited"); } 
    pidGains e = at.getEstimates(); double T = -.1 / std::log(.9), kc, ki, kd; rules(pidType::PID_TYPE_PI, 1, T, .25, kc, ki, kd); VH_CHECK(near(e.Kc, kc, 0, .1) && near(e.Ki, ki, 0, .1) && e.Kd == 0, "estimates (%g,%g,%g), expected (%g,%g,%g)", e.Kc, e.Ki, e.Kd, kc, ki, kd); seen(fb((float)y)); ev("indefinite");
}
// model-reference adaptation pulls a plant of unknown gain towards the reference model
MONITOR(mrac, 500, 8000) {
    float dt = .01f; double kp = rng.uni(.4, .8), T = 1; pidController p, q; float yr = 0; p.setup(.3f, 0, 0, dt); q.setup(.3f, 0, 0, dt); p.setSaturation(-1000, 1000); q.setSaturation(-1000, 1000); float gm = rng.f(0.5, 1.5); VH_CHECK(p.setModelReferenceControl(yr, gm, .1f), "refused"); double y = 0, z = 0, ym = 0; double e1 = 0, e2 = 0; int N = 6000; for (int k = 0; k < N; ++k) { float w = 3; ym += (w - ym) * dt / T; yr = (float)ym; double u = p.control(w, (float)y), v = q.control(w, (float)z); y += (kp * u - y) * dt / T; z += (kp * v - z) * dt / T; if (k > N - 500) { e1 += std::fabs(y - ym); e2 += std::fabs(z - ym); } evaln(); }
    VH_CHECK(e1 < 0.02 * e2, "tracking error of the reference model %g with adaptation, %g without (plant gain %g, gamma %g)", e1 / 500, e2 / 500, kp, gm); seen(sig2(fb((float)kp), fb(gm))); maxi("mrac_error_ratio", e1 / e2); ev("mrac");
}
// online model of the estimator: recursive least squares with forgetting on the measured input/output, smoothed gain and
// time constant, tuning rules; in double (oracle) and single precision (what rounding amplifies to)
namespace { template <class T> struct Rls { T P[2][2], th[2], uk, yk, l, k, tao, mu, sp; pidType ty = pidType::PID_TYPE_PI; uint32_t left; Rng *nz = nullptr; T q(T v) { return nz ? v * (T)(1 + 2e-6 * nz->uni(-1, 1)) : v; } // nz: injected rounding, to observe how much of it the recursion amplifies
    void bind(float kc, float ki, float dt) { P[0][0] = P[1][1] = 1000; P[0][1] = P[1][0] = 0; uk = yk = k = tao = 0; l = (T)0.9898f; mu = (T)0.95f; sp = (T)0.25f; T ki_ = (T)kc / (T)0.9f, Ti = (T)0.27f * ki_ / (T)ki; th[1] = -(T)std::exp((double)(-(T)dt / Ti)); th[0] = ki_ * (1 + th[1]); left = 0xFFFFFFFEu; }
    bool step(T u, T y, T dt) { T f[2] = { uk, -yk }, g[2] = { q(P[0][0] * f[0]) + q(P[0][1] * f[1]), q(P[1][0] * f[0]) + q(P[1][1] * f[1]) }, r = l + q(f[0] * g[0]) + q(f[1] * g[1]), e = y - (q(th[0] * f[0]) + q(th[1] * f[1])), L[2] = { g[0] / r, g[1] / r }; for (int i = 0; i < 2; ++i) th[i] = q(th[i] + q(L[i] * e)); T h[2] = { q(f[0] * P[0][0]) + q(f[1] * P[1][0]), q(f[0] * P[0][1]) + q(f[1] * P[1][1]) }; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) P[i][j] = (q(P[i][j]) - q(L[i] * h[j])) / l + (i == j ? (T)1e-10 : 0); uk = u; yk = y;
        T G = th[0] / (1 + q(th[1])), C = -dt / (T)std::log((double)std::fabs((double)q(th[1]))); auto ok = [](double v) { return std::isfinite(v) && v > 0; }; if (!ok((double)G) || !ok((double)C) || left == 0) return false; k = q(q(G) + q(mu * (k - G))); tao = q(q(C) + q(mu * (tao - C))); return --left == 0; }
    bool valid() const { return k > 0 && tao > 0; } }; }
MONITOR(estimator, 3000, 80000) {
    float dt = rng.f(0.05, 0.2); if (rng.chance(.3)) dt *= (float)std::pow(10., rng.uni(-4, 4)); double K = rng.logf_(0.3, 4), T = dt * rng.uni(3, 25), a = std::exp(-dt / T), b = K * (1 - a), y = 0; pidController p; float kc = (float)(rng.uni(.1, .6) / K), ki = rng.chance(.1) ? 0.f : (float)(rng.uni(.2, .6) / K / T); VH_CHECK(p.setup(kc, ki, 0, dt), "setup"); const float amp = rng.logf_(0.05, 0.6); p.setSaturation(-(float)(rng.uni(1, 4) * amp / K), (float)(rng.uni(1, 4) * amp / K)); pidAutoTuning tuner[3]; int cur = 0; enum { R = 5 }; pidType TYP[3] = { pidType::PID_TYPE_PI, pidType::PID_TYPE_PI, pidType::PID_TYPE_PI }; Rls<double> d, rep[R]; Rng nr[R]; for (int i = 0; i < R; ++i) { nr[i] = Rng(rng.u64()); rep[i].nz = &nr[i]; } double nz = rng.chance(.5) ? 0 : rng.logf_(1e-5, 0.005);
    auto bind = [&] { cur = (int)rng.below(3); VH_CHECK(p.bindAutoTuning(tuner[cur]), "bind refused"); d.ty = TYP[cur]; d.bind(kc, ki, dt); for (auto &q : rep) q.bind(kc, ki, dt); }; auto opts = [&] { if (rng.chance(.6)) { float mu = rng.f(.05, 1), sp = rng.f(.05, 1), la = rng.f(.95, 1); VH_CHECK(p.setAutoTuningParameters(mu, sp, la), "parameters refused"); d.mu = mu; d.sp = sp; d.l = la; for (auto &q : rep) { q.mu = mu; q.sp = sp; q.l = la; } } if (rng.chance(.6)) { pidType t = TY[rng.below(4)]; VH_CHECK(p.setAutoTuningControllerType(t), "type refused"); d.ty = TYP[cur] = t; } if (rng.chance(.7)) { uint32_t n = (uint32_t)(rng.chance(.1) ? 0 : 1 + rng.below(120)); VH_CHECK(p.enableAutoTuning(n), "enable refused"); d.left = n ? n : 0xFFFFFFFEu; for (auto &q : rep) q.left = d.left; ev("enabled"); } };
    bind(); opts(); float w = amp; double spread = 0; int N = 60 + (int)rng.below(300);
    for (int i = 0; i < N; ++i) {
        if (i % 17 == 0) w = amp * rng.f(-1, 1); if (rng.chance(.008)) { kc = (float)(rng.uni(.1, .6) / K); ki = (float)(rng.uni(.2, .6) / K / T); VH_CHECK(p.setGains(kc, ki, 0), "gains"); bind(); spread = 0; opts(); ev("bound_again"); } else if (rng.chance(.01)) opts();
        float yf = (float)y; pidGains g0 = p.getGains(); float u = p.control(w, yf); y = a * y + b * u + nz * rng.uni(-1, 1); bool r1 = d.step(u, yf, dt), und = false; for (auto &q : rep) { if (q.step(u, yf, dt) != r1 || q.left != d.left) und = true; } if (und) { ev("undecidable_in_single_precision"); return; }
        pidGains g = p.getGains(), e = tuner[cur].getEstimates(); VH_CHECK(p.isAutoTuningComplete() == (d.left == 0), "step %d: completion reported %d with %u steps left", i, (int)p.isAutoTuningComplete(), d.left);
        if (r1) { VH_CHECK(g.Kc == e.Kc && g.Ki == e.Ki && g.Kd == e.Kd, "step %d: tuning completed but the gains are not the estimates", i); kc = g.Kc; ki = g.Ki; ev("completed"); } else VH_CHECK(g.Kc == g0.Kc && g.Ki == g0.Ki && g.Kd == g0.Kd, "step %d: gains changed although tuning did not complete", i);
        if (!d.valid()) continue; double ek, ei, ed; rules(d.ty, d.k, d.tao, d.sp, ek, ei, ed); auto off = [](double g, double e) { return e == 0 ? std::fabs(g) : std::fabs(g / e - 1); }; for (auto &q : rep) spread = std::max(spread, std::max(off(q.k, d.k), off(q.tao, d.tao))); if (!(spread < 3e-4)) { ev("undecidable_in_single_precision"); return; }
        double tol = 2e-4 + 60 * spread, wst = std::max(off(e.Kc, ek), std::max(off(e.Ki, ei), off(e.Kd, ed))); VH_CHECK(wst <= tol, "step %d: estimates (%.7g,%.7g,%.7g), expected (%.7g,%.7g,%.7g) (type %d, tolerance %g)", i, e.Kc, e.Ki, e.Kd, ek, ei, ed, (int)d.ty, tol); maxi("estimator_tolerance", tol); seen(sig3(fb(u), fb(e.Kc), fb(e.Ki))); ev("estimates_checked");
    }
}
VH_MAIN
