// Reference of the PID control law, instantiated in double (oracle) and float (rounding amplification).
#ifndef PID_REF_HPP
#define PID_REF_HPP
#include "vh.hpp"
#include "sig.hpp"
#include <include/pid.hpp>
namespace vh {
template <class T> struct Hist { T x = 0, s1 = 0, s2 = 0; int im = qlibs::INTEGRATION_TRAPEZOIDAL, dm = qlibs::DERIVATION_2POINTS;
    void init() { x = s1 = s2 = 0; }
    T integ(T s, T dt) { switch (im) { case qlibs::INTEGRATION_RECTANGULAR: x += s * dt; break; case qlibs::INTEGRATION_TRAPEZOIDAL: x += (s + s1) / 2 * dt; break; case qlibs::INTEGRATION_SIMPSON: x += (s + 4 * s1 + s2) / 6 * dt; break; default: x += (5 * s + 8 * s1 - s2) / 12 * dt; } s2 = s1; s1 = s; return x; }
    T der(T s, T dt) { T d; switch (dm) { case qlibs::DERIVATION_2POINTS: d = (s - s1) / dt; break; case qlibs::DERIVATION_BACKWARD: d = (3 * s - 4 * s1 + s2) / (2 * dt); break; default: d = (4 * s1 - 3 * s2 - s) / (2 * dt); } s2 = s1; s1 = s; return d; } };
template <class T> struct PidLaw { T kc = 0, ki = 0, kd = 0, dt = 1, beta = (T)0.98f, eps = (T)FLT_MIN, lo = 0, hi = 100, kw = 1, kt = 1, b = 1, c = 0, mIn = 0, D = 0, u1 = 0, m = 0, uSat = 0, gamma = 0, alpha = 0; bool manual = false, back = false, mrac = false, unsure = false; Hist<T> I, Dv, Mr, Mn; T v = 0; double mag = 0;
    void reset() { I.init(); Dv.init(); Mr.init(); Mn.init(); D = u1 = m = uSat = 0; }
    T err(T w, T y, T k) { T e = k * w - y; if (std::fabs((double)e) <= (double)eps) e = 0; else if (std::fabs(std::fabs((double)e) - (double)eps) <= 1e-5 * (std::fabs((double)(k * w)) + std::fabs((double)y)) && (double)eps > 1e-30) unsure = true; if (std::fabs((double)e) <= (double)eps && (double)eps > 1e-30 && std::fabs(std::fabs((double)(k * w - y)) - (double)eps) <= 1e-5 * (std::fabs((double)(k * w)) + std::fabs((double)y))) unsure = true; return e; }
    static T neg(T g) { return g > 0 ? -g : g; }
    T step(T w, T y, T yr) {
        T c1 = back ? neg(kc) : kc, c2 = back ? neg(ki) : ki, c3 = back ? neg(kd) : kd; T e = err(w, y, 1), de = Dv.der(err(w, y, c), dt), ie = I.integ(e + u1, dt); D = de + beta * (D - de); T p = err(w, y, b); v = c1 * p + c2 * ie + c3 * D; mag = std::fabs((double)(c1)) * (std::fabs((double)(b * w)) + std::fabs((double)y)) + std::fabs((double)(c2 * ie)) + std::fabs((double)(c3 * D)) + std::fabs((double)c3) * (std::fabs((double)(c * w)) + std::fabs((double)y)) / (double)dt;
        if (mrac) { T th = 0; if (std::fabs((double)u1) <= (double)eps) { T em = y - yr; th = Mr.integ(-gamma * em * yr / (alpha + yr * yr), dt); } if (u1 != 0 && std::fabs((double)u1) < 1e-3 * (1 + std::fabs((double)v))) unsure = true; v += w * th; mag += std::fabs((double)(w * th)); }
        m = Mn.integ(kt * mIn + kw * (uSat - m), dt); mag += std::fabs((double)m); T sw = manual ? m : v; uSat = sw < lo ? lo : sw > hi ? hi : sw; if (mrac && !manual && (std::fabs((double)(v - lo)) < 1e-4 * (1 + mag) || std::fabs((double)(v - hi)) < 1e-4 * (1 + mag))) unsure = true; if (mrac && manual) unsure = true; u1 = kw * (uSat - v); return uSat; } };
}
#endif
