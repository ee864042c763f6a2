// X02: elementary functions stay within a stated error of the real ones over
// their whole domain, and have the stated limits outside it. The reference is
// <cmath> in double precision on the exact float argument.
#include "vh.hpp"
#include <include/ffmath.hpp>
using namespace vh;
namespace ff = qlibs::ffmath;
struct Fn { const char *n; float (*f)(float); double (*r)(double); double lo, hi; int how; double absT, relT; };
// how: 0 uniform, 1 log-uniform, 2 log-uniform with either sign
static const Fn T[] = {
#define F(n, r, lo, hi, how, a, e) {#n, [](float x) { return ff::n(x); }, [](double x) { return (double)(r); }, lo, hi, how, a, e}
    F(recip, 1 / x, 3e-39, 3.3e38, 2, 0, 3.9e-3), F(recip, 1 / x, 1e-6, 1e6, 2, 0, 3.9e-3),
    F(sqrt, std::sqrt(x), 1.2e-38, 3.3e38, 1, 0, 2e-6), F(sqrt, std::sqrt(x), 1e-3, 10, 0, 0, 2e-6), F(sqrt, std::sqrt(x), 1e-44, 1.2e-38, 1, 0, 2.2e-6),
    F(rSqrt, 1 / std::sqrt(x), 1.2e-38, 3.3e38, 1, 0, 2.4e-3), F(rSqrt, 1 / std::sqrt(x), 1e-44, 1.2e-38, 1, 0, 2.4e-3),
    F(cbrt, std::cbrt(x), 1.2e-38, 3.3e38, 2, 0, 3.5e-5), F(rCbrt, 1 / std::cbrt(x), 1.2e-38, 3.3e38, 2, 0, 3e-7), F(cbrt, std::cbrt(x), 1e-44, 1.2e-38, 2, 0, 3.5e-5), F(rCbrt, 1 / std::cbrt(x), 1e-44, 1.2e-38, 2, 0, 3e-7),
    F(sin, std::sin(x), -7, 7, 0, 1.3e-3, 0), F(sin, std::sin(x), -1000, 1000, 0, 1.3e-3, 0), F(sin, std::sin(x), 1e-9, .1, 2, 0, 1.3e-2),
    F(cos, std::cos(x), -7, 7, 0, 1.3e-3, 0), F(cos, std::cos(x), -1000, 1000, 0, 1.3e-3, 0),
    F(tan, std::tan(x), -1, 1, 0, 1e-3, 3e-3), F(tan, std::tan(x), -1.5, 1.5, 0, 1e-3, .1),
    F(asin, std::asin(x), -1, 1, 0, .0135, 0), F(acos, std::acos(x), -1, 1, 0, .0135, 0), F(atan, std::atan(x), -10, 10, 0, 7e-3, 0), F(atan, std::atan(x), 1e-6, 3.3e38, 2, 7e-3, 0),
    F(exp2, std::exp2(x), -125.99, 127.49, 0, 0, 5e-7), F(exp2, std::exp2(x), 127, 127.99, 0, 0, 7e-6), F(exp2, std::exp2(x), 1e-8, 1, 2, 0, 5e-7),
    F(exp, std::exp(x), -87.3, 88.7, 0, 0, 1e-5), F(exp, std::exp(x), -2, 2, 0, 0, 2e-6), F(exp10, std::pow(10., x), -37.9, 38.5, 0, 0, 1e-5),
    F(expm1, std::expm1(x), -10, 10, 0, 1.5e-7, 1.5e-6), F(expm1, std::expm1(x), 1e-6, 1, 2, 1.5e-7, 4e-7),
    F(log2, std::log2(x), 1.2e-38, 3.3e38, 1, 1e-7, 2e-7), F(log2, std::log2(x), 1e-44, 1.2e-38, 1, 1e-7, 2e-7), F(log, std::log(x), 1e-44, 1.2e-38, 1, 1e-7, 2e-7), F(log10, std::log10(x), 1e-44, 1.2e-38, 1, 1e-7, 2e-7), F(log2, std::log2(x), .5, 2, 0, 2e-8, 3e-7), F(log, std::log(x), 1.2e-38, 3.3e38, 1, 1e-7, 2e-7), F(log, std::log(x), .5, 2, 0, 2e-8, 3e-7), F(log10, std::log10(x), 1.2e-38, 3.3e38, 1, 1e-7, 2e-7), F(log1p, std::log1p(x), -.99, 10, 0, 1e-7, 2.5e-7), F(log1p, std::log1p(x), 1e-3, 1e30, 1, 1e-7, 2.5e-7),
    F(sinh, std::sinh(x), -10, 10, 0, 3e-7, 1.2e-6), F(sinh, std::sinh(x), -89.4, 89.4, 0, 5e-7, 1.2e-5), F(cosh, std::cosh(x), -89.4, 89.4, 0, 0, 1.2e-5), F(cosh, std::cosh(x), -10, 10, 0, 0, 1.4e-6), F(tanh, std::tanh(x), -25, 25, 0, 3e-7, 0), F(tanh, std::tanh(x), 1e-5, 1e30, 2, 3e-7, 0),
    F(asinh, std::asinh(x), 1e-4, 3.3e38, 2, 8e-7, 6e-7), F(acosh, std::acosh(x), 1.1, 3.3e38, 1, 5e-7, 5e-7), F(acosh, std::acosh(x), 1.001, 3, 0, 4e-6, 5e-7), F(atanh, std::atanh(x), -.999, .999, 0, 1.5e-7, 3e-7),
    F(erf, std::erf(x), -9, 9, 0, .022, 0), F(erfc, std::erfc(x), -9, 9, 0, .022, 0),
#undef F
};
static const size_t NT = sizeof T / sizeof *T;
static void one(const Fn &f, float x) {
    note("%s(%.9g)", f.n, x); double e = f.r(x), tol = f.absT + f.relT * std::fabs(e); float g = f.f(x); double d = std::fabs((double)g - e);
    std::string k = std::string("err/tol ") + f.n; maxi(k.c_str(), d / (tol > 0 ? tol : 1)); VH_CHECK(d <= tol, "%s(%.9g) is %.9g, expected %.9g within %.3g", f.n, x, g, e, tol); evaln();
}
static float draw(const Fn &f, Rng &r) { return f.how == 0 ? (float)r.uni(f.lo, f.hi) : f.how == 1 ? r.logf_(f.lo, f.hi) : r.slogf_(f.lo, f.hi); }
MONITOR(accuracy, 4000, 60000) { const Fn &f = T[idx % NT]; float x = 0; for (int i = 0; i < 1500; ++i) { x = draw(f, rng); if (x == 0 && f.lo >= 0) continue; one(f, x); if (i < 16) seen(sig3(fb(x), idx % NT, 0)); } ev(f.n, 1500); eg("%s(%.9g)=%.9g (real %.9g)", f.n, x, f.f(x), f.r(x)); }
// runs of adjacent floats: a wrong branch limit shows on one side of it
MONITOR(adjacent, 4000, 60000) { const Fn &f = T[idx % NT]; float x = rng.chance(.5) ? draw(f, rng) : (float)(rng.range(-40, 40) * (rng.chance(.5) ? .5 : M_PI / 4)); if (f.how && !(x != 0)) return; double lo = f.how == 0 ? f.lo : f.how == 1 ? f.lo : -f.hi, hi = f.hi; for (int i = 0; i < 200; ++i) { if (x >= lo && x <= hi && (f.how == 0 ? true : std::fabs(x) >= f.lo)) one(f, x); x = std::nextafter(x, INFINITY); } ev("adjacent_runs"); seen(sig2(fb(x), idx % NT)); }
MONITOR(atan2, 300000, 8000000) { double m = std::exp(rng.uni(std::log(1e-6), std::log(1e6))), t = rng.uni(-M_PI, M_PI); float y = (float)(m * std::sin(t)), x = (float)(m * std::cos(t)); if (rng.chance(.1)) x = 0; if (rng.chance(.1)) y = 0; if (rng.chance(.2)) { y = rng.slogf_(1e-6, 1e6); x = rng.slogf_(1e-6, 1e6); } if (rng.chance(.2)) { float k = rng.logf_(1e-38, 1e38); y = k * rng.slogf_(1e-3, 1); x = k * rng.slogf_(1e-3, 1); ev("any_magnitude"); } if (rng.chance(.1)) { y = rng.slogf_(1e-44, 3.3e38); x = rng.slogf_(1e-44, 3.3e38); ev("unrelated_magnitudes"); } if (x == 0 && y == 0) return; note("atan2(%.9g,%.9g)", y, x); double e = std::atan2((double)y, (double)x), g = ff::atan2(y, x), d = std::fabs(g - e); maxi("atan2 error", d); VH_CHECK(d <= 7e-3, "atan2(%.9g,%.9g) is %.9g, expected %.9g", y, x, g, e); ev(x < 0 ? "left_half_plane" : x > 0 ? "right_half_plane" : "imaginary_axis"); seen(sig2(fb(x), fb(y))); }
MONITOR(pow, 300000, 8000000) { float b = rng.logf_(rng.chance(.5) ? 1e-3 : 1e-20, rng.chance(.5) ? 1e3 : 1e20), q = (float)rng.uni(-20, 20); if (rng.chance(.3)) q = (float)rng.range(-8, 8) * .5f; double l = q * std::log2((double)b); if (std::fabs(l) > 125) return; note("pow(%.9g,%.9g)", b, q); double e = std::pow((double)b, (double)q), g = ff::pow(b, q), tol = e * (7e-7 + std::fabs(q) * (1.2e-7 + std::fabs(std::log2((double)b)) * 1.2e-7)); maxi("err/tol pow", std::fabs(g - e) / tol); VH_CHECK(std::fabs(g - e) <= tol, "pow(%.9g,%.9g) is %.9g, expected %.9g", b, q, g, e); ev("powers"); seen(sig2(fb(b), fb(q))); }
MONITOR(hypot, 300000, 8000000) { float x = rng.slogf_(1e-37, 1e38), y = rng.chance(.6) ? x * rng.slogf_(1e-4, 1e4) : rng.slogf_(1e-37, 1e38); if (rng.chance(.05)) y = 0; if (rng.chance(.05)) x = 0; if (!std::isfinite(y)) return; note("hypot(%.9g,%.9g)", x, y); double e = std::hypot((double)x, (double)y); float g = ff::hypot(x, y); if (e > 3.4e38) { VH_CHECK(g > 3.39e38f, "hypot(%.9g,%.9g) is %.9g", x, y, g); ev("hypot_overflow"); return; } double tol = 2.2e-6 * e + 2.9e-45; maxi("err/tol hypot", std::fabs(g - e) / tol); VH_CHECK(std::fabs(g - e) <= tol, "hypot(%.9g,%.9g) is %.9g, expected %.9g", x, y, g, e); ev(e > 1.8e19 || e < 1e-19 ? "square_not_representable" : "hypot"); seen(sig2(fb(x), fb(y))); }
MONITOR(limits_, 20000, 400000) { // outside the domain, and the ends of it
    float n = -rng.logf_(1e-44, 3e38), big = rng.logf_(1, 1e30); note("n=%.9g big=%.9g", n, big);
    VH_CHECK(std::isnan(ff::sqrt(n)) && std::isnan(ff::rSqrt(n)) && std::isnan(ff::log2(n)) && std::isnan(ff::log(n)) && std::isnan(ff::log10(n)), "root or logarithm of negative %.9g is not NaN: %g %g %g %g %g", n, ff::sqrt(n), ff::rSqrt(n), ff::log2(n), ff::log(n), ff::log10(n));
    for (float z : {0.f, -0.f}) { VH_CHECK(ff::sqrt(z) == 0 && ff::log2(z) == -INFINITY && ff::log(z) == -INFINITY && ff::log10(z) == -INFINITY && ff::rSqrt(z) == INFINITY && ff::rCbrt(z) == INFINITY && ff::cbrt(z) == 0, "value at zero"); VH_CHECK(ff::sin(z) == 0 && ff::tan(z) == 0 && std::fabs(ff::sinh(z)) == 0 && ff::exp2(z) == 1 && ff::exp(z) == 1 && ff::exp10(z) == 1 && ff::expm1(z) == 0 && ff::cosh(z) == 1 && ff::atan(z) == 0 && std::fabs(ff::asin(z)) == 0 && ff::tanh(z) == 0 && ff::atanh(z) == 0 && std::fabs(ff::asinh(z)) <= 1e-6, "functions at zero"); }
    VH_CHECK(ff::sqrt(INFINITY) == INFINITY && std::isnan(ff::sqrt(NAN)) && std::isnan(ff::rSqrt(NAN)) && std::isnan(ff::cbrt(NAN)) && std::isnan(ff::log2(NAN)) && std::isnan(ff::log(NAN)) && std::isnan(ff::log10(NAN)) && std::isnan(ff::log1p(NAN)) && ff::log2(INFINITY) == INFINITY && ff::log(INFINITY) == INFINITY && std::isnan(ff::sin(NAN)) && std::isnan(ff::cos(NAN)) && std::isnan(ff::atan(NAN)) && std::isnan(ff::exp(NAN)) && std::isnan(ff::tanh(NAN)) && std::isnan(ff::recip(NAN)), "NaN or infinity not carried through");
    VH_CHECK(ff::rSqrt(INFINITY) == 0 && ff::cbrt(INFINITY) == INFINITY && ff::cbrt(-INFINITY) == -INFINITY && ff::rCbrt(INFINITY) == 0 && ff::rCbrt(-INFINITY) == 0 && ff::recip(INFINITY) == 0 && ff::recip(-INFINITY) == 0 && ff::recip(0.f) == INFINITY && ff::recip(-0.f) == -INFINITY, "a root or reciprocal at infinity or zero: rSqrt %g cbrt %g %g rCbrt %g %g recip %g %g %g", ff::rSqrt(INFINITY), ff::cbrt(INFINITY), ff::cbrt(-INFINITY), ff::rCbrt(INFINITY), ff::rCbrt(-INFINITY), ff::recip(INFINITY), ff::recip(0.f), ff::recip(-0.f)); VH_CHECK(std::fabs(ff::atan(INFINITY) - M_PI_2) < 7e-3 && std::fabs(ff::atan(-INFINITY) + M_PI_2) < 7e-3 && ff::log10(INFINITY) == INFINITY && ff::log1p(INFINITY) == INFINITY && ff::asinh(INFINITY) == INFINITY && ff::asinh(-INFINITY) == -INFINITY && ff::acosh(INFINITY) == INFINITY && ff::tanh(INFINITY) == 1 && ff::tanh(-INFINITY) == -1 && ff::atanh(1) == INFINITY && ff::atanh(-1) == -INFINITY && std::isnan(ff::asinh(NAN)) && std::isnan(ff::acosh(NAN)) && std::isnan(ff::atanh(NAN)) && std::isnan(ff::asin(NAN)) && std::isnan(ff::acos(NAN)), "a function at infinity: atan %g %g asinh %g %g acosh %g atanh(1) %g", ff::atan(INFINITY), ff::atan(-INFINITY), ff::asinh(INFINITY), ff::asinh(-INFINITY), ff::acosh(INFINITY), ff::atanh(1));
    { float q = rng.logf_(1e-3, 1e3), o1 = 1 + rng.logf_(1e-6, 1e30); VH_CHECK(ff::pow(0, q) == 0 && ff::pow(0, -q) == INFINITY && ff::pow(-n, 0) == 1 && ff::pow(INFINITY, q) == INFINITY && ff::pow(INFINITY, -q) == 0 && ff::pow(1, n) == 1 && std::isnan(ff::pow(NAN, q)) && std::isnan(ff::pow(q, NAN)), "pow at its limits, exponent %.9g", q); VH_CHECK(std::isnan(ff::asin(o1)) && std::isnan(ff::asin(-o1)) && std::isnan(ff::acos(o1)) && std::isnan(ff::acos(-o1)) && std::isnan(ff::atanh(o1)) && std::isnan(ff::atanh(-o1)), "inverse function of %.9g is not NaN", o1); for (float s : {1.f, -1.f}) for (float x : {big, -big}) VH_CHECK(std::fabs(ff::atan2(s * INFINITY, x) - s * M_PI_2) < 7e-3 && std::fabs(ff::atan2(s * big, INFINITY)) < 1e-5 && std::fabs(ff::atan2(s * big, -INFINITY) - s * M_PI) < 1e-5, "atan2 with an infinite argument"); }
    float over = 128 * rng.logf_(1.0001, 1e30), under = -126 * rng.logf_(1.0001, 1e30); VH_CHECK(ff::exp2(over) == INFINITY && ff::exp2(under) == 0 && ff::exp2(INFINITY) == INFINITY && ff::exp2(-INFINITY) == 0 && std::isnan(ff::exp2(NAN)) && ff::exp2(128) == INFINITY, "exp2 at %.9g is %.9g, at %.9g is %.9g", over, ff::exp2(over), under, ff::exp2(under));
    VH_CHECK(ff::exp(over) == INFINITY && ff::exp(under) == 0 && ff::exp10(over) == INFINITY && ff::exp10(under) == 0 && ff::expm1(under) == -1 && ff::expm1(over) == INFINITY && ff::cosh(over) == INFINITY && ff::cosh(under) == INFINITY && ff::sinh(over) == INFINITY && ff::sinh(under) == -INFINITY, "exponentials do not saturate at %.9g or %.9g", over, under);
    float big20 = 20 * rng.logf_(1.001, 1e30); VH_CHECK(ff::tanh(big20) == 1 && ff::tanh(-big20) == -1, "tanh does not saturate at %.9g", big20); float b7 = 7 * rng.logf_(1, 1e30); VH_CHECK(ff::erf(b7) == 1 && std::fabs(ff::erf(-b7) + 1) < 1e-5 && ff::erfc(b7) == 0, "erf does not saturate at %.9g: %.9g %.9g", b7, ff::erf(b7), ff::erf(-b7));
    float lt1 = 1 - rng.logf_(1e-6, 1e30); VH_CHECK(std::isnan(ff::acosh(lt1)) && std::fabs(ff::acosh(1)) < 1e-6, "acosh(%.9g) is %.9g", lt1, ff::acosh(lt1));
    VH_CHECK(std::isnan(ff::log1p(-1 - rng.logf_(1e-5, 1e30))) && ff::log1p(-1) == -INFINITY, "log1p at or below -1");
    for (float s : {1.f, -1.f}) VH_CHECK(std::fabs(ff::atan2(0, s * big) - (s < 0 ? M_PI : 0)) < 1e-5 && std::fabs(ff::atan2(s * big, 0) - s * M_PI_2) < 1e-5, "atan2 on the axes: %.9g %.9g", ff::atan2(0, s * big), ff::atan2(s * big, 0));
    float h = rng.chance(.5) ? INFINITY : -INFINITY; VH_CHECK(ff::hypot(h, n) == INFINITY && ff::hypot(n, h) == INFINITY && ff::hypot(h, NAN) == INFINITY && ff::hypot(NAN, h) == INFINITY && std::isnan(ff::hypot(NAN, n)) && std::isnan(ff::hypot(n, NAN)), "hypot of non-finite arguments"); VH_CHECK(ff::hypot(0, 0) == 0, "hypot(0,0)");
    evaln(40); ev("limit_cases"); seen(sig2(fb(n), fb(over))); }
// ranges and symmetries that hold for every finite argument
MONITOR(ranges, 200000, 6000000) { float x = rng.chance(.5) ? rng.anyFloat() : rng.chance(.5) ? rng.slogf_(1e-3, 1e3) : rng.slogf_(1e-38, 3e38); if (!std::isfinite(x)) return; note("x=%.9g", x); const double o = 1.000001;
    auto in = [&](const char *n, double v, double lo, double hi) { VH_CHECK(v >= lo && v <= hi, "%s(%.9g) is %.9g, outside [%g,%g]", n, x, v, lo, hi); };
    in("sin", ff::sin(x), -o, o); in("cos", ff::cos(x), -o, o); in("tanh", ff::tanh(x), -1, 1); in("erf", ff::erf(x), -o, o); in("erfc", ff::erfc(x), 0, 2 * o); in("atan", ff::atan(x), -M_PI_2 * o, M_PI_2 * o); in("exp", ff::exp(x), 0, INFINITY); in("exp2", ff::exp2(x), 0, INFINITY); in("exp10", ff::exp10(x), 0, INFINITY); in("expm1", ff::expm1(x), -o, INFINITY); in("cosh", ff::cosh(x), 1 / o, INFINITY); if (x >= 0) { in("sqrt", ff::sqrt(x), 0, 2e19); in("rSqrt", ff::rSqrt(x), 0, INFINITY); }
    auto odd = [&](const char *n, float a, float b, double t) { VH_CHECK(a == -b || std::fabs((double)a + b) <= t * (1 + std::fabs((double)a)), "%s(%.9g) is %.9g, of the opposite %.9g", n, x, a, b); };
    odd("sinh", ff::sinh(x), ff::sinh(-x), 2e-6); odd("asinh", ff::asinh(x), ff::asinh(-x), 2e-6); odd("cbrt", ff::cbrt(x), ff::cbrt(-x), 2e-6); odd("atan", ff::atan(x), ff::atan(-x), 2e-6); odd("tanh", ff::tanh(x), ff::tanh(-x), 2e-6); odd("erf", ff::erf(x), ff::erf(-x), 2e-6); odd("cosh", ff::cosh(x), -ff::cosh(-x), 2e-6); if (std::fabs(x) < 1000) { odd("sin", ff::sin(x), ff::sin(-x), 1e-4); odd("cos", ff::cos(x), -ff::cos(-x), 1e-3); }
    evaln(20); seen(fb(x)); ev(std::fabs(x) > 1e6 ? "ranges_far" : "ranges"); }
// any bit pattern: no undefined behaviour, whatever the value
MONITOR(hostile, 200000, 6000000) { float x = rng.anyFloat(), y = rng.anyFloat(); note("x=%08llx y=%08llx", (unsigned long long)fb(x), (unsigned long long)fb(y)); volatile float s = 0; for (size_t i = 0; i < NT; ++i) s = s + T[i].f(x); s = s + ff::pow(x, y) + ff::hypot(x, y) + ff::atan2(y, x) + ff::mod(x, y) + ff::rem(x, y); ev("hostile_arguments"); seen(sig2(fb(x), fb(y))); }
VH_MAIN
