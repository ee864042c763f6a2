// Q03: fixed-point functions stay within a stated distance of the real ones.
#include "fp_ref.hpp"
using namespace vh;
static const double LSB = 1.0 / 65536, PI = M_PI;
#define NEAR(name, x, got, ref, tol) do { double g_ = fp16::toDouble(got), r_ = (ref), t_ = (tol); maxi("err/tol " name, std::fabs(g_ - r_) / t_); VH_CHECK(std::fabs(g_ - r_) <= t_, name " of %.9g is %.9g, expected %.9g within %.3g", val(x), g_, r_, t_); evaln(); } while (0)
static void one(int64_t x, Rng &rng) {
    double v = val(x); fp16 a = R(x); note("x=%lld", (long long)x);
    if (x < 0) VH_CHECK(fp16::sqrt(a).isOverflow() && fp16::log(a).isOverflow() && fp16::log2(a).isOverflow(), "sqrt, log or log2 of negative %.9g is not an overflow", v);
    else { NEAR("sqrt", x, fp16::sqrt(a), std::sqrt(v), .51 * LSB); if (x == 0) VH_CHECK(fp16::log(a).isOverflow() && fp16::log2(a).isOverflow(), "log of zero"); else { NEAR("log", x, fp16::log(a), std::log(v), 8e-5 + (x < 65536 ? .55 / ((double)x * 54.6) : 0)); NEAR("log2", x, fp16::log2(a), std::log2(v), 6e-5); ev("logs"); } }
    if (x >= 681391) { VH_CHECK(fp16::exp(a).raw() == FMAX && fp16::cosh(a).raw() == FMAX && fp16::sinh(a).raw() == FMAX, "exp, cosh or sinh of %.9g does not saturate", v); ev("saturated"); } else if (x <= -681391) { VH_CHECK(fp16::exp(a).raw() == 0 && fp16::cosh(a).raw() == FMAX && fp16::sinh(a).raw() == -FMAX, "exp, cosh or sinh of %.9g does not saturate", v); ev("saturated"); } else { double e = std::exp(v), h = std::exp(std::fabs(v)); NEAR("exp", x, fp16::exp(a), e, 1.2 * LSB + 4e-5 * e); NEAR("cosh", x, fp16::cosh(a), std::cosh(v), 3 * LSB + 4e-5 * h); NEAR("sinh", x, fp16::sinh(a), std::sinh(v), 3 * LSB + 4e-5 * h); }
    NEAR("tanh", x, fp16::tanh(a), std::tanh(v), 5e-5); double av = std::fabs(v); NEAR("sin", x, fp16::sin(a), std::sin(v), 8.5e-3 + 5.2e-7 * av); NEAR("cos", x, fp16::cos(a), std::cos(v), 8.5e-3 + 5.2e-7 * av); if (av <= 1) NEAR("tan", x, fp16::tan(a), std::tan(v), 3e-4); NEAR("atan", x, fp16::atan(a), std::atan(v), .0108); if (av <= 1) { NEAR("asin", x, fp16::asin(a), std::asin(v), .0108); NEAR("acos", x, fp16::acos(a), std::acos(v), .0108); }
    fp16 w = fp16::wrapToPi(a), u = fp16::wrapTo180(a); double wv = fp16::toDouble(w), uv = fp16::toDouble(u); VH_CHECK(std::fabs(wv) <= PI + LSB && std::fabs(uv) <= 180, "wrapped %.9g to %.9g and %.9g", v, wv, uv); double k = std::round((v - wv) / (2 * PI)); VH_CHECK(std::fabs(v - wv - k * 2 * PI) <= LSB + 6e-7 * av, "wrapToPi(%.9g) is %.9g, not congruent", v, wv); VH_CHECK(std::fmod(v - uv, 360) == 0, "wrapTo180(%.9g) is %.9g, not congruent", v, uv); VH_CHECK((av > PI) || w == a, "wrapToPi changes %.9g", v); VH_CHECK(av > 180 || u == a, "wrapTo180 changes %.9g", v); if (av < 3.1415) NEAR("radToDeg", x, fp16::radToDeg(a), v * 180 / PI, 1e-4); if (av < 180) NEAR("degToRad", x, fp16::degToRad(a), v * PI / 180, 7e-4);
    seen((uint64_t)x); }
MONITOR(random, 120000, 4000000) { one(anyRaw(rng), rng); }
// consecutive raw values, exhaustively over windows; quick and thorough together sweep +-16 in thorough
MONITOR(sweep, 128, 512) { int64_t b = G().thorough ? (int64_t)idx * 4096 - 1048576 : rng.range(-720000, 720000), n = G().thorough ? 4096 : 600; for (int64_t x = b; x < b + n; ++x) one(x, rng); ev("windows"); }
MONITOR(atan2, 150000, 5000000) {
    int64_t y = anyRaw(rng), x = anyRaw(rng); if (rng.chance(.3)) { double t = rng.uni(-PI, PI), m = std::exp(rng.uni(std::log(3000.), std::log(2.1e9))); y = (int64_t)(m * std::sin(t)); x = (int64_t)(m * std::cos(t)); } if (!x && !y) return; note("atan2(%lld,%lld)", (long long)y, (long long)x); double e = std::atan2((double)y, (double)x), g = fp16::toDouble(fp16::atan2(R(y), R(x))), d = std::fabs(g - e); if (std::fabs(e) > 3.1) d = std::min(d, std::fabs(d - 2 * PI)); maxi("atan2 error", d); VH_CHECK(d <= .0108, "atan2(%.9g,%.9g) is %.9g, expected %.9g", val(y), val(x), g, e); ev(x < 0 ? "left_half_plane" : "right_half_plane"); seen(sig2((uint64_t)x, (uint64_t)y)); }
MONITOR(pow, 150000, 4000000) {
    if (rng.chance(.5)) { // integer exponent: repeated product
        int64_t x = rng.chance(.7) ? (int64_t)(rng.slogf_(.01, 60) * 65536) : anyRaw(rng); int n = 1 + (int)rng.below(rng.chance(.5) ? 4 : 16); if (rng.chance(.1)) { n = 20 + (int)rng.below(200); x = (int64_t)((1 + rng.uni(-6, 6) / n) * 65536); if (rng.chance(.3)) x = -x; ev("long_product"); } fp16 g = fp16::pow(R(x), fp16::from(n)); double v = val(x), e = 1, tol = 0; bool over = false; for (int k = 0; k < n; ++k) { tol = tol * std::fabs(v) + .5001 * LSB; e *= v; if (std::fabs(e) + tol > 32767.9) over = true; } note("pow(%lld,%d)", (long long)x, n); if (over) { if (std::fabs(std::pow(v, n)) > 32768 + 2 * tol) VH_CHECK(g.isOverflow(), "pow(%.9g,%d) is %.9g, not an overflow", v, n, fp16::toDouble(g)); ev("pow_overflow"); return; } NEAR("pow", x, g, e, tol); ev("integer_exponent"); seen(sig2((uint64_t)x, (uint64_t)n)); return; }
    int64_t x = (int64_t)(rng.logf_(.02, 200) * 65536), y = (int64_t)(rng.uni(-4, 4) * 65536); if (rng.chance(.3)) { y = -65536 * (int64_t)rng.below(4); if (rng.chance(.5)) x = -x; } if (y > 0 && !(y & 0xffff)) ++y; double v = std::fabs(val(x)), q = val(y), t = q * std::log(v); if (std::fabs(t) > 10) return; double e = std::exp(t); if (x < 0 && ((-y >> 16) & 1)) e = -e; note("pow(%lld,%lld)", (long long)x, (long long)y); double el = 8e-5 + (v < 1 ? .55 / (v * 65536 * 54.6) : 0); NEAR("pow", x, fp16::pow(R(x), R(y)), e, std::fabs(e) * (std::fabs(q) * el + 2 * LSB + 5e-5) + 2 * LSB); ev(x < 0 ? "negative_base" : "real_exponent"); seen(sig2((uint64_t)x, (uint64_t)y)); }
VH_MAIN
