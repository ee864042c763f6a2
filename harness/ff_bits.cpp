// X01: bit-level floating-point primitives agree with IEEE-754 / <cmath> for
// every bit pattern. Thorough enumerates all 2^32 patterns of every unary one.
#include "vh.hpp"
#include <include/ffmath.hpp>
using namespace vh;
namespace ff = qlibs::ffmath;
static float fromBits(uint32_t b) { float x; std::memcpy(&x, &b, 4); return x; }
static uint32_t bits(float x) { uint32_t b; std::memcpy(&b, &x, 4); return b; }
// identical value: same bits, or both NaN
static inline bool same(float a, float b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)); }
// identical value, sign of zero not claimed
static inline bool equal(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static int cls(float x) { switch (std::fpclassify(x)) { case FP_ZERO: return 0; case FP_SUBNORMAL: return 1; case FP_NORMAL: return 2; case FP_INFINITE: return 3; default: return 4; } }
#define SAME(fn, ref) do { float g_ = ff::fn(x), r_ = (ref); if (!same(g_, r_)) fail(#fn "(%.9g [%08x]) is %.9g, expected %.9g", x, b, g_, r_); } while (0)
static void unary(uint32_t b) {
    float x = fromBits(b); int c = cls(x);
    int k = (int)ff::classify(x);
    if (k != c) fail("classify(%.9g [%08x]) is %d, expected %d", x, b, k, c);
    if (ff::isNan(x) != std::isnan(x) || ff::isInf(x) != std::isinf(x) || ff::isFinite(x) != std::isfinite(x) || ff::isNormal(x) != std::isnormal(x)) fail("classification predicates are wrong for %.9g [%08x]", x, b);
    SAME(absf, std::fabs(x)); SAME(floor, std::floor(x)); SAME(ceil, std::ceil(x)); SAME(trunc, std::trunc(x)); SAME(rounding, std::round(x));
    float s = ff::sign(x), es = x > 0 ? 1.f : x < 0 ? -1.f : x == 0 ? 0.f : NAN; if (!equal(s, es)) fail("sign(%.9g) is %.9g", x, s);
    float fr = ff::frac(x), ef = x - std::trunc(x); if (!equal(fr, ef)) fail("frac(%.9g) is %.9g, expected %.9g", x, fr, ef);
    // mantissa/exponent split and its inverse
    if (c <= 2) { int32_t e = 12345; int re; float m = ff::rexp(x, &e), rm = std::frexp(x, &re); if (!same(m, rm) || e != re) fail("rexp(%.9g [%08x]) is %.9g*2^%d, expected %.9g*2^%d", x, b, m, (int)e, rm, re); float back = ff::ldexp(m, e); if (!same(back, x)) fail("ldexp(rexp(%.9g [%08x])) is %.9g", x, b, back); }
    evaln(12);
}
MONITOR(patterns, 2048, 65536) {
    uint64_t n = G().thorough ? 65536 : 32768, st = G().thorough ? 1 : 64, c[5] = {0};
    for (uint64_t k = 0; k < n; ++k) { uint32_t b = (uint32_t)((idx * n + k) * st + (st > 1 ? rng.u64() % st : 0)); unary(b); c[cls(fromBits(b))]++; }
    static const char *nm[5] = {"zero", "subnormal", "normal", "infinite", "nan"}; for (int i = 0; i < 5; ++i) if (c[i]) ev(nm[i], c[i]);
    seen(sig2(idx, G().thorough)); if (idx % 512 == 7) eg("bit patterns %08x.. (%llu values, stride %llu)", (unsigned)(idx * n * st), (unsigned long long)n, (unsigned long long)st);
}
static float anyBits(Rng &r) {
    switch (r.below(8)) {
        case 0: { static const uint32_t sp[] = {0, 1, 2, 0x007fffff, 0x00800000, 0x00800001, 0x3effffff, 0x3f000000, 0x3f000001, 0x3f7fffff, 0x3f800000, 0x3f800001, 0x4affffff, 0x4b000000, 0x4b7fffff, 0x4b800000, 0x7f7fffff, 0x7f7ffffe, 0x7f800000, 0x7f800001, 0x7fc00000, 0x7fffffff}; return fromBits(sp[r.below(sizeof sp / 4)] | (uint32_t)((r.u64() & 1) << 31)); }
        case 1: return (float)r.range(-20, 20) * .5f;
        case 2: return fromBits(bits((float)r.range(-9000000, 9000000) * .5f) + (uint32_t)r.range(-1, 1));
        case 3: return r.slogf_(1e-3, 1e3);
        default: return r.anyFloat(); }
}
MONITOR(boundaries, 400000, 8000000) { // halves, integers and their neighbours: where rounding decides
    float x = anyBits(rng); note("x=%08x", bits(x)); unary(bits(x)); seen(bits(x)); ev("boundary_values"); }
MONITOR(binary, 600000, 20000000) {
    float x = anyBits(rng), y = anyBits(rng); if (rng.chance(.2)) y = fromBits(bits(x) + (uint32_t)rng.range(-2, 2)); note("x=%08x y=%08x", bits(x), bits(y));
    float g = ff::copysign(x, y), e = std::copysign(x, y); VH_CHECK(bits(g) == bits(e) || std::isnan(x), "copysign(%.9g,%.9g) is %.9g", x, y, g); VH_CHECK(std::signbit(g) == std::signbit(y), "copysign(%08x,%08x) lost the sign", bits(x), bits(y));
    g = ff::nextAfter(x, y); e = std::nextafter(x, y); VH_CHECK(same(g, e), "nextAfter(%.9g,%.9g) is %.9g, expected %.9g", x, y, g, e);
    if (!std::isnan(x) && !std::isnan(y)) { float z = anyBits(rng), w = anyBits(rng); if (std::isnan(z)) z = 1; if (std::isnan(w)) w = -1;
        VH_CHECK(ff::Max(x, y) == std::max(x, y) && ff::Min(x, y) == std::min(x, y) && ff::Max(x) == x && ff::Min(x) == x, "Max/Min(%.9g,%.9g)", x, y);
        VH_CHECK(ff::Max(x, y, z, w) == std::max({x, y, z, w}) && ff::Min(x, y, z, w) == std::min({x, y, z, w}), "Max/Min(%.9g,%.9g,%.9g,%.9g) is %.9g/%.9g", x, y, z, w, ff::Max(x, y, z, w), ff::Min(x, y, z, w));
        int a = (int)rng.range(-9, 9), b = (int)rng.range(-9, 9), c = (int)rng.range(-9, 9); VH_CHECK(ff::Max(a, b, c) == std::max({a, b, c}) && ff::Min(a, b, c) == std::min({a, b, c}), "Max/Min(%d,%d,%d)", a, b, c); ev("extrema"); }
    if (std::isfinite(x) && std::isfinite(y)) { float t = rng.chance(.3) ? x - y : rng.slogf_(1e-12, 1e6); if (rng.chance(.3)) t = fromBits(bits(x - y) + (uint32_t)rng.range(-1, 1)); if (std::isfinite(t)) { float d = x - y; VH_CHECK(ff::isEqual(x, y, t) == (std::fabs(d) <= std::fabs(t)), "isEqual(%.9g,%.9g,tol %.9g) is wrong", x, y, t); ev("tolerance_tests"); }
        bool eq = ff::isEqual(x, y); VH_CHECK(eq == (std::fabs(x - y) <= 1.175494351e-38f), "isEqual(%.9g,%.9g) is %d", x, y, eq); }
    evaln(6); seen(sig2(bits(x), bits(y)));
}
MONITOR(scale, 300000, 8000000) { // multiplication by powers of two: exact, one rounding when the result is subnormal
    float x = anyBits(rng); int32_t p = rng.chance(.1) ? (int32_t)rng.u32() : (int32_t)rng.range(-320, 320); if (rng.chance(.2) && std::isfinite(x) && x != 0) p = -126 - std::ilogb(x) - (int)rng.below(26); note("x=%08x p=%d", bits(x), (int)p);
    float g = ff::ldexp(x, p), e = std::ldexp(x, std::max(-2000, std::min(2000, (int)p))); bool sub = std::fpclassify(e) == FP_SUBNORMAL || (e == 0 && x != 0);
    VH_CHECK(same(g, e), "ldexp(%.9g,%d) is %.9g, expected %.9g", x, (int)p, g, e); if (sub) ev("subnormal_results");
    if (std::isinf(e) && std::isfinite(x)) ev("overflowed"); seen(sig2(bits(x), (uint32_t)p)); }
MONITOR(special, 1, 1) { VH_CHECK(std::isnan(ff::getNan()) && std::isinf(ff::getInf()) && ff::getInf() > 0, "getNan/getInf");
    struct { float g; double e; const char *n; } c[] = {{ff::FFP_E, M_E, "e"}, {ff::FFP_LOG2E, M_LOG2E, "log2e"}, {ff::FFP_LOG10E, M_LOG10E, "log10e"}, {ff::FFP_LN2, M_LN2, "ln2"}, {ff::FFP_LN10, M_LN10, "ln10"}, {ff::FFP_PI, M_PI, "pi"}, {ff::FFP_2PI, 2 * M_PI, "2pi"}, {ff::FFP_PI_2, M_PI_2, "pi/2"}, {ff::FFP_PI_4, M_PI_4, "pi/4"}, {ff::FFP_1_PI, M_1_PI, "1/pi"}, {ff::FFP_2_PI, M_2_PI, "2/pi"}, {ff::FFP_1_SQRTPI, M_2_SQRTPI / 2, "1/sqrtpi"}, {ff::FFP_2_SQRTPI, M_2_SQRTPI, "2/sqrtpi"}, {ff::FFP_SQRT2, M_SQRT2, "sqrt2"}, {ff::FFP_SQRT3, std::sqrt(3.), "sqrt3"}, {ff::FFP_SQRT1_2, M_SQRT1_2, "sqrt1/2"}, {ff::FFP_SQRT1_3, std::sqrt(1. / 3), "sqrt1/3"}, {ff::FFP_LN_SQRT_2PI, std::log(std::sqrt(2 * M_PI)), "ln sqrt 2pi"}, {ff::FFP_GAMMA_E, 0.5772156649015329, "gamma"}, {ff::FFP_PHI, (1 + std::sqrt(5.)) / 2, "phi"}, {ff::FFP_RADIAN, 180 / M_PI, "radian"}, {ff::FFP_LOG10_2, std::log10(2.), "log10 2"}, {ff::FFP_LN_PI, std::log(M_PI), "ln pi"},
        {ff::numbers::e(), M_E, "e()"}, {ff::numbers::log2e(), M_LOG2E, "log2e()"}, {ff::numbers::log10e(), M_LOG10E, "log10e()"}, {ff::numbers::ln2(), M_LN2, "ln2()"}, {ff::numbers::ln10(), M_LN10, "ln10()"}, {ff::numbers::pi(), M_PI, "pi()"}, {ff::numbers::inv_pi(), M_1_PI, "inv_pi()"}, {ff::numbers::inv_sqrtpi(), M_2_SQRTPI / 2, "inv_sqrtpi()"}, {ff::numbers::sqrt2(), M_SQRT2, "sqrt2()"}, {ff::numbers::sqrt3(), std::sqrt(3.), "sqrt3()"}, {ff::numbers::inv_sqrt2(), M_SQRT1_2, "inv_sqrt2()"}, {ff::numbers::inv_sqrt3(), std::sqrt(1. / 3), "inv_sqrt3()"}, {ff::numbers::egamma(), 0.5772156649015329, "egamma()"}, {ff::numbers::phi(), (1 + std::sqrt(5.)) / 2, "phi()"}, {ff::numbers::twice_pi(), 2 * M_PI, "twice_pi()"}, {ff::numbers::half_pi(), M_PI_2, "half_pi()"}, {ff::numbers::quarter_pi(), M_PI_4, "quarter_pi()"}, {ff::numbers::radian(), 180 / M_PI, "radian()"}, {ff::numbers::lnpi(), std::log(M_PI), "lnpi()"}, {ff::numbers::ln_sqrt_2pi(), std::log(std::sqrt(2 * M_PI)), "ln_sqrt_2pi()"}};
    for (auto &k : c) { VH_CHECK(std::fabs(k.g - k.e) <= k.e * 1.2e-7, "constant %s is %.9g, expected %.9g", k.n, k.g, k.e); seen(hstr(k.n)); } }
VH_MAIN
