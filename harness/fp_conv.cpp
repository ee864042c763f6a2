// Q02: conversions to and from fixed point, integer rounding and the printed form.
#include "fp_ref.hpp"
#include <sstream>
using namespace vh; using namespace qlibs;
MONITOR(ints, 4, 64) { for (int k = -32768 + (int)(idx % 4); k <= 32767; k += 4) { fp16 a = fp16::from(k), b; b = k; VH_CHECK(a.raw() == k * 65536 && b == a, "from(%d) is raw %d", k, a.raw()); if (k > -32768) VH_CHECK(fp16::toInt(a) == k && fp16::toDouble(a) == k && fp16::toFloat(a) == k && fp16::floor(a) == a && fp16::ceil(a) == a && fp16::rounding(a) == a, "%d does not convert back", k); evaln(); } seen(idx); }
MONITOR(reals, 300000, 12000000) {
    int64_t x = anyRaw(rng); fp16 a = R(x); note("%lld", (long long)x); VH_CHECK(a.raw() == x, "raw %lld does not round trip through double", (long long)x); VH_CHECK(fp16::toDouble(a) == val(x), "toDouble(%lld) is %.17g", (long long)x, fp16::toDouble(a)); VH_CHECK(std::fabs(fp16::toFloat(a) - val(x)) <= std::fabs(val(x)) * 6e-8, "toFloat(%lld) is %.9g", (long long)x, fp16::toFloat(a)); if (std::llabs(x) < (1 << 23)) VH_CHECK(fp16::from(fp16::toFloat(a)) == a, "raw %lld does not round trip through float", (long long)x);
    double d = rng.chance(.5) ? rng.uni(-32767.9, 32767.9) : (rng.chance(.5) ? 1 : -1) * std::ldexp(rng.unit(), (int)rng.range(-20, 14)); if (rng.chance(.2)) d = val(anyRaw(rng)) + rng.uni(-.5, .5) / 65536; if (rng.chance(.1)) { d = val(anyRaw(rng)) / 2; ev("half_raw"); } if (std::fabs(d) >= 32767.99998) d = 0; fp16 b = fp16::from(d), c; c = d; VH_CHECK(b == c && (std::fabs((double)b.raw() - d * 65536) <= .5 + 1e-6) && (std::fabs(std::fabs(d * 65536 - std::trunc(d * 65536)) - .5) > 0 || b.raw() == std::llround(d * 65536)), "from(%.17g) is raw %d", d, b.raw()); float f = (float)d; if (std::fabs(f) < 32767.9f) { fp16 e = fp16::from(f), g; g = f; double er = std::fabs((double)e.raw() - (double)f * 65536); VH_CHECK(e == g && er <= (std::fabs(f) < 128 ? .5 + 1e-3 : 1), "from(%.9gf) is raw %d", f, e.raw()); }
    // integer rounding
    int64_t fl = x >> 16, n = fl * 65536; int ti = fp16::toInt(a); VH_CHECK(ti == (int)std::lround(val(x)), "toInt(%lld/65536) is %d", (long long)x, ti); VH_CHECK(fp16::floor(a).raw() == n, "floor(%lld) is %d", (long long)x, fp16::floor(a).raw()); int64_t ce = (x & 0xffff) ? n + 65536 : n; fp16 cc = fp16::ceil(a); VH_CHECK(ce > FMAX ? cc.isOverflow() : cc.raw() == ce, "ceil(%lld) is %d", (long long)x, cc.raw()); fp16 ro = fp16::rounding(a); if (x + 32768 > FMAX) VH_CHECK(ro.isOverflow(), "rounding(%lld) is %d", (long long)x, ro.raw()); else VH_CHECK((ro.raw() & 0xffff) == 0 && std::llabs((int64_t)ro.raw() - x) <= 32768, "rounding(%lld) is %d", (long long)x, ro.raw()); ev((x & 0xffff) == 32768 ? "half" : "rounded"); seen(sig2((uint64_t)x, fb((float)d))); }
MONITOR(ascii, 200000, 6000000) {
    int64_t x = anyRaw(rng); if (rng.chance(.3)) { int k = 1; for (int q = (int)rng.below(6); q; --q) k *= 10; x = (int64_t)(rng.range(0, 32767)) * 65536 + (int64_t)(((double)rng.below((size_t)k) + .5) / k * 65536) + rng.range(-1, 1); if (x > FMAX) x = FMAX; if (rng.chance(.5)) x = -x; } if (rng.chance(.1)) x = (int64_t)rng.range(1, 32767) * 65536 - rng.range(1, 4); fp16 a = R(x); int dec = (int)rng.range(-2, 8), ed = dec < 0 ? 0 : dec > 5 ? 5 : dec; Buf<char> b(13, 0x7e); note("%lld decimals %d", (long long)x, dec); char *r = fp16::toASCII(a, b.p, dec); VH_CHECK(r == b.p, "toASCII does not return its buffer"); b.check("a 13 character buffer"); size_t len = strnlen(b.p, 13); VH_CHECK(len > 0 && len < 13, "unterminated text for %lld", (long long)x);
    const char *p = b.p; if (*p == '-') { VH_CHECK(x < 0, "sign of %lld: %s", (long long)x, b.p); ++p; } else VH_CHECK(x >= 0, "sign of %lld: %s", (long long)x, b.p); const char *q = p; while (*q >= '0' && *q <= '9') ++q; VH_CHECK(q > p && (q - p == 1 || *p != '0'), "integer digits of %lld: %s", (long long)x, b.p); if (ed) { VH_CHECK(*q == '.' && strlen(q + 1) == (size_t)ed && strspn(q + 1, "0123456789") == (size_t)ed, "%lld with %d decimals prints as %s", (long long)x, dec, b.p); } else VH_CHECK(*q == 0, "%lld with %d decimals prints as %s", (long long)x, dec, b.p);
    double v = strtod(b.p, nullptr); VH_CHECK(std::fabs(v - val(x)) <= .5 * std::pow(10., -ed) + 1e-10, "%.9f prints as %s with %d decimals", val(x), b.p, dec); if (ed == 5 && v < 32767.99999 && v > -32767.99999) { VH_CHECK(fp16::from(v) == a, "%s does not read back as raw %lld", b.p, (long long)x); ev("read_back"); } if (ed == 0) ev("integers"); if (rng.chance(.05)) { std::ostringstream os; os.precision(ed); os << a; VH_CHECK(os.str() == b.p, "operator<< prints %s, toASCII %s", os.str().c_str(), b.p); ev("stream"); } seen(sig2((uint64_t)x, (uint64_t)ed)); if (idx < 100) eg("raw %lld, %d decimals: %s", (long long)x, dec, b.p); }
MONITOR(literals, 1, 1) {
    struct { fp16 v; double e; } t[] = { { FP_E, M_E }, { FP_LOG2E, M_LOG2E }, { FP_LOG10E, M_LOG10E }, { FP_LN2, M_LN2 }, { FP_LN10, M_LN10 }, { FP_PI, M_PI }, { FP_PI_2, M_PI_2 }, { FP_PI_4, M_PI_4 }, { FP_1_PI, M_1_PI }, { FP_2_PI, M_2_PI }, { FP_2_SQRTPI, M_2_SQRTPI }, { FP_SQRT2, M_SQRT2 }, { FP_SQRT1_2, M_SQRT1_2 }, { 0_fp, 0 }, { 1_fp, 1 }, { 12345_fp, 12345 }, { 32767_fp, 32767 }, { 0.25_fp, .25 }, { 3.3_fp, 3.3 }, { 1234.56789_fp, 1234.56789 }, { 32767.999_fp, 32767.999 }, { 0.00001_fp, .00001 } }; for (auto &q : t) { VH_CHECK(std::fabs(q.v.raw() - q.e * 65536) <= .5, "constant %g is raw %d", q.e, q.v.raw()); seen(sig2((uint64_t)q.v.raw(), 1)); } fp16 z; VH_CHECK(z.raw() == 0, "default value"); char b[13]; VH_CHECK(!strcmp(fp16::toASCII(R(-FMAX - 1), b, 3), "overflow"), "overflow prints as %s", b); ev("constants"); }
VH_MAIN
