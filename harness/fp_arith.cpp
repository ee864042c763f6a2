// Q01: fixed-point arithmetic is exact integer arithmetic rounded to nearest, and every result that does not fit reads as overflow.
#include "fp_ref.hpp"
using namespace vh;
// got must be the nearest integer to num/den (den > 0), halves away from zero, or the overflow value when that does not fit
static void nearest(const char *op, int64_t x, int64_t y, fp16 got, i128 num, i128 den) {
    i128 fl = num / den; if (num % den != 0 && num < 0) --fl; i128 rem = num - fl * den; // 0 <= rem < den
    bool lo = 2 * rem < den || (2 * rem == den && num < 0), hi = !lo; // halves go away from zero
    auto fits = [](i128 v) { return v >= -(i128)FMAX && v <= (i128)FMAX; };
    int64_t g = got.raw(); bool ok = (lo && fits(fl) && g == (int64_t)fl) || (hi && fits(fl + 1) && g == (int64_t)(fl + 1)) || (((lo && !fits(fl)) || (hi && !fits(fl + 1))) && got.isOverflow() && g == -FMAX - 1);
    VH_CHECK(ok, "%lld %s %lld (raw) is %lld, expected %lld%s", (long long)x, op, (long long)y, (long long)g, (long long)(lo ? fl : fl + 1), fits(lo ? fl : fl + 1) ? "" : " which does not fit: overflow");
    ev(got.isOverflow() ? "overflow" : rem == 0 ? "exact" : 2 * rem == den ? "tie" : "rounded"); }
MONITOR(addsub, 200000, 8000000) {
    int64_t x = anyRaw(rng), y = anyRaw(rng); if (rng.chance(.2)) { y = (rng.chance(.5) ? FMAX : -FMAX) - x + rng.range(-2, 2); if (y > FMAX) y = FMAX; if (y < -FMAX) y = -FMAX; } note("%lld %lld", (long long)x, (long long)y);
    fp16 a = R(x), b = R(y); VH_CHECK(a.raw() == x && b.raw() == y, "raw %lld/%lld do not round trip", (long long)x, (long long)y);
    nearest("+", x, y, a + b, (i128)x + y, 1); nearest("-", x, y, a - b, (i128)x - y, 1); VH_CHECK((a + b).raw() == (b + a).raw(), "addition does not commute"); fp16 c = a; c += b; VH_CHECK(c == a + b, "+="); c = a; c -= b; VH_CHECK(c == a - b, "-=");
    fp16 i = a; fp16 p = i++; VH_CHECK(p == a, "postfix ++ value"); nearest("++", x, 0, i, (i128)x + 65536, 1); i = a; VH_CHECK((++i).raw() == i.raw() && &++i == &i, "prefix ++"); i = a; p = i--; VH_CHECK(p == a, "postfix -- value"); nearest("--", x, 0, i, (i128)x - 65536, 1); i = a; fp16 j = a; j--; VH_CHECK(--i == j, "prefix --");
    VH_CHECK((-a).raw() == -x && fp16::absolute(a).raw() == std::llabs(x), "negation or absolute value of %lld: %d %d", (long long)x, (-a).raw(), fp16::absolute(a).raw());
    VH_CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "comparison of %lld and %lld", (long long)x, (long long)y);
    VH_CHECK(!a.isOverflow() && !b.isOverflow(), "an ordinary number reads as overflow"); seen(sig2((uint64_t)x, (uint64_t)y)); }
MONITOR(mul, 400000, 20000000) {
    int64_t x = anyRaw(rng), y = anyRaw(rng); if (rng.chance(.25) && x) { double q = (double)(rng.chance(.5) ? FMAX : -FMAX) * 65536.0 / (double)x; if (std::fabs(q) <= (double)FMAX) { y = (int64_t)q + rng.range(-2, 2); if (y > FMAX) y = FMAX; if (y < -FMAX) y = -FMAX; ev("near_limit"); } } else if (rng.chance(.15)) { x |= 1; y = 32768 * rng.range(-200, 200); }
    note("%lld * %lld", (long long)x, (long long)y); fp16 a = R(x), b = R(y); nearest("*", x, y, a * b, (i128)x * y, 65536); VH_CHECK((a * b).raw() == (b * a).raw(), "product of %lld and %lld does not commute", (long long)x, (long long)y); fp16 c = a; c *= b; VH_CHECK(c == a * b, "*="); seen(sig2((uint64_t)x, (uint64_t)y)); if (idx < 400) eg("%lld * %lld = %d raw", (long long)x, (long long)y, (a * b).raw()); }
MONITOR(div, 400000, 20000000) {
    int64_t x = anyRaw(rng), y = anyRaw(rng); if (rng.chance(.25) && y) { i128 t = (i128)y * (int64_t)anyRaw(rng) / 65536 + rng.range(-2, 2); if (t <= FMAX && t >= -FMAX) x = (int64_t)t; } else if (rng.chance(.2)) y = rng.range(-70000, 70000); if (rng.chance(.15)) { y = (int64_t)std::ldexp(1, (int)rng.below(17)); x = FMAX / 65536 * y + rng.range(-3, 3); if (rng.chance(.5)) x = -x; if (x > FMAX) x = FMAX; if (x < -FMAX) x = -FMAX; ev("near_limit"); }
    note("%lld / %lld", (long long)x, (long long)y); fp16 a = R(x), b = R(y), q = a / b, c = a; c /= b; VH_CHECK(c == q, "/="); if (y == 0) { VH_CHECK(q.raw() == -FMAX, "%lld / 0 is %d, not the smallest number", (long long)x, q.raw()); ev("div_by_zero"); return; } i128 n = (i128)x * 65536, d = y; if (d < 0) { n = -n; d = -d; } nearest("/", x, y, q, n, d); seen(sig2((uint64_t)x, (uint64_t)y)); }
// every 16-bit by 16-bit slice around a random base, exhaustively in one operand
MONITOR(slice, 64, 3000) {
    int64_t x = anyRaw(rng), b = anyRaw(rng); for (int k = -4000; k <= 4000; ++k) { int64_t y = b + k; if (y > FMAX || y < -FMAX) continue; nearest("*", x, y, R(x) * R(y), (i128)x * y, 65536); if (y) { i128 n = (i128)x * 65536, d = y; if (d < 0) n = -n, d = -d; nearest("/", x, y, R(x) / R(y), n, d); } evaln(2); } seen(sig2((uint64_t)x, (uint64_t)b)); }
// a value that already overflowed can go through any operation without undefined behaviour
MONITOR(poison, 60000, 1500000) {
    fp16 o = R(-FMAX - 1), a = R(rng.chance(.1) ? -FMAX - 1 : anyRaw(rng)); VH_CHECK(o.isOverflow(), "raw INT32_MIN is not the overflow value"); VH_CHECK((-o).isOverflow() && fp16::absolute(o).isOverflow(), "negation hides an overflow"); note("a=%d", a.raw()); char b[16]; int64_t s = 0; for (int k = 0; k < 2; ++k) { fp16 x = k ? a : o, y = k ? o : a; s += (x + y).raw(); s += (x - y).raw(); s += (x * y).raw(); s += (x / y).raw(); s += fp16::atan2(x, y).raw(); if (y.raw() < 40 * 65536) s += fp16::pow(x, y).raw(); s += fp16::sqrt(x).raw() + (int64_t)fp16::exp(x).raw() + fp16::log(x).raw() + fp16::log2(x).raw() + fp16::sin(x).raw() + fp16::cos(x).raw() + fp16::tan(x).raw(); s += fp16::atan(x).raw() + (int64_t)fp16::asin(x).raw() + fp16::acos(x).raw() + fp16::sinh(x).raw() + fp16::cosh(x).raw() + fp16::tanh(x).raw(); s += fp16::floor(x).raw() + (int64_t)fp16::ceil(x).raw() + fp16::rounding(x).raw() + fp16::toInt(x) + fp16::radToDeg(x).raw() + fp16::degToRad(x).raw(); s += std::strlen(fp16::toASCII(x, b, 5)); ++x; --y; s += x.raw(); } ev("poisoned_ops", 40); seen(sig2((uint64_t)a.raw(), (uint64_t)s)); }
VH_MAIN
