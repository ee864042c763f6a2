// X03: remainders, angle wrapping, interpolation, range and geometry helpers.
#include "vh.hpp"
#include <include/ffmath.hpp>
using namespace vh;
namespace ff = qlibs::ffmath;
static const double EPS = 1.1920929e-7;
// distance of d to the nearest multiple of y
static double off(double d, double y) { return std::fabs(std::remainder(d, y)); }
MONITOR(division, 600000, 15000000) {
    float y = rng.slogf_(1e-3, 1e4), x = rng.chance(.5) ? (float)(y * rng.uni(-50, 50)) : rng.slogf_(1e-6, 1e6); if (rng.chance(.2)) x = (float)rng.range(-40, 40) * (y = (float)rng.range(1, 30) * (rng.chance(.5) ? .25f : -.5f)); if (rng.chance(.1)) x = std::nextafter(x, rng.chance(.5) ? 1e9f : -1e9f);
    if (rng.chance(.1)) { float U = rng.logf_(1e-25, 1e25); x *= U; y *= U; ev("other_units"); }
    if (std::fabs((double)x / y) > 1e5) return; note("x=%.9g y=%.9g", x, y); double err = 1.01 * EPS * std::fabs((double)x) + 1e-44;
    float m = ff::mod(x, y), r = ff::rem(x, y);
    VH_CHECK(y > 0 ? (m >= 0 && m < y) : (m <= 0 && m > y), "mod(%.9g,%.9g) is %.9g, outside [0,y)", x, y, m);
    VH_CHECK(off((double)x - m, y) <= err + .6 * EPS * std::fabs((double)y), "mod(%.9g,%.9g) is %.9g, not congruent", x, y, m);
    VH_CHECK(off((double)x - r, y) <= err && std::fabs(r) <= std::fabs(y) + err, "rem(%.9g,%.9g) is %.9g, not a remainder", x, y, r);
    VH_CHECK(x >= 0 ? r >= -err : r <= err, "rem(%.9g,%.9g) is %.9g, sign differs from the dividend", x, y, r);
    if (std::fabs(x) < std::fabs(y)) VH_CHECK(r == x, "rem(%.9g,%.9g) is %.9g", x, y, r);
    VH_CHECK(std::isnan(ff::rem(x, 0)) && std::isnan(ff::rem(x, -0.f)) && ff::mod(x, 0) == x && ff::mod(x, -0.f) == x, "division of %.9g by zero", x);
    ev(x < 0 ? "negative_dividend" : "positive_dividend"); ev(y < 0 ? "negative_divisor" : "positive_divisor"); if (off(x, y) <= err) ev("multiple"); evaln(6); seen(sig2(fb(x), fb(y))); }
MONITOR(wrap, 600000, 15000000) {
    float x = rng.chance(.5) ? (float)rng.uni(-30, 30) : rng.slogf_(1e-6, 1e5); if (rng.chance(.2)) x = (float)(rng.range(-20, 20) * M_PI / 2); if (rng.chance(.2)) x = (float)rng.range(-2000, 2000) * 45.f; if (rng.chance(.2)) x = std::nextafter(x, rng.chance(.5) ? 1e9f : -1e9f); note("x=%.9g", x);
    struct { const char *n; float g; double lo, hi, T; } w[] = {{"wrapToPi", ff::wrapToPi(x), -ff::FFP_PI, ff::FFP_PI, 2 * M_PI}, {"wrapTo2Pi", ff::wrapTo2Pi(x), 0, ff::FFP_2PI, 2 * M_PI}, {"wrapTo180", ff::wrapTo180(x), -180, 180, 360}, {"wrapTo360", ff::wrapTo360(x), 0, 360, 360}};
    for (auto &k : w) { double err = 2.5 * EPS * (std::fabs((double)x) + k.T); VH_CHECK(k.g >= k.lo && k.g <= k.hi, "%s(%.9g) is %.9g, outside its interval", k.n, x, k.g); VH_CHECK(off((double)x - k.g, k.T) <= err, "%s(%.9g) is %.9g, not the same angle", k.n, x, k.g); evaln();
        if (x > k.lo * .999 && x < k.hi * .999 && (k.lo < 0 || x > 0)) { VH_CHECK(std::fabs((double)k.g - x) <= err, "%s changes %.9g to %.9g", k.n, x, k.g); ev("already_inside"); } else ev("wrapped"); }
    seen(fb(x)); }
MONITOR(midpoint, 400000, 8000000) {
    float a = rng.slogf_(1e-44, 3.4e38), b = rng.chance(.3) ? a * (float)rng.uni(-2, 2) : rng.slogf_(1e-44, 3.4e38); if (rng.chance(.2)) { a = FLT_MAX * (float)rng.uni(.4, 1); b = FLT_MAX * (float)rng.uni(-1, 1); } if (!std::isfinite(b)) b = FLT_MAX; if (rng.chance(.1)) b = a; note("a=%.9g b=%.9g", a, b);
    double e = ((double)a + b) / 2; float g = ff::midpoint(a, b), h = ff::midpoint(b, a); double tol = .51 * EPS * std::fabs(e) + 1.5e-45; VH_CHECK(std::fabs(g - e) <= tol && g == h, "midpoint(%.9g,%.9g) is %.9g, expected %.9g", a, b, g, e); if (a == b) VH_CHECK(g == a || std::fabs(a) < 2e-38, "midpoint(a,a) is %.9g", g); VH_CHECK(g >= std::min(a, b) && g <= std::max(a, b), "midpoint(%.9g,%.9g) is %.9g, outside", a, b, g);
    if (std::fabs(a) > 1.7e38f && std::fabs(b) > 1.7e38f) ev("sum_would_overflow"); evaln(2); seen(sig2(fb(a), fb(b))); }
MONITOR(lerp, 400000, 8000000) {
    float a = rng.slogf_(1e-6, 1e6), b = rng.chance(.3) ? a * (1 + (float)rng.uni(-1e-5, 1e-5)) : rng.slogf_(1e-6, 1e6); if (rng.chance(.1)) a = 0; if (rng.chance(.1)) b = 0; if (rng.chance(.1)) b = a; bool big = rng.chance(.1); if (big) { a = FLT_MAX * (float)rng.uni(-1, 1); b = FLT_MAX * (float)rng.uni(-1, 1); }
    float t1 = (float)(rng.chance(.6) || big ? rng.unit() : rng.uni(-5, 5)), t2 = rng.chance(.4) ? std::nextafter(t1, 2.f) : (float)(big ? rng.unit() : rng.uni(-5, 5)); if (rng.chance(.2)) t1 = std::nextafter(1.f, rng.chance(.5) ? 0.f : 2.f); if (t2 < t1) std::swap(t1, t2); if (big && t2 > 1) return; note("a=%.9g b=%.9g t=%.9g,%.9g", a, b, t1, t2);
    VH_CHECK(ff::lerp(a, b, 0) == a && ff::lerp(a, b, 1) == b, "lerp(%.9g,%.9g) at 0 and 1 is %.9g and %.9g", a, b, ff::lerp(a, b, 0), ff::lerp(a, b, 1)); VH_CHECK(ff::lerp(a, a, t1) == a, "lerp(a,a,%.9g) is %.9g, a=%.9g", t1, ff::lerp(a, a, t1), a);
    float g = ff::lerp(a, b, t1), h = ff::lerp(a, b, t2); double e = (double)a + (double)t1 * ((double)b - a), tol = 3 * EPS * (std::fabs((double)a) * (1 + std::fabs(t1)) + std::fabs((double)b * t1) + std::fabs((double)b)); VH_CHECK(std::fabs(g - e) <= tol, "lerp(%.9g,%.9g,%.9g) is %.9g, expected %.9g", a, b, t1, g, e); VH_CHECK(std::isfinite(g), "lerp is not finite");
    VH_CHECK(b >= a ? h >= g : h <= g, "lerp(%.9g,%.9g) is not monotonic: %.9g at %.9g, %.9g at %.9g", a, b, g, t1, h, t2); if (t1 >= 0 && t2 <= 1) { VH_CHECK(g >= std::min(a, b) && g <= std::max(a, b), "lerp(%.9g,%.9g,%.9g) is %.9g, outside", a, b, t1, g); ev("interpolated"); } else ev("extrapolated"); if (big) ev("near_overflow"); evaln(5); seen(sig3(fb(a), fb(b), fb(t1))); }
MONITOR(ranges, 500000, 10000000) {
    float lo = rng.slogf_(1e-3, 1e4), hi = rng.chance(.5) ? rng.slogf_(1e-3, 1e4) : lo + rng.logf_(1e-3, 1e3); if (rng.chance(.2)) { float U = rng.logf_(1e-6, 1e6); lo *= U; hi *= U; } if (hi < lo) std::swap(lo, hi); float x = (float)(lo + ((double)hi - lo) * rng.uni(-1, 2)); if (rng.chance(.1)) x = rng.chance(.5) ? lo : hi; if (rng.chance(.1)) x = std::nextafter(rng.chance(.5) ? lo : hi, rng.chance(.5) ? 1e15f : -1e15f); float x0 = x; note("x=%.9g [%.9g,%.9g]", x, lo, hi);
    bool in = ff::inRangeCoerce(x, lo, hi); float e = x0 < lo ? lo : x0 > hi ? hi : x0; VH_CHECK(in == (x0 >= lo && x0 <= hi) && x == e, "inRangeCoerce(%.9g,[%.9g,%.9g]) gives %d, %.9g", x0, lo, hi, in, x); ev(in ? "inside" : "coerced");
    for (float s : {INFINITY, -INFINITY, NAN}) { float v = s; bool r = ff::inRangeCoerce(v, lo, hi); VH_CHECK(!r && v == (s > 0 ? hi : lo), "inRangeCoerce(%g) gives %d, %.9g", s, r, v); }
    if ((double)hi - lo > 1e-2 * (std::fabs(lo) + std::fabs(hi))) { float y0 = rng.slogf_(1e-2, 1e3), y1 = rng.slogf_(1e-2, 1e3); double n = ((double)x0 - lo) / ((double)hi - lo), ne = 1e-6 * (std::fabs((double)x0) + std::fabs(lo) + std::fabs(hi)) / ((double)hi - lo); float g = ff::normalize(x0, lo, hi), m = ff::map(x0, lo, hi, y0, y1); VH_CHECK(std::fabs(g - n) <= ne + EPS * std::fabs(n), "normalize(%.9g,%.9g,%.9g) is %.9g, expected %.9g", x0, lo, hi, g, n); double me = y0 + n * ((double)y1 - y0), mt = (ne + 3 * EPS * std::fabs(n)) * (std::fabs(y0) + std::fabs(y1)) + 3 * EPS * std::fabs(y0); VH_CHECK(std::fabs(m - me) <= mt, "map(%.9g,%.9g..%.9g -> %.9g..%.9g) is %.9g, expected %.9g", x0, lo, hi, y0, y1, m, me); VH_CHECK(ff::normalize(lo, lo, hi) == 0 && ff::normalize(hi, lo, hi) == 1 && ff::map(lo, lo, hi, y0, y1) == y0, "ends of normalize or map"); ev("mapped"); evaln(3); }
    evaln(4); seen(sig3(fb(x0), fb(lo), fb(hi))); }
static double segDist(double x, double y, double ax, double ay, double bx, double by) { double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l > 0 ? ((x - ax) * dx + (y - ay) * dy) / l : 0; t = std::max(0., std::min(1., t)); return std::hypot(x - ax - t * dx, y - ay - t * dy); }
MONITOR(polygon, 60000, 2000000) {
    size_t n = rng.chance(.02) ? 1 + rng.below(2) : 3 + rng.below(rng.chance(.5) ? 4 : 20); Buf<float> px(n), py(n); int kind = (int)rng.below(5); double S = std::exp(rng.uni(-5, 8)), ox = rng.chance(.5) ? 0 : rng.uni(-3, 3) * S, oy = rng.chance(.5) ? 0 : rng.uni(-3, 3) * S;
    std::vector<double> an(n); for (auto &a : an) a = rng.uni(0, 2 * M_PI); std::sort(an.begin(), an.end());
    for (size_t i = 0; i < n; ++i) { double X, Y; if (kind == 0) { X = rng.uni(-1, 1); Y = rng.uni(-1, 1); } else if (kind == 1) { X = std::cos(an[i]); Y = std::sin(an[i]); } else if (kind == 2) { double r = rng.uni(.2, 1); X = r * std::cos(an[i]); Y = r * std::sin(an[i]); } else if (kind == 3) { X = rng.range(-3, 3) / 3.; Y = rng.range(-3, 3) / 3.; } else { static const double qx[] = {-1, 1, 1, -1}, qy[] = {-1, -1, 1, 1}; X = qx[i % 4] * (1 - (double)(i / 4) / (n)); Y = qy[i % 4] * (1 - (double)(i / 4) / (n)); } px[i] = (float)(ox + S * X); py[i] = (float)(oy + S * Y); }
    if (rng.chance(.5)) { std::reverse(px.p, px.p + n); std::reverse(py.p, py.p + n); }
    static const char *kn[] = {"random_polygons", "convex_polygons", "star_polygons", "grid_polygons", "rectangle_spirals"}; ev(kn[kind]);
    for (int k = 0; k < 24; ++k) { float x = (float)(ox + S * rng.uni(-1.3, 1.3)), y = (float)(oy + S * rng.uni(-1.3, 1.3)); if (k % 4 == 0) x = px[rng.below(n)]; if (k % 6 == 0) y = py[rng.below(n)];
        bool in = false; double dist = 1e300; for (size_t i = 0, j = n - 1; i < n; j = i++) { dist = std::min(dist, segDist(x, y, px[i], py[i], px[j], py[j])); if ((py[i] > y) != (py[j] > y)) { double xi = ((double)px[j] - px[i]) * ((double)y - py[i]) / ((double)py[j] - py[i]) + px[i]; if (x < xi) in = !in; } }
        note("point (%.9g,%.9g) n=%zu", x, y, n); bool g = ff::inPolygon(x, y, px.p, py.p, n); if (dist < 2e-6 * (S + std::fabs(ox) + std::fabs(oy))) { ev("on_edge_skipped"); continue; }
        VH_CHECK(g == in, "inPolygon(%.9g,%.9g) is %d, expected %d, %zu vertices, first (%.9g,%.9g), kind %d", x, y, g, in, n, px[0], py[0], kind); ev(in ? "point_inside" : "point_outside"); seen(sig3(fb(x), fb(y), fb(px[0]))); }
    px.check("polygon abscissae"); py.check("polygon ordinates"); }
MONITOR(circle, 400000, 8000000) {
    float r = rng.logf_(1e-3, 1e4), cx = rng.slogf_(1e-3, 1e4), cy = rng.slogf_(1e-3, 1e4); double q = r * (rng.chance(.5) ? rng.uni(.99, 1.01) : rng.uni(0, 2)), t = rng.uni(0, 2 * M_PI); float x = (float)(cx + q * std::cos(t)), y = (float)(cy + q * std::sin(t)); if (rng.chance(.2)) { int k = (int)rng.range(1, 40); r = 5.f * k; cx = (float)rng.range(-50, 50); cy = (float)rng.range(-50, 50); static const int dx[] = {3, -4, 5, 0, -3, 4}, dy[] = {4, 3, 0, -5, -4, -3}; int z = (int)rng.below(6); x = cx + dx[z] * k; y = cy + dy[z] * k; VH_CHECK(ff::inCircle(x, y, cx, cy, r), "point (%.9g,%.9g) on the circle of centre (%.9g,%.9g) and radius %.9g is not in it", x, y, cx, cy, r); VH_CHECK(!ff::inCircle(x, y, cx, cy, r * .999f), "circle too large"); ev("on_circle"); evaln(2); return; }
    note("(%.9g,%.9g) c=(%.9g,%.9g) r=%.9g", x, y, cx, cy, r); double d = std::hypot((double)x - cx, (double)y - cy), sl = 1e-6 * (r + std::fabs(cx) + std::fabs(cy)); bool g = ff::inCircle(x, y, cx, cy, r); if (std::fabs(d - r) > sl) { VH_CHECK(g == (d <= r), "inCircle(%.9g,%.9g) is %d, distance %.9g, radius %.9g", x, y, g, d, r); ev(g ? "in_circle" : "out_of_circle"); seen(sig3(fb(x), fb(y), fb(r))); } }
// any bit pattern: no undefined behaviour; a coerced value is always inside its range
MONITOR(hostile, 200000, 5000000) { float a = rng.anyFloat(), b = rng.anyFloat(), c = rng.anyFloat(), d = rng.anyFloat(), e = rng.anyFloat(); note("%08llx %08llx %08llx", (unsigned long long)fb(a), (unsigned long long)fb(b), (unsigned long long)fb(c)); volatile float s = ff::mod(a, b) + ff::rem(a, b) + ff::wrapToPi(a) + ff::wrapTo2Pi(a) + ff::wrapTo180(a) + ff::wrapTo360(a) + ff::midpoint(a, b) + ff::lerp(a, b, c) + ff::map(a, b, c, d, e) + ff::normalize(a, b, c); (void)s; float px[3] = {a, b, c}, py[3] = {c, d, e}; ff::inPolygon(d, b, px, py, 3); ff::inCircle(a, b, c, d, e); if (b <= c) { float x = a; ff::inRangeCoerce(x, b, c); VH_CHECK(x >= b && x <= c, "inRangeCoerce(%.9g,[%.9g,%.9g]) leaves %.9g", a, b, c, x); ev("hostile_ranges"); } seen(sig3(fb(a), fb(b), fb(c))); }
VH_MAIN
