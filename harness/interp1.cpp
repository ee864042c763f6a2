// I01: one-dimensional interpolation.
#include "vh.hpp"
#include <include/interp1.hpp>
using namespace vh; using namespace qlibs;
static const char *const MN[] = { "next", "previous", "nearest", "linear", "sine", "cubic", "hermite", "spline", "constrained spline" };
// reference in type F: evaluated in double (the value) and in float (to see how much single precision loses)
template <class F> struct Ref {
    std::vector<F> x, y; size_t n; 
    size_t seg(F v) const { size_t i = 0; while (i + 2 < n && v >= x[i + 1]) ++i; return i; }
    F d1(size_t i) const { if (i == 0) return (F)1.5 * (y[1] - y[0]) / (x[1] - x[0]) - (F).5 * d1(1); if (i == n - 1) return (F)1.5 * (y[i] - y[i - 1]) / (x[i] - x[i - 1]) - (F).5 * d1(i - 1); F a = (y[i + 1] - y[i]) / (x[i + 1] - x[i]), b = (y[i] - y[i - 1]) / (x[i] - x[i - 1]); if (a * b <= 0) return 0; return 2 / (1 / a + 1 / b); }
    F hermite3(F t, F h, F a, F b, F m0, F m1) const { F t2 = t * t, t3 = t2 * t; return (2 * t3 - 3 * t2 + 1) * a + (t3 - 2 * t2 + t) * h * m0 + (3 * t2 - 2 * t3) * b + (t3 - t2) * h * m1; }
    F lin(size_t i, F v) const { return y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * (v - x[i]); }
    F eval(int m, F v) const {
        size_t i = seg(v), L = n - 1; bool lo = v < x[0], hi = v > x[L]; F h = x[i + 1] - x[i], t = (v - x[i]) / h;
        switch (m) {
            case INTERP1_LINEAR: return lin(i, v);
            case INTERP1_SINE: return y[i] + ((F).5 - (F).5 * std::cos((F)M_PI * t)) * (y[i + 1] - y[i]);
            case INTERP1_CUBIC: if (lo) return hermite3(t, h, y[0], y[1], y[0] - y[1], y[1] - y[0]); if (hi) { F u = (v - x[L]) / h; return hermite3(u, h, y[L], y[L - 1], y[L - 1] - y[L - 2], y[L] - y[L - 1]); } if (i && v == x[i]) { --i; h = x[i + 1] - x[i]; t = 1; } return hermite3(t, h, y[i], y[i + 1], i ? y[i] - y[i - 1] : y[1] - y[0], y[i + 1] - y[i]);
            case INTERP1_HERMITE: { if (lo || hi) return lin(i, v); F s = 0; for (size_t a = 0; a < n; ++a) { F q = y[a]; for (size_t b = 0; b < n; ++b) if (a != b) q *= (v - x[b]) / (x[a] - x[b]); s += q; } return s; }
            case INTERP1_SPLINE: { auto sl = [&](size_t a, size_t b) { return (y[b] - y[a]) / (x[b] - x[a]); }; F m0 = i == 0 ? sl(0, 1) : sl(i - 1, i + 1), m1 = i == L - 1 ? sl(L - 1, L) : sl(i, i + 2); return hermite3(t, h, y[i], y[i + 1], m0, m1); }
            default: { F a = d1(i), b = d1(i + 1); return hermite3(t, h, y[i], y[i + 1], a, b); } } }
    // magnitude of what the constrained spline cancels when it is evaluated from monomial coefficients
    F csMag() const { F r = 0, ym = 0, xm = 0; for (F q : x) xm = std::max(xm, std::fabs(q)); for (F q : y) ym = std::max(ym, std::fabs(q)); for (size_t i = 0; i + 1 < n; ++i) { F h = x[i + 1] - x[i], d = std::fabs(y[i + 1] - y[i]) * 6, k = xm / h; r = std::max(r, d * (1 + k) * (1 + k) * (1 + k)); } return r + ym; } };
struct Table { std::vector<float> x, y; };
static Table anyTable(Rng &r, size_t n) { Table t; double h = r.chance(.05) ? r.logf_(1e-8, 1e9) : r.chance(.2) ? r.logf_(1e-4, 1e4) : r.pick(std::vector<double>{ .25, 1, 4 }), ys = r.chance(.15) ? r.logf_(1e-3, 1e5) : 1, x = r.uni(-3, 1) * h * (double)n / 2; bool reg = r.chance(.3); int yk = (int)r.below(4); double y = r.uni(-5, 5); for (size_t i = 0; i < n; ++i) { t.x.push_back((float)x); t.y.push_back((float)(ys * y)); x += reg ? h : h * r.uni(.3, 2); switch (yk) { case 0: y = r.uni(-10, 10); break; case 1: y += r.uni(0, 3); break; case 2: y -= r.chance(.4) ? 0 : r.uni(0, 3); break; default: if (r.chance(.5)) y = r.range(-2, 2); } } return t; }
MONITOR(methods, 30000, 1000000) {
    size_t n = rng.chance(.3) ? 4 : rng.chance(.01) ? 20 + rng.below(300) : 2 + rng.below(12); Table T = anyTable(rng, n); Buf<float> bx(n), by(n); bx.set(T.x); by.set(T.y); interp1 q(bx.p, by.p, n); Ref<double> D; Ref<float> S; D.n = S.n = n; for (float v : T.x) D.x.push_back(v), S.x.push_back(v); for (float v : T.y) D.y.push_back(v), S.y.push_back(v); double span = T.x[n - 1] - T.x[0], ym = 0; for (float v : T.y) ym = std::max(ym, (double)std::fabs(v));
    int order[INTERP1_MAX]; for (int m = 0; m < INTERP1_MAX; ++m) order[m] = m; for (int m = INTERP1_MAX; m-- > 1;) std::swap(order[m], order[rng.below((uint64_t)m + 1)]);
    for (int om = 0; om < INTERP1_MAX; ++om) { int m = order[om]; if (m == INTERP1_HERMITE && n > 16) continue; /* the polynomial through all points overflows single precision */ bool dflt = m == INTERP1_LINEAR && rng.chance(.5); if (dflt) { interp1 f(bx.p, by.p, n); q = f; } else VH_CHECK(q.setMethod((interp1Method)m), "method %s refused", MN[m]); bool four = m == INTERP1_CUBIC || m == INTERP1_SPLINE || m == INTERP1_CONSTRAINED_SPLINE;
        for (int k = 0; k < 14; ++k) { int kind = (int)rng.below(7); size_t j = rng.below(n); float x = kind == 6 ? (rng.chance(.4) ? 0.f : std::trunc(rng.f(T.x[0] - span * .3, T.x[n - 1] + span * .3))) : kind == 0 ? T.x[j] : kind == 1 ? std::nextafterf(T.x[j], rng.chance(.5) ? INFINITY : -INFINITY) : kind == 2 ? rng.f(T.x[0] - span * .3, T.x[0]) : kind == 3 ? rng.f(T.x[n - 1], T.x[n - 1] + span * .3) : rng.f(T.x[0], T.x[n - 1]); note("%s n=%zu x=%.9g", MN[m], n, x); float g = q.get(x); if (n < 4 && four) { VH_CHECK(std::isnan(g), "%s of a table of %zu points is %g", MN[m], n, g); ev("too_small"); continue; } VH_CHECK(!std::isnan(g), "%s of %zu points at %.9g is not a number", MN[m], n, x); evaln();
            if (m == INTERP1_NEXT) { if (x < T.x[0]) continue; size_t i = 0; while (i < n && T.x[i] <= x) ++i; VH_CHECK(g == T.y[i < n ? i : n - 1], "next neighbour of %.9g is %.9g, expected %.9g", x, g, T.y[i < n ? i : n - 1]); }
            else if (m == INTERP1_PREVIOUS) { size_t i = 0; while (i + 1 < n && T.x[i + 1] <= x) ++i; VH_CHECK(g == T.y[i], "previous neighbour of %.9g is %.9g, expected %.9g", x, g, T.y[i]); }
            else if (m == INTERP1_NEAREST) { double b = 1e30; for (float v : T.x) b = std::min(b, std::fabs((double)v - x)); bool ok = false; for (size_t i = 0; i < n; ++i) if (std::fabs((double)T.x[i] - x) <= b * (1 + 1e-6) + 1e-7 * std::fabs(x) && g == T.y[i]) ok = true; VH_CHECK(ok, "nearest neighbour of %.9g is %.9g", x, g); }
            else { double e = D.eval(m, x), f = S.eval(m, x); bool in = x >= T.x[0] && x <= T.x[n - 1]; double t = std::max(0., std::max((T.x[0] - x), (x - T.x[n - 1])) / (double)(in ? 1 : (x < T.x[0] ? T.x[1] - T.x[0] : T.x[n - 1] - T.x[n - 2]))), tol = 8 * std::fabs(f - e) + 2e-6 * ym * (1 + t * t * t); double dy = 0; size_t i = D.seg(x); dy = std::fabs(T.y[i + 1] - T.y[i]); if (m == INTERP1_CUBIC) { double h = 0; for (size_t a = 0; a + 1 < n; ++a) h = std::max(h, (double)T.x[a + 1] - T.x[a]); tol += 4e-6 * ym * h * (1 + t * t * t); } if (m == INTERP1_SINE) tol += 2e-3 * dy; if (m == INTERP1_HERMITE) { double s = 0; if (in) for (size_t a = 0; a < n; ++a) { double p = std::fabs(T.y[a]); for (size_t b = 0; b < n; ++b) if (a != b) p *= std::fabs(((double)x - T.x[b]) / ((double)T.x[a] - T.x[b])); s += p; } tol += 4e-6 * s; } if (m == INTERP1_CONSTRAINED_SPLINE) tol += 4e-7 * D.csMag() * (1 + t * t * t); if (tol > .02 * (ym + 1e-3) * (1 + t * t * t)) { ev("ill_conditioned"); continue; }
                VH_CHECK(std::fabs(g - e) <= tol, "%s of %zu points at %.9g is %.9g, expected %.9g (tolerance %.3g)", MN[m], n, x, g, e, tol); maxi(MN[m], std::fabs(g - e) / tol); if (kind == 0) { VH_CHECK(std::fabs(g - T.y[j]) <= tol, "%s at the table point %.9g is %.9g, the table says %.9g", MN[m], x, g, T.y[j]); ev("table_point"); } if (in && (m == INTERP1_LINEAR || m == INTERP1_SINE || m == INTERP1_CONSTRAINED_SPLINE)) { double lo = std::min(T.y[i], T.y[i + 1]) - tol, hi = std::max(T.y[i], T.y[i + 1]) + tol; { VH_CHECK(g >= lo && g <= hi, "%s at %.9g overshoots: %.9g outside of [%.9g,%.9g]", MN[m], x, g, lo, hi); ev("no_overshoot"); } } ev(in ? "inside" : x < T.x[0] ? "left" : "right"); }
            seen(sig3((uint64_t)m, fb(x), fb(g))); } if (dflt) ev("default_method"); }
    VH_CHECK(bx.vec() == T.x && by.vec() == T.y, "the tables were modified"); if (n == 5) eg("%zu points from %.3g to %.3g", n, T.x[0], T.x[n - 1]);
}
// tables of more than 2^16 points
MONITOR(large_table, 4, 40) {
    size_t n = 65500 + rng.below(200); if (idx == 0) n = 65537; Buf<float> bx(n), by(n); bool irr = rng.chance(.5); double px = -(double)(n / 2); for (size_t i = 0; i < n; ++i) { bx[i] = (float)px; by[i] = (float)rng.range(-50, 50); px += irr ? (double)(1 + rng.below(4)) : 1.; } interp1 q(bx.p, by.p, n); static const interp1Method M[] = { INTERP1_NEXT, INTERP1_PREVIOUS, INTERP1_NEAREST, INTERP1_LINEAR, INTERP1_SINE, INTERP1_SPLINE }; Ref<double> D; D.n = n; D.x.assign(bx.p, bx.p + n); D.y.assign(by.p, by.p + n);
    for (auto m : M) { VH_CHECK(q.setMethod(m), "method refused"); for (int k = 0; k < 25; ++k) { size_t j = k < 3 ? n - 2 - (size_t)k : k < 5 ? (size_t)k : k < 8 ? std::min<size_t>(n - 2, 65533 + (size_t)k) : k < 11 ? 253 + (size_t)k : rng.below(n - 1); float w = bx[j + 1] - bx[j], t = rng.chance(.3) ? 0.f : (float)rng.range(1, 7) / 8, x = bx[j] + t * w, g = q.get(x); double e; switch (m) { case INTERP1_NEXT: e = by[j + 1]; break; case INTERP1_PREVIOUS: e = by[j]; break; case INTERP1_NEAREST: if (t == .5f) continue; e = by[t < .5f ? j : j + 1]; break; default: e = D.eval(m, x); } VH_CHECK(std::fabs(g - e) <= (m == INTERP1_SINE ? 5e-2 : 2e-3), "method %d of %zu points at %.9g (interval %zu) is %.9g, expected %.9g", (int)m, n, x, j, g, e); seen(sig3((uint64_t)m, fb(x), fb(g))); evaln(); } } ev("large_table");
}
// sizes, null tables, changes of table and method, arguments of other types
MONITOR(guard, 10000, 300000) {
    size_t n = rng.below(6), N = 4 + rng.below(5); Table T = anyTable(rng, n + 1), U = anyTable(rng, N); Buf<float> bx(n), by(n), cx(N), cy(N); T.x.resize(n); T.y.resize(n); bx.set(T.x); by.set(T.y); cx.set(U.x); cy.set(U.y); interp1 q(bx.p, by.p, n); for (int m = 0; m < INTERP1_MAX; ++m) { q.setMethod((interp1Method)m); bool four = m == INTERP1_CUBIC || m == INTERP1_SPLINE || m == INTERP1_CONSTRAINED_SPLINE; float x = rng.chance(.1) ? rng.pick(std::vector<float>{ NAN, INFINITY, -INFINITY, 3e38f, -3e38f }) : rng.f(-10, 10); note("size %zu method %s x %g", n, MN[m], x); float g = q.get(x); if (n < (four ? 4u : 2u)) { VH_CHECK(std::isnan(g), "%s of a table of %zu points is %g", MN[m], n, g); ev("too_small"); } interp1 z(nullptr, by.p, n), w(bx.p, nullptr, n); z.setMethod((interp1Method)m); w.setMethod((interp1Method)m); VH_CHECK(std::isnan(z.get(x)) && std::isnan(w.get(x)), "%s without a table", MN[m]); evaln(3); }
    interp1 r(cx.p, cy.p, N); int m = (int)rng.below(INTERP1_MAX); r.setMethod((interp1Method)m); float x = rng.f(U.x[0], U.x[N - 1]), a = r.get(x); VH_CHECK(!r.setMethod(INTERP1_MAX), "method INTERP1_MAX accepted"); VH_CHECK(!r.setData(nullptr, cy.p, N) && !r.setData(cx.p, nullptr, N), "null table accepted"); if (n < 4) VH_CHECK(!r.setData(bx.p, by.p, n), "table of %zu points accepted", n); float b = r.get(x); VH_CHECK(a == b || (std::isnan(a) && std::isnan(b)), "refused settings changed %s(%.9g) from %.9g to %.9g", MN[m], x, a, b); interp1 s(bx.p, by.p, 0); VH_CHECK(s.setData(cx.p, cy.p, N) && s.setMethod((interp1Method)m), "a good table was refused"); VH_CHECK(s.get(x) == a, "%s after setData differs from the constructor", MN[m]); int xi = (int)std::ceil(std::min(2e9f, std::max(-2e9f, U.x[0]))); if (xi > U.x[0] && xi < U.x[N - 1]) VH_CHECK(r.get(xi) == r.get((float)xi) && r.get((double)xi) == r.get((float)xi), "get(int), get(double) and get(float) disagree"); seen(sig3(n * 16 + N, (uint64_t)m, fb(a))); ev("guards");
    { float h = (float)(1 << rng.below(5)), x0 = (float)rng.range(-20, 20), tx[5], ty[5]; for (int i = 0; i < 5; ++i) { tx[i] = x0 + h * (float)i; ty[i] = (float)(i * i - 7 * i) + rng.f(0, .5); } interp1 t(tx, ty); t.setMethod(INTERP1_NEAREST); int i = (int)rng.below(4); float g = t.get(tx[i] + h * .5f); VH_CHECK(g == ty[i + 1], "exactly between the points %.9g and %.9g the nearest neighbour is %.9g, not the value %.9g of the later one", tx[i], tx[i + 1], g, ty[i + 1]); ev("exact_tie"); }
    float fx[4] = { 0, 1, 2, 4 }, fy[4] = { 1, 3, 2, 5 }; interp1 t(fx, fy); VH_CHECK(t.get(3) == 3.5f && t.setData(fy, fy) == true, "array constructor"); }
VH_MAIN
