// F02: Mamdani inference.
#include "fis_ref.hpp"
using namespace vh;
static const char *DN[] = { "centroid", "bisector", "mom", "lom", "som" };
MONITOR(mamdani, 6000, 200000) {
    World W = anyWorld(rng, fs::Mamdani); if (W.past & 1) ev("sets_redefined"); if (W.past & 2) ev("storage_replaced"); if (W.past & 4) ev("arrays_used_before"); if (W.past & 8) ev("failed_before"); Live A(W, 0xFF, true), B(W, 0x00, false); size_t np = A.s.getNumberOfPoints(); VH_CHECK(np >= 2, "evaluation points");
    for (int it = 0; it < 4; ++it) {
        std::vector<float> x; for (int i = 0; i < W.ni; ++i) { double w = W.imax[i] - W.imin[i]; x.push_back(rng.f(W.imin[i] - .1 * w, W.imax[i] + .1 * w)); if (rng.chance(.2)) x.back() = std::round(x.back()); } bool edge = false; double tol = 0; auto m = W.degrees(x, edge, tol); auto w = W.strengths(m); A.run(x, rng.chance(.5)); B.run(x, rng.chance(.5));
        if (edge) { ev("edge_skipped"); continue; } tol = 2 * tol + 2e-4;
        bool tie = false; for (size_t k = 0; k < w.size(); ++k) { maxi("strength_error", std::fabs(A.wi[k] - w[k]) / tol); VH_CHECK(std::fabs(A.wi[k] - w[k]) <= tol, "strength of rule %zu is %.9g, expected %.9g", k, A.wi[k], w[k]); VH_CHECK(A.wi[k] >= 0 && A.wi[k] <= 1, "strength %g", A.wi[k]); if ((w[k] > 0) != (A.wi[k] > 0)) tie = true; evaln(); ev("strengths"); }
        for (int o = 0; o < W.no; ++o) {
            double lo = W.omin[o], hi = W.omax[o], res = (hi - lo) / (double)np, area = 0, mom = 0, ymax = -1, rtol = 2e-4; for (auto &r : W.rules) for (auto &c : r.c) if (c.out == o) rtol += tol + muTol(W.out[(size_t)c.set].s); float *X = A.reg[2 * o]->p, *Y = A.reg[2 * o + 1]->p; float g = -1e9f, h = 0; VH_CHECK(A.s.getOutput((fs::tag)o, g) && B.s.getOutput((fs::tag)o, h), "getOutput"); VH_CHECK((std::isnan(g) && std::isnan(h)) || g == h, "two identical systems disagree on output %d: %g %g", o, g, h); VH_CHECK(std::isnan(g) || A.s[(fs::tag)o] == g, "operator[] and getOutput disagree");
            for (size_t k = 0; k < np; ++k) { double xe = lo + ((double)k + .5) * res; VH_CHECK(std::fabs(X[k] - xe) <= 1e-5 * (std::fabs(lo) + std::fabs(hi)) + 1e-6, "evaluation point %zu of output %d is %.9g, expected %.9g", k, o, X[k], xe); bool ed = false; double ye = W.region(w, o, X[k], ed); if (!ed && !tie) maxi("region_error", std::fabs(Y[k] - ye) / rtol); if (!ed && !tie) VH_CHECK(std::fabs(Y[k] - ye) <= rtol, "aggregated region of output %d at %.6g is %.9g, expected %.9g", o, X[k], Y[k], ye); VH_CHECK(Y[k] >= 0 && Y[k] <= 1, "region height %g", Y[k]); area += Y[k]; mom += (double)X[k] * Y[k]; ymax = std::max(ymax, (double)Y[k]); } evaln(np);
            if (!(area > 1e-2)) { ev("empty_region"); continue; } VH_CHECK(g >= (float)lo && g <= (float)hi, "output %g outside of [%g,%g]", g, lo, hi); double e = 0, t2 = 1e-4 * (hi - lo) + 1e-5 * (std::fabs(lo) + std::fabs(hi));
            size_t f = np, l = 0, cnt = 0; for (size_t k = 0; k < np; ++k) if (Y[k] == (float)ymax) { if (f == np) f = k; l = k; ++cnt; }
            switch (W.dm) {
                case fs::centroid: e = mom / area; VH_CHECK(std::fabs(g - e) <= t2 + 2e-5 / area * (hi - lo), "centroid of output %d is %.9g, expected %.9g", o, g, e); break;
                case fs::bisector: { double half = area / 2, c = 0, a = lo, b = hi; bool ga = false; for (size_t k = 0; k < np; ++k) { c += Y[k]; if (!ga && c >= half * (1 - 1e-4) - 1e-4) { a = X[k]; ga = true; } if (c >= half * (1 + 1e-4) + 1e-4) { b = X[k]; break; } } VH_CHECK(g >= a - t2 && g <= b + t2, "bisector of output %d is %.9g, expected in [%.9g,%.9g]", o, g, a, b); break; }
                case fs::lom: VH_CHECK(std::fabs(g - X[l]) <= t2, "largest of maximum of output %d is %.9g, expected %.9g", o, g, X[l]); break;
                case fs::som: VH_CHECK(std::fabs(g - X[f]) <= t2, "smallest of maximum of output %d is %.9g, expected %.9g", o, g, X[f]); break;
                default: { // middle of the (first) maximal plateau; values equal within rounding may be counted in it
                    size_t l1 = f, l2 = f; while (l1 + 1 < np && Y[l1 + 1] == Y[f]) ++l1; l2 = l1; while (l2 + 1 < np && std::fabs(Y[l2 + 1] - Y[f]) <= 3e-7f) ++l2; double a = .5 * (X[f] + X[l1]), b = .5 * (X[f] + X[l2]); size_t f0 = f; while (f0 > 0 && std::fabs(Y[f0 - 1] - Y[f]) <= 3e-7f) --f0; a = std::min(a, .5 * (X[f0] + X[l1])); VH_CHECK(g >= a - t2 && g <= b + t2, "middle of maximum of output %d is %.9g, expected in [%.9g,%.9g]", o, g, a, b); } }
            ev(DN[W.dm]); seen(sig3(W.dm, fb(x[0]), fb(g))); } }
    char b[64]; snprintf(b, sizeof b, "imp%d_agg%d", W.imp, W.agg); ev(b); snprintf(b, sizeof b, "and%d_or%d", W.andOp, W.orOp); ev(b); if (W.weights) ev("weights"); eg("%d inputs, %d outputs, %zu+%zu sets, %zu rules, %s", W.ni, W.no, W.in.size(), W.out.size(), W.rules.size(), DN[W.dm]);
}
// regions made of steps with exactly representable heights: every sum is exact, so each method selects exactly one evaluation point
MONITOR(plateaus, 2000, 60000) {
    World W; W.type = fs::Mamdani; W.ni = W.no = 1; W.imin = { 0 }; W.imax = { 1 }; float c = (float)rng.range(-20, 20), d = (float)(1 << rng.below(6)); W.omin = { c }; W.omax = { c + d }; Shape S; S.s = fs::linsmf; S.p = { 0, 1 }; W.in = { S }; W.inOf = { 0 }; int n = 1 + (int)rng.below(3); double res = d / 100.0;
    for (int i = 0; i < n; ++i) { Shape T; T.s = fs::rectmf; int a = (int)rng.below(100), b = a + (int)rng.below((uint64_t)(100 - a)); T.p = { (float)(c + a * res), (float)(c + (b + 1) * res) }; T.h = rng.pick(std::vector<float>{ 1.f, 1.f, .5f, .25f, .75f }); W.out.push_back(T); W.outOf.push_back(0); Rule R; R.a = { { 0, 0, false, false } }; R.c = { { 0, i, false } }; R.weight = 1; W.rules.push_back(R); } if (rng.chance(.5)) W.imp = fs::FIS_PROD; W.agg = rng.chance(.5) ? fs::FIS_MAX : fs::FIS_SUM; W.dm = (fs::deFuzzMethod)rng.below(5); Live A(W, 0xFF, true); float x = rng.pick(std::vector<float>{ 1.f, 1.f, .5f, .25f, .125f }); A.run({ x }, rng.chance(.5)); size_t np = A.s.getNumberOfPoints(); float *X = A.reg[0]->p, *Y = A.reg[1]->p; double area = 0, mom = 0, ymax = 0; for (size_t k = 0; k < np; ++k) { if (Y[k] * 1024 != std::floor(Y[k] * 1024)) { ev("not_exact"); return; } area += Y[k]; mom += (double)X[k] * Y[k]; ymax = std::max(ymax, (double)Y[k]); } if (!(area > 0)) { ev("empty_region"); return; }
    size_t f = np, l = 0, l1, h = 0; for (size_t k = 0; k < np; ++k) if (Y[k] == (float)ymax) { if (f == np) f = k; l = k; } l1 = f; while (l1 + 1 < np && Y[l1 + 1] == Y[f]) ++l1; double cum = 0; for (h = 0; h + 1 < np; ++h) { cum += Y[h]; if (2 * cum >= area) { if (2 * cum == area) ev("half_exactly_reached"); break; } }
    double e = W.dm == fs::centroid ? mom / area : W.dm == fs::bisector ? X[h] : W.dm == fs::lom ? X[l] : W.dm == fs::som ? X[f] : .5 * (X[f] + X[l1]); float g = A.s[0]; VH_CHECK(std::fabs(g - e) <= .25 * res, "%s of a step-shaped region is %.9g, expected %.9g (points %.3g apart)", DN[W.dm], g, e, res); ev(DN[W.dm]); evaln(); seen(sig3(W.dm, fb(W.out[0].p[0]), fb(g)));
}
// symmetric systems: a symmetric region defuzzifies to its axis with every symmetric method
MONITOR(symmetric, 2000, 50000) {
    World W; W.type = fs::Mamdani; W.ni = W.no = 1; W.imin = { 0 }; W.imax = { 1 }; float c = rng.f(-20, 20), d = rng.f(1, 20); W.omin = { c - d }; W.omax = { c + d }; Shape S; S.s = fs::linsmf; S.p = { 0, 1 }; W.in = { S }; W.inOf = { 0 }; Shape T; switch (rng.below(4)) { case 0: T.s = fs::trimf; T.p = { c - d, c, c + d }; break; case 1: T.s = fs::gaussmf; T.p = { d / 3, c }; break; case 2: T.s = fs::trapmf; T.p = { c - d, c - d / 2, c + d / 2, c + d }; break; default: T.s = fs::gbellmf; T.p = { d / 2, 2, c }; } W.out = { T }; W.outOf = { 0 }; Rule R; R.a = { { 0, 0, false, false } }; R.c = { { 0, 0, false } }; R.weight = 1; W.rules = { R }; if (rng.chance(.5)) W.imp = fs::FIS_PROD; W.dm = (fs::deFuzzMethod)rng.below(3); Live A(W); A.run({ rng.f(.1, 1) }, false); double res = 2 * d / 100; VH_CHECK(std::fabs(A.s[0] - c) <= 1.6 * res, "%s of a region symmetric about %g is %g", DN[W.dm], c, A.s[0]); seen(sig2(fb(c), fb(d))); ev("symmetric");
}
// one instance in use for more than 2^16 evaluations answers an input the last time as it did the first time
MONITOR(soak, 3, 40) {
    World W = anyWorld(rng, fs::Mamdani); for (int t = 0; t < 300 && (W.rules.size() > 2 || W.out.size() > 3); ++t) W = anyWorld(rng, fs::Mamdani); W.dm = (fs::deFuzzMethod)rng.below(5); Live A(W, 0xFF); std::vector<std::vector<float>> X, O, S; for (int k = 0; k < 12; ++k) { std::vector<float> x, o; for (int i = 0; i < W.ni; ++i) { double w = W.imax[i] - W.imin[i]; x.push_back(rng.f(W.imin[i] - .1 * w, W.imax[i] + .1 * w)); } Live B(W, 0x00); B.run(x, false); for (int i = 0; i < W.no; ++i) o.push_back(B.s[(fs::tag)i]); X.push_back(x); O.push_back(o); std::vector<float> s; for (size_t i = 0; i < W.rules.size(); ++i) s.push_back(B.wi[i]); S.push_back(s); } size_t N = idx == 0 ? 66000 + rng.below(2000) : 3000;
    for (size_t k = 0; k < N; ++k) { size_t q = rng.below(X.size()); A.run(X[q], rng.chance(.3)); for (size_t i = 0; i < W.rules.size(); ++i) VH_CHECK(std::fabs(A.wi[i] - S[q][i]) <= 1e-6 || std::isnan(S[q][i]), "strength of rule %zu in evaluation %zu of one long run is %.9g, expected %.9g", i, k, A.wi[i], S[q][i]); for (int i = 0; i < W.no; ++i) { float g = A.s[(fs::tag)i], e = O[q][(size_t)i]; VH_CHECK((std::isnan(g) && std::isnan(e)) || g == e, "output %d in evaluation %zu of one long run is %.9g, a fresh system answers %.9g", i, k, g, e); } if (k % 64 == 0) seen(sig3(q, k, fb(A.s[0]))); } ev("long_run_evaluations", N);
}
VH_MAIN
