// F01: membership functions, observed through a one-rule system.
#include "fis_ref.hpp"
using namespace vh;
// Sugeno system whose single rule fires THEN out IS 1, defuzzified by weighted sum: its output is the membership degree
struct Probe { fs::input in[1]; fs::output out[1]; fs::mf mi[1], mo[1]; fs::rules t[7]; float wi[1]; fs::instance s; float one[1] = { 1.f }; float lo, hi;
    Probe(bool neg, float lo_, float hi_) : lo(lo_), hi(hi_) { fs::rules q[7] = { fs::Q_FIS_RULES_BEGIN, 0, (fs::rules)(neg ? -1 : 1), fs::Q_FIS_THEN, 0, 1, fs::Q_FIS_RULES_END }; std::memcpy(t, q, sizeof t); VH_CHECK(s.setup(fs::Sugeno, in, 1, out, 1, mi, 1, mo, 1, t, 1, wi) && s.setupInput(0, lo, hi) && s.setupOutput(0, -10, 10) && s.setupOutputMF(0, 0, fs::constantmf, one) && s.setDeFuzzMethod(fs::wtsum), "probe setup"); }
    float eval(float x) { VH_CHECK(s.setInput(0, x) && s.fuzzify() && s.inference() && s.deFuzzify(), "probe evaluation"); float v = -9; VH_CHECK(s.getOutput(0, v), "getOutput"); return v; } };
MONITOR(degrees, 20000, 600000) {
    const float U = rng.chance(.2) ? rng.logf_(.1, 1e6) : 1.f; /* unit of the input */ float lo = U * rng.f(-50, 20), hi = lo + U * rng.logf_(0.5, 100); Shape S = anyShape(rng, lo, hi); bool neg = rng.chance(.3); Probe P(neg, lo, hi); Buf<float> cp(S.p.size()); cp.set(S.p); VH_CHECK(P.s.setupInputMF(0, 0, S.s, cp.p, S.h), "%s refused", SHN[S.s]);
    for (int i = 0; i < 12; ++i) { float x = rng.chance(.15) ? (rng.chance(.5) ? lo - U * rng.f(0, 10) : hi + U * rng.f(0, 10)) : rng.chance(.3) ? S.p[rng.below(S.p.size())] : rng.f(lo, hi); double xc = std::min((double)hi, std::max((double)lo, (double)x)); bool edge = false; double m = clamp01((double)S.h * mu(S, xc, edge)), e = neg ? 1 - m : m; float g = P.eval(x); cp.check("the parameters"); VH_CHECK(g >= 0 && g <= 1, "%s degree %g outside of [0,1]", SHN[S.s], g); if (edge) { ev("edge_skipped"); continue; } double tol = muTol(S.s) + 1.2e-5 * (std::fabs(lo) + std::fabs(hi)) / (hi - lo); maxi(SHN[S.s], std::fabs(g - e)); VH_CHECK(std::fabs(g - e) <= tol, "%s%s(%g,%g,%g,%g) h=%g at %.9g is %.9g, expected %.9g", neg ? "NOT " : "", SHN[S.s], S.p[0], S.p.size() > 1 ? S.p[1] : 0, S.p.size() > 2 ? S.p[2] : 0, S.p.size() > 3 ? S.p[3] : 0, S.h, x, g, e); seen(sig3(S.s, fb(x), fb(g))); }
    ev(SHN[S.s]); eg("%s on [%g,%g] h=%g", SHN[S.s], lo, hi, S.h);
}
// sets that are narrow compared with the range of the input: far away from a set its degree is still the documented one
MONITOR(narrow, 8000, 250000) {
    float sw = rng.logf_(.1, 10) * (rng.chance(.2) ? rng.logf_(1, 1e5) : 1.f), slo = rng.f(-3, 2) * sw, shi = slo + sw, lo = slo - sw * rng.logf_(1, 3000), hi = shi + sw * rng.logf_(1, 3000); Shape S = anyShape(rng, slo, shi); bool neg = rng.chance(.3); Probe P(neg, lo, hi); Buf<float> cp(S.p.size()); cp.set(S.p); VH_CHECK(P.s.setupInputMF(0, 0, S.s, cp.p, S.h), "%s refused", SHN[S.s]);
    for (int i = 0; i < 10; ++i) { float x = rng.chance(.3) ? rng.f(slo, shi) : rng.chance(.5) ? rng.f(lo, hi) : rng.chance(.5) ? std::max(lo, slo - sw * rng.logf_(.1, 3000)) : std::min(hi, shi + sw * rng.logf_(.1, 3000)); bool edge = false; double m = clamp01((double)S.h * mu(S, x, edge)), e = neg ? 1 - m : m; float g = P.eval(x); VH_CHECK(g >= 0 && g <= 1, "%s degree %g outside of [0,1]", SHN[S.s], g); if (edge) { ev("edge_skipped"); continue; } double tol = muTol(S.s) + 1.2e-5 * (std::fabs(slo) + std::fabs(shi)) / (shi - slo); VH_CHECK(std::fabs(g - e) <= tol, "%s%s(%g,%g,%g,%g) h=%g at %.9g is %.9g, expected %.9g", neg ? "NOT " : "", SHN[S.s], S.p[0], S.p.size() > 1 ? S.p[1] : 0, S.p.size() > 2 ? S.p[2] : 0, S.p.size() > 3 ? S.p[3] : 0, S.h, x, g, e); if (x < slo || x > shi) ev("far_away"); evaln(); seen(sig3(S.s, fb(x), fb(g))); } ev(SHN[S.s]);
}
// heights outside of [0,1] are coerced
MONITOR(height, 2000, 40000) { Probe P(false, -1, 1); float p[3] = { -1, 0, 1 }, h = rng.f(-3, 4); VH_CHECK(P.s.setupInputMF(0, 0, fs::trimf, p, h), "refused"); float g = P.eval(0), e = (float)clamp01(h); VH_CHECK(std::fabs(g - e) < 1e-6, "height %g gives %g", h, g); seen(fb(h)); ev("height"); }
// custom functions receive the input, the parameters and are scaled and bounded like the others
static float lastSeen; static const float *lastP;
static float customFn(const fs::ioBase *const in, const float *p, const size_t n) { (void)n; lastSeen = Peek::of(in[0]); lastP = p; return p[0]; }
MONITOR(custom, 2000, 40000) { Probe P(false, -1, 1); float p[1] = { rng.f(-1, 2) }, h = rng.f(0, 1); VH_CHECK(P.s.setupInputMF(0, 0, customFn, p, h), "custom function refused"); float x = rng.f(-1, 1), g = P.eval(x); VH_CHECK(lastP == p && (lastSeen == x || !Peek::named()), "custom function got other parameters or input %g for %g", lastSeen, x); VH_CHECK(std::fabs(g - clamp01((double)p[0] * h)) < 1e-6, "custom degree %g", g); seen(sig2(fb(p[0]), fb(h))); ev("custom"); }
// monotonic sets are monotonic, and an s-shape and its z-shape partner are complementary
MONITOR(shape_laws, 4000, 100000) {
    float lo = -10, hi = 10; auto q = sorted(rng, 2, -9, 9); if (q[1] - q[0] < .5f) q[1] += .5f; float p[2] = { q[0], q[1] }; fs::shapeMF up[3] = { fs::smf, fs::linsmf, fs::smf }, dn[3] = { fs::zmf, fs::linzmf, fs::zmf }; int k = (int)rng.below(2); if (k == 1 && rng.chance(.2)) { p[0] = p[1] = rng.chance(.5) ? (float)(int)p[0] : p[0]; ev("crisp_step"); } Probe A(false, lo, hi), B(false, lo, hi), N(true, lo, hi); A.s.setupInputMF(0, 0, up[k], p); B.s.setupInputMF(0, 0, dn[k], p); N.s.setupInputMF(0, 0, up[k], p); float prev = -1; for (int i = 0; i <= 40; ++i) { float x = lo + (hi - lo) * (float)i / 40.f; if (i && p[0] > lo + (hi - lo) * (float)(i - 1) / 40.f && p[0] < x) { float a0 = A.eval(p[0]), b0 = B.eval(p[0]); VH_CHECK(std::fabs(a0 + b0 - 1) < 1e-4, "%s and %s are not complementary at their parameter %g: %g %g", SHN[up[k]], SHN[dn[k]], p[0], a0, b0); } float a = A.eval(x), b = B.eval(x), n = N.eval(x); VH_CHECK(a >= prev - 1e-6f, "%s decreases at %g", SHN[up[k]], x); VH_CHECK(std::fabs(a + b - 1) < 1e-4 && std::fabs(a + n - 1) < 1e-6, "%s and %s are not complementary at %g: %g %g (NOT %g)", SHN[up[k]], SHN[dn[k]], x, a, b, n); prev = a; evaln(); } seen(sig2(fb(p[0]), fb(p[1]))); ev("laws");
}
// Tsukamoto consequents: the crisp output is the abscissa where the monotonic set reaches the firing strength
MONITOR(tsukamoto, 12000, 300000) {
    float lo = rng.f(-20, 10), hi = lo + rng.f(2, 30); Shape S = anyTsuk(rng, lo, hi); fs::input in[1]; fs::output out[1]; fs::mf mi[1], mo[1]; fs::rules t[7] = { fs::Q_FIS_RULES_BEGIN, 0, 1, fs::Q_FIS_THEN, 0, 1, fs::Q_FIS_RULES_END }; float wi[1], ramp[2] = { 0, 1 }; Buf<float> cp(S.p.size()); cp.set(S.p); fs::instance s; VH_CHECK(s.setup(fs::Tsukamoto, in, 1, out, 1, mi, 1, mo, 1, t, 1, wi) && s.setupInput(0, 0, 1) && s.setupOutput(0, lo, hi) && s.setupInputMF(0, 0, fs::linsmf, ramp) && s.setupOutputMF(0, 0, S.s, cp.p), "setup");
    for (int i = 0; i < 10; ++i) { float w = rng.chance(.1) ? 1.f : rng.chance(.1) ? 1.f - rng.logf_(1e-5, .02) : rng.chance(.1) ? rng.logf_(1e-6, .02) : rng.f(0.02, 0.98); VH_CHECK(s.setInput(0, w) && s.fuzzify() && s.inference() && s.deFuzzify(), "evaluation"); double e = tsuk(S, w, lo, hi), d = hi - lo; double c = std::min((double)hi, std::max((double)lo, e)); float g = s[0]; VH_CHECK(std::fabs(g - c) <= 2e-3 * d + (S.s == fs::tconcavemf ? 1e-5 * d / w : 0) + (S.s == fs::tsigmf && w < 1 ? 3e-7 / (1 - w) / std::fabs(S.p[0]) : 0), "%s(%g,%g) at strength %g gives %.9g, expected %.9g in [%g,%g]", SHN[S.s], S.p[0], S.p[1], w, g, c, lo, hi); seen(sig3(S.s, fb(w), fb(g))); } ev(SHN[S.s]);
}
VH_MAIN
