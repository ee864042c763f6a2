// F03: Sugeno and Tsukamoto inference.
#include "fis_ref.hpp"
using namespace vh;
MONITOR(crisp, 20000, 600000) {
    fs::type t = rng.chance(.6) ? fs::Sugeno : fs::Tsukamoto; World W = anyWorld(rng, t); if (W.past & 1) ev("sets_redefined"); if (W.past & 4) ev("arrays_used_before"); if (W.past & 8) ev("failed_before"); Live A(W, (unsigned char)rng.u32()), B(W, 0x00); 
    for (int it = 0; it < 6; ++it) {
        std::vector<float> x, xc; for (int i = 0; i < W.ni; ++i) { double w = W.imax[i] - W.imin[i]; x.push_back(rng.f(W.imin[i] - .1 * w, W.imax[i] + .1 * w)); if (rng.chance(.2)) x.back() = std::round(x.back()); xc.push_back(std::min(W.imax[i], std::max(W.imin[i], x.back()))); } bool edge = false; double tol = 0; auto m = W.degrees(x, edge, tol); auto w = W.strengths(m); A.run(x, rng.chance(.5)); B.run(x, true); if (edge) { ev("edge_skipped"); continue; } tol = 2 * tol + 2e-4;
        for (size_t k = 0; k < w.size(); ++k) { maxi("strength_error", std::fabs(A.wi[k] - w[k]) / tol); VH_CHECK(std::fabs(A.wi[k] - w[k]) <= tol, "strength of rule %zu is %.9g, expected %.9g", k, A.wi[k], w[k]); evaln(); ev("strengths"); }
        for (int o = 0; o < W.no; ++o) { double lo = W.omin[o], hi = W.omax[o], sw = 0, swz = 0, mag = 0, spread = 0; bool illc = false; 
            // rule outputs weighted by the strengths the system itself computed (checked above)
            for (size_t k = 0; k < w.size(); ++k) for (auto &c : W.rules[k].c) if (c.out == o && A.wi[k] > 0) { const Shape &S = W.out[c.set]; double z = 0, zm = 0; if (t == fs::Sugeno) { if (S.s == fs::constantmf) z = S.p[0], zm = std::fabs(z); else { for (int i = 0; i < W.ni; ++i) { z += (double)S.p[i] * xc[i]; zm += std::fabs((double)S.p[i] * xc[i]); } z += S.p[W.ni]; zm += std::fabs(S.p[W.ni]); } } else { z = tsuk(S, A.wi[k], lo, hi); if (std::fabs(z) > 1e36 || A.wi[k] < 1e-36) illc = true; if (S.s == fs::tsigmf && A.wi[k] > 1 - 2e-6) { if (A.wi[k] < 1) illc = true; } else spread += A.wi[k] * (std::fabs(tsuk(S, A.wi[k] * (1 - 2.5e-7), lo, hi) - z) + std::fabs(tsuk(S, std::min(1.0, A.wi[k] * (1 + 2.5e-7)), lo, hi) - z)); zm = std::fabs(z) + std::fabs(S.p[0]) + std::fabs(S.p[1]) + 20 * (hi - lo) + (S.s == fs::tsigmf ? std::fabs(10 / S.p[0]) : 0); } sw += A.wi[k]; swz += A.wi[k] * z; mag += A.wi[k] * zm; }
            float g = -1e9f, h = 0; VH_CHECK(A.s.getOutput((fs::tag)o, g) && B.s.getOutput((fs::tag)o, h), "getOutput"); VH_CHECK((std::isnan(g) && std::isnan(h)) || g == h, "two identical systems disagree: %g %g", g, h); if (!(sw > 1e-3)) { ev("no_rule_fires"); continue; } if (illc) { ev("ill_conditioned"); continue; } double e = W.dm == fs::wtsum ? swz : swz / sw, tl = 1e-5 * (W.dm == fs::wtsum ? mag : mag / sw) + (W.dm == fs::wtsum ? spread : spread / sw) + 1e-6 * (std::fabs(lo) + std::fabs(hi)); e = std::min(hi, std::max(lo, e)); VH_CHECK(std::fabs(g - e) <= tl, "%s %s output %d is %.9g, expected %.9g", t == fs::Sugeno ? "Sugeno" : "Tsukamoto", W.dm == fs::wtsum ? "weighted sum" : "weighted average", o, g, e); VH_CHECK(g >= (float)lo && g <= (float)hi, "output outside of its range"); VH_CHECK(A.s[(fs::tag)o] == g, "operator[]"); ev(t == fs::Sugeno ? (W.dm == fs::wtsum ? "sugeno_sum" : "sugeno_average") : "tsukamoto"); if (g == (float)lo || g == (float)hi) ev("coerced"); seen(sig3(o, fb(x[0]), fb(g))); } }
    eg("%s: %d inputs, %d outputs, %zu rules", t == fs::Sugeno ? "Sugeno" : "Tsukamoto", W.ni, W.no, W.rules.size());
}
// the statically sized wrapper answers every call, also refused ones, as the instance it wraps does
static float halfMf(const fs::ioBase *const, const float *p, const size_t) { return p[0]; }
template <fs::type T, int NI, int NO, int SI, int SO, int NR> static void twin(Rng &rng) {
    std::vector<fs::rules> r; r.push_back(fs::Q_FIS_RULES_BEGIN); for (int k = 0; k < NR; ++k) { int n = 1 + (int)rng.below(3); fs::rules con = rng.chance(.5) ? fs::Q_FIS_AND : fs::Q_FIS_OR; for (int i = 0; i < n; ++i) { if (i) r.push_back(con); int s = (int)rng.below(SI); r.push_back((fs::rules)(s % NI)); r.push_back((fs::rules)(rng.chance(.2) ? -(s + 1) : s + 1)); } r.push_back(fs::Q_FIS_THEN); int s = (int)rng.below(SO); r.push_back((fs::rules)(s % NO)); r.push_back((fs::rules)(s + 1)); } r.push_back(fs::Q_FIS_RULES_END);
    using Sys = fs::system<T, NI, NO, SI, SO, NR>; std::unique_ptr<Sys> S(new Sys(r.data())); Sys &s = *S; fs::instance f; std::unique_ptr<fs::input[]> in(new fs::input[NI]); std::unique_ptr<fs::output[]> ou(new fs::output[NO]); std::unique_ptr<fs::mf[]> mi(new fs::mf[SI]), mo(new fs::mf[SO]); std::unique_ptr<float[]> wi(new float[NR]);
    auto setup = [&] { bool a = s.setup(), b = f.setup(T, in.get(), NI, ou.get(), NO, mi.get(), SI, mo.get(), SO, r.data(), NR, wi.get()); VH_CHECK(a && b, "setup %d %d", a, b); }; setup(); std::vector<std::vector<float>> keep; std::vector<std::unique_ptr<float[]>> wk; auto par = [&](int n) -> const float * { keep.emplace_back(); auto &v = keep.back(); for (int i = 0; i < n; ++i) v.push_back(rng.f(-5, 5)); std::sort(v.begin(), v.end()); return v.data(); }; keep.reserve(400);
    auto same = [&](const char *w, bool a, bool b) { VH_CHECK(a == b, "%s answers %d on the wrapper and %d on the instance it wraps", w, a, b); ev(w); };
    auto tag = [&](int n) { return (fs::tag)(rng.chance(.12) ? rng.range(-128, 127) : rng.chance(.1) ? n : (int)rng.below((size_t)n)); };
    auto in1 = [&](int k) { auto sh = rng.pick(std::vector<fs::shapeMF>{ fs::linsmf, fs::linzmf, fs::smf, fs::zmf, fs::trimf, fs::trapmf }); const float *p = par(4); s.setupInputMF((fs::tag)(k % NI), (fs::tag)k, sh, p); f.setupInputMF((fs::tag)(k % NI), (fs::tag)k, sh, p); };
    auto out1 = [&](int k) { auto sh = T == fs::Sugeno ? rng.chance(.5) ? fs::constantmf : fs::linearmf : T == fs::Tsukamoto ? rng.chance(.5) ? fs::tlinsmf : fs::tlinzmf : rng.chance(.5) ? fs::trimf : fs::trapmf; const float *p = par(NI + 4); s.setupOutputMF((fs::tag)(k % NO), (fs::tag)k, sh, p); f.setupOutputMF((fs::tag)(k % NO), (fs::tag)k, sh, p); };
    float big = rng.chance(.2) ? 1e6f : 6; auto ranges = [&] { for (int i = 0; i < NI; ++i) same("setupInput", s.setupInput((fs::tag)i, -big, big), f.setupInput((fs::tag)i, -big, big)); for (int i = 0; i < NO; ++i) same("setupOutput", s.setupOutput((fs::tag)i, -8, 8), f.setupOutput((fs::tag)i, -8, 8)); }; ranges(); for (int k = 0; k < SI; ++k) in1(k); for (int k = 0; k < SO; ++k) out1(k);
    for (int it = 0; it < 40; ++it) { note("twin type %d, %d inputs, %d outputs, %d rules, step %d", (int)T, NI, NO, NR, it);
        switch (rng.below(14)) {
        case 0: { auto t = tag(NI); float a = rng.f(-big, 0), b = rng.f(1, big); same("setupInput", s.setupInput(t, a, b), f.setupInput(t, a, b)); break; }
        case 1: { auto t = tag(NO); float a = rng.f(-9, 0), b = rng.f(1, 9); same("setupOutput", s.setupOutput(t, a, b), f.setupOutput(t, a, b)); break; }
        case 2: { auto t = tag(NI), m = tag(SI); const float *p = rng.chance(.1) ? nullptr : par(4); float h = rng.f(0, 1); auto sh = (fs::shapeMF)rng.below(fs::FIS_NUM_MFS); if (sh == fs::custommf) sh = fs::trimf; if (p && rng.chance(.3)) { auto q = par(1); const_cast<float *>(q)[0] = rng.f(0, 1); same("custom_input", s.setupInputMF(t, m, &halfMf, q, h), f.setupInputMF(t, m, &halfMf, q, h)); } else if (!p || rng.chance(.5)) same("setupInputMF", s.setupInputMF(t, m, rng.chance(.5) ? fs::trimf : fs::trimf, p, h), f.setupInputMF(t, m, fs::trimf, p, h)); else same("setupInputMF", s.setupInputMF(t, m, fs::gaussmf, p), f.setupInputMF(t, m, fs::gaussmf, p)); (void)sh; break; }
        case 3: { auto t = tag(NO), m = tag(SO); const float *p = rng.chance(.1) ? nullptr : par(NI + 4); float h = rng.f(0, 1); auto sh = T == fs::Sugeno ? fs::constantmf : T == fs::Tsukamoto ? fs::tlinsmf : fs::trimf; if (p && rng.chance(.3) && T != fs::Tsukamoto) same("custom_output", s.setupOutputMF(t, m, &halfMf, p, h), f.setupOutputMF(t, m, &halfMf, p, h)); else if (rng.chance(.5)) same("setupOutputMF", s.setupOutputMF(t, m, sh, p, h), f.setupOutputMF(t, m, sh, p, h)); else same("setupOutputMF", s.setupOutputMF(t, m, sh, p), f.setupOutputMF(t, m, sh, p)); break; }
        case 4: { auto p = (fs::parameter)rng.below(5); auto v = (fs::paramValue)rng.below(6); same("setParameter", s.setParameter(p, v), f.setParameter(p, v)); break; }
        case 5: { auto m = (fs::deFuzzMethod)rng.below(fs::FIS_NUM_DEFUZZ); same("setDeFuzzMethod", s.setDeFuzzMethod(m), f.setDeFuzzMethod(m)); break; }
        case 6: { float *w = nullptr; if (rng.chance(.8)) { wk.emplace_back(new float[NR]); w = wk.back().get(); for (int k = 0; k < NR; ++k) w[k] = rng.f(-.2, 1.2); } same("setRuleWeights", s.setRuleWeights(w), f.setRuleWeights(w)); break; }
        case 7: { auto t = tag(NI); float v = rng.f(-big * 1.2, big * 1.2); same("setInput", s.setInput(t, v), f.setInput(t, v)); break; }
        case 8: { auto t = tag(NI); float v = rng.f(-big * 1.2, big * 1.2); if (rng.chance(.5)) { s << t << v; f << t << v; } else { int q = (int)v; s << t << q; f << t << q; } ev("stream"); break; }
        case 9: { int t = (int)rng.below(NI), q = (int)rng.range(-100000, 100000); if (big < 10) q %= 8; s << (fs::tag)t << q; f.setInput((fs::tag)t, (float)q); f << (fs::tag)t; ev("stream_integer"); break; }
        case 10: { int t = (int)rng.below(NI); float q = rng.f(-big, big); f << (fs::tag)t << q; s.setInput((fs::tag)t, q); s << (fs::tag)t; ev("stream_real"); break; }
        case 11: if (rng.chance(.15)) { setup(); ranges(); } break;
        default: { bool a = s.fuzzify(), b = f.fuzzify(); same("fuzzify", a, b); a = s.inference(); b = f.inference(); same("inference", a, b); a = s.deFuzzify(); b = f.deFuzzify(); same("deFuzzify", a, b); ev("evaluated"); } }
        for (int o = -3; o < NO + 3; ++o) { float a = 77, b = 77; same("getOutput", s.getOutput((fs::tag)o, a), f.getOutput((fs::tag)o, b)); float c = s[(fs::tag)o], d = f[(fs::tag)o]; VH_CHECK(((a != a && b != b) || a == b) && ((c != c && d != d) || c == d), "output %d of %d is %.9g on the wrapper and %.9g on the instance (by index %.9g and %.9g)", o, NO, a, b, c, d); }
        VH_CHECK(s.getNumberOfPoints() == f.getNumberOfPoints(), "number of points"); } seen(sig3((uint64_t)T * 100 + NR, r.size(), keep.size())); }
MONITOR(twin_wrapper, 4000, 100000) { switch (rng.below(6)) { case 0: twin<fs::Mamdani, 1, 1, 2, 2, 1>(rng); break; case 1: twin<fs::Sugeno, 2, 2, 4, 3, 2>(rng); break; case 2: twin<fs::Tsukamoto, 3, 1, 5, 3, 4>(rng); break; case 3: twin<fs::Mamdani, 2, 3, 4, 6, 3>(rng); break; case 4: twin<fs::Sugeno, 1, 2, 3, 4, 1>(rng); break; default: twin<fs::Tsukamoto, 2, 2, 4, 4, 1>(rng); } }
// the statically sized wrapper is the same machine
MONITOR(wrapper, 2000, 50000) {
    fs::rules t[] = { fs::Q_FIS_RULES_BEGIN, 0, 1, fs::Q_FIS_AND, 1, 3, fs::Q_FIS_THEN, 0, 1, fs::Q_FIS_AND, 1, 2, 0, -2, fs::Q_FIS_OR, 1, 4, fs::Q_FIS_THEN, 1, 3, fs::Q_FIS_RULES_END }; using Sys = fs::system<fs::Sugeno, 2, 2, 4, 3, 2>; alignas(16) unsigned char mem[sizeof(Sys)]; std::memset(mem, 0xEE, sizeof mem); Sys &s = *new (mem) Sys(t); VH_CHECK(s.setup(), "setup"); float p[4][2], c[3]; for (int k = 0; k < 4; ++k) { p[k][0] = rng.f(-5, 0); p[k][1] = rng.f(.5, 5); } for (auto &v : c) v = rng.f(-4, 4); fs::shapeMF sh[4] = { fs::linsmf, fs::linzmf, fs::smf, fs::zmf }; for (int i = 0; i < 2; ++i) VH_CHECK(s.setupInput((fs::tag)i, -6, 6) && s.setupOutput((fs::tag)i, -5, 5), "ranges"); for (int k = 0; k < 4; ++k) VH_CHECK(s.setupInputMF((fs::tag)(k / 2), (fs::tag)k, sh[k], p[k]), "input set"); for (int k = 0; k < 3; ++k) VH_CHECK(s.setupOutputMF((fs::tag)(k == 0 ? 0 : 1), (fs::tag)k, fs::constantmf, &c[k]), "output set"); float wt[2] = { rng.f(.1, 1), rng.f(.1, 1) }; bool ws = rng.chance(.5); if (ws) VH_CHECK(s.setRuleWeights(wt), "weights"); bool sum = rng.chance(.5); VH_CHECK(s.setDeFuzzMethod(sum ? fs::wtsum : fs::wtaver) && !s.setDeFuzzMethod(fs::centroid), "method"); bool prod = rng.chance(.5); VH_CHECK(s.setParameter(fs::FIS_AND, prod ? fs::FIS_PROD : fs::FIS_MIN), "operator"); VH_CHECK(s.getNumberOfPoints() > 0, "points");
    for (int i = 0; i < 20; ++i) { float x = rng.f(-7, 7), y = rng.f(-7, 7); int yi = (int)y; bool st = rng.chance(.5), in = rng.chance(.3); if (in) y = (float)yi; if (st) { s << (fs::tag)0 << x << (fs::tag)1; if (in) s << yi; else s << y; } else s.setInput(0, x), s.setInput(1, y); VH_CHECK(s.fuzzify() && s.inference() && s.deFuzzify(), "run"); double X = std::min(6., std::max(-6., (double)x)), Y = std::min(6., std::max(-6., (double)y)); auto ls = [&](int k, double v) { return clamp01((v - p[k][0]) / ((double)p[k][1] - p[k][0])); }; double m0 = ls(0, X), m1 = 1 - ls(1, X), m2 = muS(p[2][0], p[2][1], Y), m3 = 1 - muS(p[3][0], p[3][1], Y); double w0 = (prod ? m0 * m2 : std::min(m0, m2)) * (ws ? wt[0] : 1), w1 = std::max(1 - m1, m3) * (ws ? wt[1] : 1); if (w0 < 1e-3 || w1 < 1e-3) continue; double o0 = sum ? w0 * c[0] : c[0], o1 = sum ? w0 * c[1] + w1 * c[2] : (w0 * c[1] + w1 * c[2]) / (w0 + w1); o0 = std::min(5., std::max(-5., o0)); o1 = std::min(5., std::max(-5., o1)); float g0, g1; VH_CHECK(s.getOutput(0, g0) && s.getOutput(1, g1), "getOutput"); VH_CHECK(std::fabs(g0 - o0) < 1e-3 && std::fabs(g1 - o1) < 1e-3 && s[0] == g0 && s[1] == g1, "wrapper outputs %g %g, expected %g %g", g0, g1, o0, o1); seen(sig3(fb(x), fb(y), fb(g1))); }
    s.~Sys(); ev("wrapper");
}
// setting an object up again, for another system, leaves nothing of the previous one: operators, method, rule weights, selected input
MONITOR(setup_again, 5000, 120000) {
    World W1 = anyWorld(rng, (fs::type)rng.below(3)), W2 = anyWorld(rng, (fs::type)rng.below(3)); W2.implicit = true; std::shared_ptr<OnPattern<fs::instance>> o; { Live A(W1, (unsigned char)rng.u32()); std::vector<float> x; for (int i = 0; i < W1.ni; ++i) x.push_back(rng.f(W1.imin[(size_t)i], W1.imax[(size_t)i])); A.run(x, rng.chance(.8)); o = A.obj; } // the arrays of the first system are gone
    Live B(W2, 0x11, false, o), C(W2, 0x22); float stray = rng.f(-50, 50); B.s << stray; C.s << stray; VH_CHECK(B.s.fuzzify() && B.s.inference() && B.s.deFuzzify() && C.s.fuzzify() && C.s.inference() && C.s.deFuzzify(), "run"); auto same = [&](const char *w) { for (int k = 0; k < W2.no; ++k) { float b = B.s[(fs::tag)k], c = C.s[(fs::tag)k]; VH_CHECK(b == c || (std::isnan(b) && std::isnan(c)), "output %d of a system set up again %s is %.9g, of a new one %.9g", k, w, b, c); seen(sig2(fb(b), k)); } }; same("with no input given"); for (int it = 0; it < 4; ++it) { std::vector<float> x; for (int i = 0; i < W2.ni; ++i) x.push_back(rng.f(W2.imin[(size_t)i], W2.imax[(size_t)i])); B.run(x, rng.chance(.5)); C.run(x, rng.chance(.5)); same("after a run"); evaln(); } ev("setup_again");
}
// a constant table written in the rule statements means what it says
MONITOR(statements, 3000, 60000) {
    // the same rules, spelled out: input, set, negated, OR follows / output, set, negated
    std::vector<Rule> R; const fs::rules *t; size_t n; switch (idx % 3) {
        case 0: R = { { { { 0, 0, false, false } }, { { 0, 0, false } }, 1 } }; t = dsl::one; n = sizeof dsl::one / sizeof *t; break;
        case 1: R = { { { { 0, 0, false, false }, { 1, 4, true, false } }, { { 0, 0, false }, { 1, 2, false } }, 1 }, { { { 0, 0, true, true }, { 2, 6, false, true }, { 1, 3, false, false } }, { { 1, 3, false } }, 1 }, { { { 2, 5, true, false } }, { { 0, 1, false } }, 1 }, { { { 0, 2, false, false }, { 1, 4, false, false }, { 2, 5, false, true }, { 0, 1, true, false } }, { { 0, 1, false }, { 1, 2, true } }, 1 } }; t = dsl::four; n = sizeof dsl::four / sizeof *t; break;
        default: R = { { { { 1, 3, true, true }, { 1, 4, true, false } }, { { 1, 2, false } }, 1 }, { { { 1, 3, true, false }, { 0, 0, true, false } }, { { 0, 1, false } }, 1 } }; t = dsl::edge; n = sizeof dsl::edge / sizeof *t; }
    World W; W.type = fs::Sugeno; W.ni = 3; W.no = 2; W.dm = fs::wtaver; W.rules = R; const int of[] = { 0, 0, 0, 1, 1, 2, 2 }, oo[] = { 0, 0, 1, 1 }; for (int i = 0; i < 3; ++i) { W.imin.push_back(-10); W.imax.push_back(10); } for (int i = 0; i < 2; ++i) { W.omin.push_back(-30); W.omax.push_back(30); } for (int k = 0; k < 7; ++k) { Shape S; S.s = fs::gaussmf; S.p = { rng.f(2, 6), rng.f(-8, 8) }; W.in.push_back(S); W.inOf.push_back(of[k]); } for (int k = 0; k < 4; ++k) { Shape S; S.s = fs::constantmf; S.p = { rng.f(-20, 20) }; W.out.push_back(S); W.outOf.push_back(oo[k]); } if (rng.chance(.5)) W.andOp = fs::FIS_PROD; if (rng.chance(.5)) W.orOp = fs::FIS_PROBOR;
    Live A(W, (unsigned char)rng.u32()); Buf<fs::rules> tab(n); for (size_t i = 0; i < n; ++i) tab[i] = t[i]; VH_CHECK(A.t.size() == n && std::equal(A.t.begin(), A.t.end(), t), "a constant table and the same rules put together from single statements differ"); 
    // the same system on the user's constant table
    struct Moved { Live &L; explicit Moved(Live &l, const World &w, const fs::rules *q) : L(l) { VH_CHECK(l.s.setup(w.type, l.in.get(), 3, l.out.get(), 2, l.mi.get(), w.in.size(), l.mo.get(), w.out.size(), q, w.rules.size(), l.wi.p), "setup refused"); for (int i = 0; i < 3; ++i) l.s.setupInput((fs::tag)i, w.imin[(size_t)i], w.imax[(size_t)i]); for (int i = 0; i < 2; ++i) l.s.setupOutput((fs::tag)i, w.omin[(size_t)i], w.omax[(size_t)i]); for (size_t k = 0; k < w.in.size(); ++k) l.s.setupInputMF((fs::tag)w.inOf[k], (fs::tag)k, w.in[k].s, w.in[k].p.data()); for (size_t k = 0; k < w.out.size(); ++k) l.s.setupOutputMF((fs::tag)w.outOf[k], (fs::tag)k, w.out[k].s, w.out[k].p.data()); VH_CHECK(l.s.setParameter(fs::FIS_AND, (fs::paramValue)w.andOp) && l.s.setParameter(fs::FIS_OR, (fs::paramValue)w.orOp) && l.s.setDeFuzzMethod(w.dm), "operators"); } } moved(A, W, tab.p);
    for (int it = 0; it < 8; ++it) { std::vector<float> x; for (int i = 0; i < 3; ++i) x.push_back(rng.f(-11, 11)); bool edge = false; double tol = 0; auto w = W.strengths(W.degrees(x, edge, tol)); A.run(x, rng.chance(.5)); for (size_t k = 0; k < w.size(); ++k) VH_CHECK(std::fabs(A.wi[k] - w[k]) <= 2e-4, "strength of the rule in sentence %zu is %.9g, its statements say %.9g", k, A.wi[k], w[k]); for (int o = 0; o < 2; ++o) { double s = 0, z = 0; for (size_t k = 0; k < w.size(); ++k) for (auto &c : R[k].c) if (c.out == o) { s += w[k]; z += w[k] * W.out[(size_t)c.set].p[0]; } if (s < .05) continue; float g = A.s[(fs::tag)o]; VH_CHECK(std::fabs(g - z / s) <= 1e-5 * 40 * (1 + 1 / s), "output %d is %.9g, the statements say %.9g", o, g, z / s); seen(sig2(fb(g), o)); } evaln(); ev("statement_runs"); }
}
// rule tables of more than 2^16 items: the last sentences count as the first ones do
MONITOR(many_rules, 2, 20) {
    World W = anyWorld(rng, fs::Sugeno); while (W.in.size() < 2) W = anyWorld(rng, fs::Sugeno); W.rules.clear(); W.weights = idx % 2; size_t items = 1; while (items < 66000 + (size_t)(idx % 3) * 1000) { Rule R; int na = 1 + (int)rng.below(2); for (int q = 0; q < na; ++q) { int s = (int)rng.below(W.in.size()); R.a.push_back({ W.inOf[(size_t)s], s, rng.chance(.3), rng.chance(.5) }); } int s = (int)rng.below(W.out.size()); R.c.push_back({ W.outOf[(size_t)s], s, false }); R.weight = rng.f(0, 1); items += (size_t)na * 3 + 2; W.rules.push_back(R); }
    Live A(W, 0xFF); for (int it = 0; it < 6; ++it) { std::vector<float> x; for (int i = 0; i < W.ni; ++i) x.push_back(rng.f(W.imin[(size_t)i], W.imax[(size_t)i])); bool edge = false; double tol = 0; auto w = W.strengths(W.degrees(x, edge, tol)); A.run(x, rng.chance(.5)); if (edge) { ev("edge_skipped"); continue; } tol = 2 * tol + 2e-4; for (size_t k = 0; k < w.size(); ++k) VH_CHECK(std::fabs(A.wi[k] - w[k]) <= tol, "strength of rule %zu of %zu is %.9g, expected %.9g", k, w.size(), A.wi[k], w[k]); evaln(w.size()); seen(sig2(fb(x[0]), w.size())); ev("many_rules"); }
}
// one instance in use for more than 2^16 evaluations answers an input the last time as it did the first time
MONITOR(soak, 4, 60) {
    World W = anyWorld(rng, idx % 2 ? fs::Sugeno : fs::Tsukamoto); for (int t = 0; t < 200 && W.rules.size() * W.in.size() > 12; ++t) W = anyWorld(rng, idx % 2 ? fs::Sugeno : fs::Tsukamoto); Live A(W, 0xFF); std::vector<std::vector<float>> X, O, S; for (int k = 0; k < 12; ++k) { std::vector<float> x, o; for (int i = 0; i < W.ni; ++i) { double w = W.imax[i] - W.imin[i]; x.push_back(rng.f(W.imin[i] - .1 * w, W.imax[i] + .1 * w)); } Live B(W, 0x00); B.run(x, false); for (int i = 0; i < W.no; ++i) o.push_back(B.s[(fs::tag)i]); X.push_back(x); O.push_back(o); std::vector<float> s; for (size_t i = 0; i < W.rules.size(); ++i) s.push_back(B.wi[i]); S.push_back(s); } size_t N = 66000 + rng.below(6000);
    for (size_t k = 0; k < N; ++k) { size_t q = rng.below(X.size()); A.run(X[q], rng.chance(.3)); for (size_t i = 0; i < W.rules.size(); ++i) VH_CHECK(std::fabs(A.wi[i] - S[q][i]) <= 1e-6 || std::isnan(S[q][i]), "strength of rule %zu in evaluation %zu of one long run is %.9g, expected %.9g", i, k, A.wi[i], S[q][i]); for (int i = 0; i < W.no; ++i) { float g = A.s[(fs::tag)i], e = O[q][(size_t)i]; VH_CHECK((std::isnan(g) && std::isnan(e)) || g == e, "output %d in evaluation %zu of one long run is %.9g, a fresh system answers %.9g", i, k, g, e); } if (k % 64 == 0) seen(sig3(q, k, fb(A.s[0]))); } ev("long_run_evaluations", N);
}
VH_MAIN
