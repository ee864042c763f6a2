// F04: invalid tags, parameters, methods and rule tables are refused, without touching memory outside of the system.
#include "fis_ref.hpp"
using namespace vh;
MONITOR(tags, 6000, 200000) {
    fs::type ty = (fs::type)rng.below(3); World W = anyWorld(rng, ty); Live A(W, 0x3C, ty == fs::Mamdani), B(W, 0x3C, ty == fs::Mamdani); size_t ni = (size_t)W.ni, no = (size_t)W.no; float cp[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
    for (int k = 0; k < 30; ++k) { int t = rng.chance(.6) ? (int)rng.range(-128, 127) : (int)rng.range(-2, 6), u = rng.chance(.6) ? (int)rng.range(-128, 127) : (int)rng.range(-2, 8); bool inI = t >= 0 && (size_t)t < ni, inO = t >= 0 && (size_t)t < no; float v = 77;
        if (!inI) { VH_CHECK(!A.s.setupInput((fs::tag)t, 0, 1) && !A.s.setInput((fs::tag)t, 1), "input tag %d accepted with %zu inputs", t, ni); A.s << (fs::tag)t; ev("bad_input_tag"); }
        if (!inO) { VH_CHECK(!A.s.setupOutput((fs::tag)t, 0, 1) && !A.s.getOutput((fs::tag)t, v) && v == 77, "output tag %d accepted with %zu outputs", t, no); (void)A.s[(fs::tag)t]; ev("bad_output_tag"); }
        bool okI = inI && u >= 0 && (size_t)u < W.in.size(), okO = inO && u >= 0 && (size_t)u < W.out.size(); if (!okI) { VH_CHECK(!A.s.setupInputMF((fs::tag)t, (fs::tag)u, fs::trimf, cp), "input set (%d,%d) accepted", t, u); ev("bad_set_tag"); } if (!okO) { VH_CHECK(!A.s.setupOutputMF((fs::tag)t, (fs::tag)u, fs::trimf, cp), "output set (%d,%d) accepted", t, u); ev("bad_set_tag"); } if (!okI) VH_CHECK(!A.s.setupInputMF((fs::tag)t, (fs::tag)u, userGauss, cp), "custom input set (%d,%d) accepted", t, u); if (!okO) VH_CHECK(!A.s.setupOutputMF((fs::tag)t, (fs::tag)u, userGauss, cp), "custom output set (%d,%d) accepted", t, u); VH_CHECK(!A.s.setupInputMF(0, 0, fs::FIS_NUM_MFS, cp), "unknown shape accepted"); seen(sig3(ni * 8 + no, (uint64_t)(t + 200), (uint64_t)(u + 200))); }
    for (int v = 0; v <= 4; ++v) { bool mp = v == fs::FIS_MIN || v == fs::FIS_PROD, orr = v == fs::FIS_MAX || v == fs::FIS_PROBOR; if (!mp) VH_CHECK(!A.s.setParameter(fs::FIS_AND, (fs::paramValue)v) && !A.s.setParameter(fs::FIS_Implication, (fs::paramValue)v), "operator %d accepted", v); if (!orr) VH_CHECK(!A.s.setParameter(fs::FIS_OR, (fs::paramValue)v), "OR operator %d accepted", v); if (mp) VH_CHECK(!A.s.setParameter(fs::FIS_Aggregation, (fs::paramValue)v), "aggregation operator %d accepted", v); } 
    for (int m = 0; m <= fs::FIS_NUM_DEFUZZ; ++m) { bool ok = ty == fs::Mamdani ? m <= fs::som : ty == fs::Sugeno ? (m == fs::wtaver || m == fs::wtsum) : m == fs::wtaver; if (!ok) { VH_CHECK(!A.s.setDeFuzzMethod((fs::deFuzzMethod)m), "defuzzification method %d accepted for type %d", m, (int)ty); ev("bad_method"); } } VH_CHECK(!A.s.setRuleWeights(nullptr), "null weights accepted");
    { int ki = (int)rng.below(W.in.size()), ko = (int)rng.below(W.out.size()), sh = (int)rng.below(fs::FIS_NUM_MFS); const float *none = nullptr; VH_CHECK(!A.s.setupInputMF((fs::tag)W.inOf[(size_t)ki], (fs::tag)ki, (fs::shapeMF)sh, none) && !A.s.setupOutputMF((fs::tag)W.outOf[(size_t)ko], (fs::tag)ko, (fs::shapeMF)sh, none), "shape %d accepted without parameters", sh); ev("no_parameters"); }
    { Buf<float> sx(100), sy(100); size_t np = A.s.getNumberOfPoints(), q = rng.below(np < 100 ? np : 100); fs::output &O = A.out[rng.below(no)]; VH_CHECK(!O.storeAggregatedRegion(sx.p, sy.p, q) && !O.storeAggregatedRegion(nullptr, sy.p, np) && !O.storeAggregatedRegion(sx.p, nullptr, np) && !O.storeAggregatedRegion(sx.p, sy.p, np - 1), "storage of %zu points accepted for %zu", q, np); sx.check("refused storage"); ev("short_storage"); }
    // none of the refused calls changed the behaviour
    std::vector<float> x; for (int i = 0; i < W.ni; ++i) x.push_back(rng.f(W.imin[(size_t)i], W.imax[(size_t)i])); A.run(x, false); B.run(x, false); for (int o = 0; o < W.no; ++o) { float a = A.s[(fs::tag)o], b = B.s[(fs::tag)o]; VH_CHECK(a == b || (std::isnan(a) && std::isnan(b)), "refused settings changed output %d: %g against %g", o, a, b); } for (size_t k = 0; k < A.reg.size(); ++k) VH_CHECK(A.reg[k]->vec() == B.reg[k]->vec(), "refused settings changed the stored region of output %zu", k / 2); for (size_t k = 0; k < A.reg.size(); k += 2) { float x0 = (*A.reg[k])[0], lo = W.omin[k / 2], hi = W.omax[k / 2]; VH_CHECK(x0 >= lo && x0 <= hi, "after a refused storage the region of output %zu is not stored (first abscissa %g)", k / 2, x0); } ev("unchanged");
}
// well-formed tables with indices that do not exist: inference says so
MONITOR(badrules, 12000, 400000) {
    fs::type ty = (fs::type)rng.below(3); World W = anyWorld(rng, ty); Live A(W, 0x00); size_t pos = 1; std::vector<size_t> idxIn, idxSet, idxOut, idxOSet, conn; for (auto &r : W.rules) { for (size_t i = 0; i < r.a.size(); ++i) { idxIn.push_back(pos); idxSet.push_back(pos + 1); conn.push_back(pos + 2); pos += 3; } for (size_t i = 0; i < r.c.size(); ++i) { if (i) ++pos; idxOut.push_back(pos); idxOSet.push_back(pos + 1); pos += 2; } } 
    int kind = (int)rng.below(6); size_t at; int v; switch (kind) { case 0: at = idxIn[rng.below(idxIn.size())]; do v = (int)rng.range(-120, 127); while (v >= 0 && v < W.ni); break; case 1: at = idxSet[rng.below(idxSet.size())]; do v = (int)rng.range(-120, 127); while (v != 0 && std::abs(v) <= (int)W.in.size()); break; case 2: at = idxOut[rng.below(idxOut.size())]; do v = (int)rng.range(-120, 127); while (v >= 0 && v < W.no); break; case 3: at = idxOSet[rng.below(idxOSet.size())]; do v = (int)rng.range(-120, 127); while (v != 0 && std::abs(v) <= (int)W.out.size()); break; case 4: at = conn[rng.below(conn.size())]; do v = (int)rng.range(-120, 127); while (v == fs::Q_FIS_AND || v == fs::Q_FIS_OR || v == fs::Q_FIS_THEN); break; default: at = 0; do v = (int)rng.range(-128, 127); while (v == fs::Q_FIS_RULES_BEGIN || v == fs::Q_FIS_RULES_END); }
    std::vector<float> x; for (int i = 0; i < W.ni; ++i) x.push_back(rng.f(W.imin[(size_t)i], W.imax[(size_t)i])); A.run(x, false); fs::rules old = A.tab[at]; A.tab[at] = (fs::rules)v; note("kind %d index %zu value %d", kind, at, v); VH_CHECK(!A.s.inference(), "inference accepts a rule table with %s %d (%d inputs, %zu sets, %d outputs, %zu output sets)", kind == 0 ? "input" : kind == 1 ? "input set" : kind == 2 ? "output" : kind == 3 ? "output set" : kind == 4 ? "connector" : "first item", v, W.ni, W.in.size(), W.no, W.out.size()); A.wi.check("the rule strengths"); A.tab[at] = old; A.run(x, false); char b[32]; snprintf(b, sizeof b, "bad_kind_%d", kind); ev(b); seen(sig3(kind, at, (uint64_t)(v + 200)));
}
// number of rules: declaring fewer or more than the table holds is detected
MONITOR(rulecount, 3000, 60000) {
    World W = anyWorld(rng, fs::Sugeno); Live A(W, 0x00); size_t n = W.rules.size(); std::vector<float> x; for (int i = 0; i < W.ni; ++i) x.push_back(rng.f(W.imin[(size_t)i], W.imax[(size_t)i])); int d = rng.chance(.5) ? 1 : -1; if (n == 1) d = 1; size_t n2 = n + d; Buf<float> wi(n2); A.s.setup(W.type, A.in.get(), (size_t)W.ni, A.out.get(), (size_t)W.no, A.mi.get(), W.in.size(), A.mo.get(), W.out.size(), A.tab.p, n2, wi.p); A.s.fuzzify(); VH_CHECK(!A.s.inference(), "inference succeeds with %zu rules declared and %zu in the table", n2, n); wi.check("the rule strengths"); ev(d > 0 ? "more_rules" : "fewer_rules"); seen(sig2(n, n2));
}
MONITOR(setup, 3000, 60000) {
    OnPattern<fs::instance> s((unsigned char)rng.u32()); float v = 5, cp[4] = { 0, 1, 2, 3 }; VH_CHECK(!s->fuzzify() && !s->inference() && !s->deFuzzify() && !s->setInput(0, 1) && !s->getOutput(0, v) && !s->setupInput(0, 0, 1) && !s->setupOutput(0, 0, 1) && !s->setupInputMF(0, 0, fs::trimf, cp) && !s->setupOutputMF(0, 0, fs::trimf, cp) && !s->setupInputMF(0, 0, userGauss, cp) && !s->setupOutputMF(0, 0, userGauss, cp), "a system that was never set up accepts calls"); VH_CHECK(v == 5, "getOutput wrote"); fs::output lone; VH_CHECK(!lone.storeAggregatedRegion(cp, cp, 4), "an output without a system accepts storage");
    fs::input in[2]; fs::output out[2]; fs::mf mi[3], mo[3]; fs::rules t[7] = { fs::Q_FIS_RULES_BEGIN, 0, 1, fs::Q_FIS_THEN, 0, 1, fs::Q_FIS_RULES_END }; float wi[1]; int m = (int)(idx % 512); bool ok = s->setup((fs::type)rng.below(3), (m & 2) ? in : nullptr, (m & 4) ? 2 : 0, (m & 8) ? out : nullptr, (m & 16) ? 1 : 0, (m & 32) ? mi : nullptr, (m & 64) ? 3 : 0, (m & 128) ? mo : nullptr, (m & 256) ? 3 : 0, t, 1, wi); VH_CHECK(ok == ((m | 1) == 511), "setup with mask %d -> %d", m, ok); fs::instance q; VH_CHECK(!q.setup(fs::Sugeno, in, 2, out, 1, mi, 3, mo, 3, nullptr, 1, wi) && !q.setup(fs::Sugeno, in, 2, out, 1, mi, 3, mo, 3, t, 0, wi), "setup without rules accepted"); VH_CHECK(q.setup(fs::Sugeno, in, 2, out, 1, mi, 3, mo, 3, t, 1), "setup without strength storage refused"); VH_CHECK(q.fuzzify() && !q.inference() && !q.deFuzzify(), "inference without storage for the rule strengths"); seen(m); ev("setup");
}
// a system with one output: whatever tag is asked for, the only value there is
MONITOR(single_output, 1500, 30000) {
    fs::rules t[] = { fs::Q_FIS_RULES_BEGIN, 0, 1, fs::Q_FIS_THEN, 0, 1, fs::Q_FIS_RULES_END }; fs::system<fs::Sugeno, 1, 1, 1, 1, 1> s(t); VH_CHECK(s.setup(), "setup"); float r[2] = { 0, 1 }, c[1] = { rng.f(.5, 4) }; VH_CHECK(s.setupInput(0, 0, 1) && s.setupOutput(0, -5, 5) && s.setupInputMF(0, 0, fs::linsmf, r) && s.setupOutputMF(0, 0, rng.chance(.5) ? userConstant : userLinear, c) == true, "setup"); VH_CHECK(s.setupOutputMF(0, 0, userConstant, c), "custom consequent refused"); int bad = rng.chance(.5) ? (int)rng.range(1, 127) : (int)rng.range(-128, -1); int iv = (int)rng.range(1, 3); s << (fs::tag)0 << iv; s << (fs::tag)bad; VH_CHECK(!s.setInput((fs::tag)bad, 0) && !s.setupInput((fs::tag)bad, 0, 1) && !s.setupOutput((fs::tag)bad, 0, 1) && !s.setupInputMF((fs::tag)bad, 0, fs::linsmf, r) && !s.setupInputMF(0, (fs::tag)bad, userGauss, r) && !s.setupOutputMF((fs::tag)bad, 0, fs::constantmf, r) && !s.setupOutputMF(0, (fs::tag)bad, userGauss, r), "tag %d accepted by a system with one of everything", bad); VH_CHECK(s.fuzzify() && s.inference() && s.deFuzzify(), "run"); float v = 77; VH_CHECK(!s.getOutput((fs::tag)bad, v) && v == 77, "output %d exists", bad); VH_CHECK(std::fabs(s[0] - c[0]) < 1e-5f, "output %g, expected %g", s[0], c[0]); VH_CHECK(s[(fs::tag)bad] == s[0], "operator[] with tag %d read something else: %g against %g", bad, s[(fs::tag)bad], s[0]); seen(sig2((uint64_t)(bad + 200), fb(c[0]))); ev("single_output");
}
// a tag that does not exist selects no input: the value that follows it has nowhere to go
template <class S> static void strayTag(Rng &rng, S &s, int ni, int no) {
    float x[3]; for (int i = 0; i < ni; ++i) { x[i] = rng.f(.1, .9); VH_CHECK(s.setInput((fs::tag)i, x[i]), "input"); } auto run = [&](std::vector<float> &v) { VH_CHECK(s.fuzzify() && s.inference() && s.deFuzzify(), "run"); for (int o = 0; o < no; ++o) { v.push_back(0); VH_CHECK(s.getOutput((fs::tag)o, v.back()) && s[(fs::tag)o] == v.back(), "output"); } }; std::vector<float> a, b; run(a);
    for (int k = 0; k < 4; ++k) { int t = rng.chance(.5) ? ni + (int)rng.below(4) : rng.chance(.5) ? (int)rng.range(ni, 127) : -1 - (int)rng.below(128); note("tag %d of %d inputs", t, ni); s << (fs::tag)t << rng.f(-3, 3); s << (fs::tag)t << (int)rng.range(-3, 3); for (int o = 0; o < no; ++o) { float v = 0; VH_CHECK(s.getOutput((fs::tag)o, v) && v == a[(size_t)o], "a value for the non-existing input %d changed output %d from %.9g to %.9g", t, o, a[(size_t)o], v); } }
    run(b); VH_CHECK(a == b, "a value for a non-existing input changed what the system computes: %.9g, was %.9g", b[0], a[0]); ev("stray_tag"); seen(sig3(fb(a[0]), (uint64_t)ni, (uint64_t)no)); }
MONITOR(stray_tags, 2000, 40000) {
    fs::rules t[] = { fs::Q_FIS_RULES_BEGIN, 0, 1, fs::Q_FIS_AND, 1, 2, fs::Q_FIS_THEN, 0, 1, fs::Q_FIS_AND, 1, 2, 0, 1, fs::Q_FIS_THEN, 1, 2, fs::Q_FIS_RULES_END }; float r[2] = { 0, 1 }, c[2] = { rng.f(.5, 4), rng.f(-4, -.5) };
    auto conf = [&](auto &s) { for (int i = 0; i < 2; ++i) VH_CHECK(s.setupInput((fs::tag)i, 0, 1) && s.setupOutput((fs::tag)i, -5, 5) && s.setupInputMF((fs::tag)i, (fs::tag)i, fs::linsmf, r) && s.setupOutputMF((fs::tag)i, (fs::tag)i, fs::constantmf, &c[i]), "configuration"); };
    fs::system<fs::Sugeno, 2, 2, 2, 2, 2> s(t); VH_CHECK(s.setup(), "setup"); conf(s); strayTag(rng, s, 2, 2);
    std::unique_ptr<fs::input[]> in(new fs::input[2]); std::unique_ptr<fs::output[]> ou(new fs::output[2]); std::unique_ptr<fs::mf[]> mi(new fs::mf[2]), mo(new fs::mf[2]); float w[2]; fs::instance f; VH_CHECK(f.setup(fs::Sugeno, in.get(), 2, ou.get(), 2, mi.get(), 2, mo.get(), 2, t, 2, w), "setup"); conf(f); strayTag(rng, f, 2, 2); }
VH_MAIN
