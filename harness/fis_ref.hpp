// Double-precision model of the fuzzy inference systems and generators of random ones.
#ifndef FIS_REF_HPP
#define FIS_REF_HPP
#include "vh.hpp"
#include <include/fis.hpp>
// rule tables are written with the statements the library provides for it; a table for random rules is put together from single statements
namespace vh { namespace dsl {
    namespace fis = qlibs::fis; using Tab = std::vector<fis::rules>; enum After { A_AND, A_OR, A_THEN, A_END };
    template <size_t N> inline void put(Tab &t, const int (&e)[N], size_t from) { for (size_t i = from; i < N; ++i) t.push_back((fis::rules)e[i]); }
    inline void begin(Tab &t) { const int e[] = { FIS_RULES_BEGIN }; put(t, e, 0); }
    inline void end(Tab &t) { const int e[] = { 0 FIS_RULES_END }; put(t, e, 1); }
    // the comma that opens a sentence comes from IF: the leading zero stands for what precedes it
    template <bool OPEN> inline void term(Tab &t, int v, int s, bool neg, After a) { switch (a) {
        #define VH_TERM(K) { if (OPEN) { if (neg) { const int e[] = { 0 IF v IS_NOT s K }; put(t, e, 1); } else { const int e[] = { 0 IF v IS s K }; put(t, e, 1); } } else if (neg) { const int e[] = { v IS_NOT s K }; put(t, e, 0); } else { const int e[] = { v IS s K }; put(t, e, 0); } break; }
        case A_AND: VH_TERM(AND) case A_OR: VH_TERM(OR) case A_THEN: VH_TERM(THEN) default: VH_TERM(END) } }
    // and as a user writes them, in constant tables
    enum : fis::tag { temp, hum, wind }; enum : fis::tag { cold, warm, hot, dry, wet, calm, gusty }; enum : fis::tag { fan, valve }; enum : fis::tag { slow, fast, shut, open };
    static const fis::rules one[] = { FIS_RULES_BEGIN IF temp IS cold THEN fan IS slow END FIS_RULES_END };
    static const fis::rules four[] = {
        FIS_RULES_BEGIN
            IF temp IS cold AND hum IS_NOT wet THEN fan IS slow AND valve IS shut END
            IF temp IS_NOT cold OR wind IS gusty OR hum IS cold + 3 THEN valve IS open END
            IF wind IS_NOT calm THEN fan IS fast END
            IF temp IS hot AND hum IS wet AND wind IS calm OR temp IS_NOT warm THEN fan IS fast AND valve IS_NOT shut END
        FIS_RULES_END };
    static const fis::rules edge[] = {
        FIS_RULES_BEGIN
            IF hum IS_NOT dry OR hum IS_NOT wet THEN valve IS 2 END
            IF hum IS_NOT 1 + 2 AND temp IS_NOT temp THEN fan IS 1 END
        FIS_RULES_END };
} }
#undef IF
#undef AND
#undef OR
#undef THEN
#undef IS
#undef IS_NOT
#undef END
namespace vh {
namespace fs = qlibs::fis;
inline double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
struct Shape { fs::shapeMF s; std::vector<float> p; float h = 1; bool custom = false; };
// user-supplied functions with the meaning of a built-in shape (a derived class may name the protected members)
template <class B> struct PeekT : B { template <class Q = PeekT> static auto get(const B &i, int) -> decltype((float)(i.*(&Q::value))) { return i.*(&Q::value); } template <class Q = PeekT> static double get(const B &, long) { return 0; }
    static float of(const B &i) { return (float)get(i, 0); } static bool named() { return sizeof(get(std::declval<const B &>(), 0)) == sizeof(float); } };
using Peek = PeekT<fs::ioBase>;
inline float userGauss(const fs::ioBase *const in, const float *p, const size_t) { double t = ((double)Peek::of(in[0]) - p[1]) / p[0]; return (float)std::exp(-t * t / 2); }
inline float userLinear(const fs::ioBase *const in, const float *p, const size_t n) { double z = p[n]; for (size_t i = 0; i < n; ++i) z += (double)p[i] * Peek::of(in[i]); return (float)z; }
inline float userConstant(const fs::ioBase *const, const float *p, const size_t) { return p[0]; }
inline fs::mfFunction userFn(fs::shapeMF s) { return !Peek::named() ? nullptr : s == fs::gaussmf ? userGauss : s == fs::linearmf ? userLinear : s == fs::constantmf ? userConstant : nullptr; }
static const char *const SHN[] = { "custommf", "trimf", "trapmf", "gbellmf", "gaussmf", "gauss2mf", "sigmf", "dsigmf", "psigmf", "pimf", "smf", "zmf", "singletonmf", "concavemf", "spikemf", "linsmf", "linzmf", "rectmf", "cosmf", "constantmf", "linearmf", "tlinsmf", "tlinzmf", "tconcavemf", "tsigmf", "tsmf", "tzmf", "trampmf" };
// membership degree, unscaled; `edge` reports that x is within single precision rounding of a discontinuity
inline double muS(double a, double b, double x) { if (x <= a) return 0; if (x >= b) return 1; double m = (a + b) / 2, t = x <= m ? (x - a) / (b - a) : (x - b) / (b - a); return x <= m ? 2 * t * t : 1 - 2 * t * t; }
inline double mu(const Shape &S, double x, bool &edge) {
    const std::vector<float> &p = S.p; auto close = [&](double c) { return std::fabs(x - c) <= 1e-5 * (1 + std::fabs(c)); }; auto ramp = [&](double a, double b) { if (a == b) { if (close(a)) edge = true; return x < a ? 0.0 : 1.0; } return clamp01((x - a) / (b - a)); };
    switch (S.s) {
        case fs::trimf: { double l = ramp(p[0], p[1]), r; if (p[1] == p[2]) { if (close(p[1])) edge = true; r = x > p[2] ? 0 : 1; } else r = clamp01((p[2] - x) / ((double)p[2] - p[1])); return std::min(l, r); }
        case fs::trapmf: { double l = ramp(p[0], p[1]), r; if (p[2] == p[3]) { if (close(p[2])) edge = true; r = x > p[3] ? 0 : 1; } else r = clamp01((p[3] - x) / ((double)p[3] - p[2])); return std::min(l, r); }
        case fs::gbellmf: return 1 / (1 + std::pow(std::fabs((x - p[2]) / p[0]), 2.0 * p[1]));
        case fs::gaussmf: { double t = (x - p[1]) / p[0]; return std::exp(-t * t / 2); }
        case fs::gauss2mf: { double l = x <= p[1] ? std::exp(-0.5 * std::pow((x - p[1]) / p[0], 2)) : 1, r = x >= p[3] ? std::exp(-0.5 * std::pow((x - p[3]) / p[2], 2)) : 1; return l * r; }
        case fs::sigmf: return 1 / (1 + std::exp(-(double)p[0] * (x - p[1])));
        case fs::dsigmf: return std::fabs(1 / (1 + std::exp(-(double)p[0] * (x - p[1]))) - 1 / (1 + std::exp(-(double)p[2] * (x - p[3]))));
        case fs::psigmf: return 1 / (1 + std::exp(-(double)p[0] * (x - p[1]))) / (1 + std::exp(-(double)p[2] * (x - p[3])));
        case fs::pimf: return muS(p[0], p[1], x) * (1 - muS(p[2], p[3], x));
        case fs::smf: return muS(p[0], p[1], x);
        case fs::zmf: return 1 - muS(p[0], p[1], x);
        case fs::singletonmf: { if (std::fabs(x - p[0]) <= 1e-3 * (1 + std::fabs(x)) && (float)x != p[0]) edge = true; return (float)x == p[0] ? 1 : 0; }
        case fs::concavemf: { double i = p[0], e = p[1]; if (i <= e) return x < e ? (e - i) / (2 * e - i - x) : 1; return x > e ? (i - e) / (i - 2 * e + x) : 1; }
        case fs::spikemf: return std::exp(-std::fabs(10 * (x - p[1]) / p[0]));
        case fs::linsmf: return ramp(p[0], p[1]);
        case fs::linzmf: return 1 - ramp(p[0], p[1]);
        case fs::rectmf: if (close(p[0]) || close(p[1])) edge = (float)x != p[0] && (float)x != p[1]; return x >= p[0] && x <= p[1] ? 1 : 0;
        case fs::cosmf: { double c = p[0], w = p[1]; return (x < c - w / 2 || x > c + w / 2) ? 0 : 0.5 * (1 + std::cos(2 / w * M_PI * (x - c))); }
        default: return p[0];
    } }
inline double muTol(fs::shapeMF s) { return s == fs::cosmf ? 1e-3 : 6e-6; }
inline std::vector<float> sorted(Rng &r, size_t n, double lo, double hi) { std::vector<float> v(n); for (auto &x : v) x = r.f(lo, hi); std::sort(v.begin(), v.end()); return v; }
inline Shape anyShape(Rng &r, double lo, double hi, bool smooth = false) {
    double w = hi - lo; Shape S; auto apart = [&](std::vector<float> v) { for (size_t i = 1; i < v.size(); ++i) if (v[i] - v[i - 1] < 0.02 * w) v[i] = v[i - 1] + (float)(0.02 * w); return v; };
    static const fs::shapeMF all[] = { fs::trimf, fs::trapmf, fs::gbellmf, fs::gaussmf, fs::gauss2mf, fs::sigmf, fs::dsigmf, fs::psigmf, fs::pimf, fs::smf, fs::zmf, fs::concavemf, fs::spikemf, fs::linsmf, fs::linzmf, fs::cosmf, fs::rectmf, fs::singletonmf };
    S.s = all[r.below(smooth ? 16 : 18)];
    switch (S.s) {
        case fs::trimf: S.p = apart(sorted(r, 3, lo, hi)); if (r.chance(.15)) S.p[0] = S.p[1]; else if (r.chance(.15)) S.p[2] = S.p[1]; break;
        case fs::trapmf: S.p = apart(sorted(r, 4, lo, hi)); if (r.chance(.15)) S.p[0] = S.p[1]; if (r.chance(.15)) S.p[3] = S.p[2]; if (r.chance(.1)) S.p[2] = S.p[1]; break;
        case fs::gbellmf: S.p = { (float)(w * r.uni(.05, .5)), r.f(.5, 4), r.f(lo, hi) }; break;
        case fs::gaussmf: S.p = { (float)(w * r.uni(.05, .5)), r.f(lo, hi) }; break;
        case fs::gauss2mf: { auto c = sorted(r, 2, lo, hi); if (r.chance(.1)) std::swap(c[0], c[1]); S.p = { (float)(w * r.uni(.05, .4)), c[0], (float)(w * r.uni(.05, .4)), c[1] }; break; }
        case fs::sigmf: S.p = { (float)(r.uni(1, 30) / w * (r.chance(.5) ? 1 : -1)), r.f(lo, hi) }; break;
        case fs::dsigmf: case fs::psigmf: S.p = { (float)(r.uni(1, 30) / w * (r.chance(.5) ? 1 : -1)), r.f(lo, hi), (float)(r.uni(1, 30) / w * (r.chance(.5) ? 1 : -1)), r.f(lo, hi) }; break;
        case fs::pimf: S.p = apart(sorted(r, 4, lo, hi)); break;
        case fs::smf: case fs::zmf: S.p = apart(sorted(r, 2, lo, hi)); break;
        case fs::linsmf: case fs::linzmf: S.p = apart(sorted(r, 2, lo, hi)); if (r.chance(.1) && !smooth) S.p[1] = S.p[0]; break;
        case fs::concavemf: S.p = apart(sorted(r, 2, lo, hi)); if (r.chance(.5)) std::swap(S.p[0], S.p[1]); break;
        case fs::spikemf: S.p = { (float)(w * r.uni(.3, 3)), r.f(lo, hi) }; break;
        case fs::cosmf: S.p = { r.f(lo, hi), (float)(w * r.uni(.2, 1.5)) }; break;
        case fs::rectmf: S.p = apart(sorted(r, 2, lo, hi)); break;
        default: S.p = { r.f(lo, hi) };
    }
    if (r.chance(.2)) S.h = r.f(.2, 1); S.custom = userFn(S.s) && r.chance(.3); return S; }
// Tsukamoto consequents: the inverse of a monotonic set, as a function of the firing strength w in (0,1]
inline Shape anyTsuk(Rng &r, double lo, double hi) { double d = hi - lo; Shape S; static const fs::shapeMF all[] = { fs::tlinsmf, fs::tlinzmf, fs::tconcavemf, fs::tsigmf, fs::tsmf, fs::tzmf, fs::trampmf }; S.s = all[r.below(7)]; float a = r.f(lo, lo + .45 * d), b = r.f(lo + .55 * d, hi); switch (S.s) { case fs::tsigmf: S.p = { (float)(r.uni(3, 30) / d * (r.chance(.5) ? 1 : -1)), r.f(lo, hi) }; break; case fs::tconcavemf: S.p = { a, b }; if (r.chance(.5)) std::swap(S.p[0], S.p[1]); break; case fs::trampmf: S.p = { a, b }; if (r.chance(.5)) std::swap(S.p[0], S.p[1]); break; default: S.p = { a, b }; } return S; }
inline double tsuk(const Shape &S, double w, double mn, double mx) { double a = S.p[0], b = S.p[1]; switch (S.s) {
    case fs::tlinsmf: return a + (b - a) * w; case fs::tlinzmf: return b - (b - a) * w; case fs::trampmf: return a + (b - a) * w; case fs::tconcavemf: return (a - b) / w + 2 * b - a;
    case fs::tsigmf: if (w >= 1) return a >= 0 ? mx : mn; if (w <= 0) return a >= 0 ? mn : mx; return b - std::log(1 / w - 1) / a;
    case fs::tsmf: return w <= .5 ? a + std::sqrt(w / 2) * (b - a) : b - std::sqrt((1 - w) / 2) * (b - a);
    default: return w >= .5 ? a + std::sqrt((1 - w) / 2) * (b - a) : b - std::sqrt(w / 2) * (b - a); } }

struct Ante { int in, set; bool neg; bool orNext; }; struct Cons { int out, set; bool neg; }; struct Rule { std::vector<Ante> a; std::vector<Cons> c; float weight; };
struct World {
    fs::type type; int ni, no; std::vector<Shape> in, out; std::vector<int> inOf, outOf; std::vector<float> imin, imax, omin, omax; std::vector<Rule> rules; bool weights = false, implicit = false; unsigned past = 0; /* what happened to the objects before */ int andOp = fs::FIS_MIN, orOp = fs::FIS_MAX, imp = fs::FIS_MIN, agg = fs::FIS_MAX; fs::deFuzzMethod dm = fs::centroid;
    std::vector<fs::rules> table() const { dsl::Tab t; dsl::begin(t); for (auto &r : rules) { for (size_t i = 0; i < r.a.size(); ++i) { auto k = i + 1 == r.a.size() ? dsl::A_THEN : r.a[i].orNext ? dsl::A_OR : dsl::A_AND; if (i) dsl::term<false>(t, r.a[i].in, r.a[i].set, r.a[i].neg, k); else dsl::term<true>(t, r.a[i].in, r.a[i].set, r.a[i].neg, k); } for (size_t i = 0; i < r.c.size(); ++i) dsl::term<false>(t, r.c[i].out, r.c[i].set, r.c[i].neg, i + 1 == r.c.size() ? dsl::A_END : dsl::A_AND); } dsl::end(t); return t; }
    static double op(int k, double a, double b) { switch (k) { case fs::FIS_MIN: return clamp01(std::min(a, b)); case fs::FIS_PROD: return clamp01(a * b); case fs::FIS_MAX: return clamp01(std::max(a, b)); case fs::FIS_PROBOR: return clamp01(a + b - a * b); default: return clamp01(a + b); } }
    std::vector<double> degrees(const std::vector<float> &x, bool &edge, double &tol) const { std::vector<double> m; for (size_t k = 0; k < in.size(); ++k) { int i = inOf[k]; double v = std::min((double)imax[i], std::max((double)imin[i], (double)x[i])); m.push_back(clamp01((double)in[k].h * mu(in[k], v, edge))); tol = std::max(tol, muTol(in[k].s)); } return m; }
    std::vector<double> strengths(const std::vector<double> &m) const { std::vector<double> w; for (auto &r : rules) { double s = 0; for (size_t i = 0; i < r.a.size(); ++i) { double v = m[(size_t)r.a[i].set]; if (r.a[i].neg) v = 1 - v; s = i == 0 ? v : op(r.a[i - 1].orNext ? orOp : andOp, s, v); } if (weights) s *= clamp01(r.weight); w.push_back(s); } return w; }
    double region(const std::vector<double> &w, int o, double x, bool &edge) const { double y = 0; for (size_t k = 0; k < rules.size(); ++k) for (auto &c : rules[k].c) if (c.out == o && w[k] > 0) { double v = (double)out[(size_t)c.set].h * mu(out[(size_t)c.set], x, edge); if (c.neg) v = 1 - v; y = op(agg, y, op(imp, w[k], v)); } return y; }
};
inline World anyWorld(Rng &r, fs::type t) {
    World W; W.type = t; bool large = r.chance(.01); W.ni = 1 + (int)r.below(large ? 12 : r.chance(.3) ? 6 : 3); W.no = 1 + (int)r.below(large ? 9 : 3);
    for (int i = 0; i < W.ni; ++i) { const float U = r.chance(.1) ? r.logf_(.1, 1e5) : 1.f; float a = U * r.f(-20, 10), b = a + U * r.f(2, 30); if (r.chance(.15)) { b -= a; a = 0; } else if (r.chance(.15)) { a -= b; b = 0; } W.imin.push_back(a); W.imax.push_back(b); int n = 1 + (int)r.below(large ? 30 : 4); for (int k = 0; k < n && W.in.size() < 120u; ++k) { W.in.push_back(anyShape(r, a, b)); W.inOf.push_back(i); } }
    for (int i = 0; i < W.no; ++i) { const float U = r.chance(.1) ? r.logf_(.1, 1e5) : 1.f; float a = U * r.f(-20, 10), b = a + U * r.f(2, 30); if (r.chance(.15)) { b -= a; a = 0; } else if (r.chance(.15)) { a -= b; b = 0; } W.omin.push_back(a); W.omax.push_back(b); int n = 1 + (int)r.below(large ? 40 : 4); if (large) n = std::min(n, 120 / W.no); for (int k = 0; k < n; ++k) { Shape S; if (t == fs::Mamdani) S = anyShape(r, a, b, true); else if (t == fs::Tsukamoto) S = anyTsuk(r, a, b); else if (r.chance(.5)) { S.s = fs::constantmf; S.p = { r.f(a, b) }; } else { S.s = fs::linearmf; for (int q = 0; q <= W.ni; ++q) S.p.push_back(r.f(-1, 1)); } if (userFn(S.s) && r.chance(.2)) S.custom = true; W.out.push_back(S); W.outOf.push_back(i); } }
    int nr = 1 + (int)r.below(large ? 500 : 7); for (int k = 0; k < nr; ++k) { Rule R; int na = 1 + (int)r.below(r.chance(.02) ? 12 : 3); for (int q = 0; q < na; ++q) { int s = (int)r.below(W.in.size()); R.a.push_back({ W.inOf[(size_t)s], s, r.chance(.2), r.chance(.4) }); } std::vector<int> os; for (int o = 0; o < W.no; ++o) if (r.chance(.7)) os.push_back(o); if (os.empty()) os.push_back((int)r.below((size_t)W.no)); if (r.chance(.3)) std::reverse(os.begin(), os.end()); for (int o : os) { int s; do s = (int)r.below(W.out.size()); while (W.outOf[(size_t)s] != o); R.c.push_back({ o, s, t == fs::Mamdani && r.chance(.12) }); } R.weight = r.chance(.1) ? r.f(-.5, 1.5) : r.f(0, 1); W.rules.push_back(R); }
    W.past = r.chance(.4) ? (unsigned)r.below(16) : 0u; W.implicit = r.chance(.4); W.weights = r.chance(.3); if (r.chance(.5)) W.andOp = fs::FIS_PROD; if (r.chance(.5)) W.orOp = fs::FIS_PROBOR; if (t == fs::Mamdani) { if (r.chance(.5)) W.imp = fs::FIS_PROD; if (r.chance(.6)) W.agg = r.chance(.5) ? fs::FIS_PROBOR : fs::FIS_SUM; W.dm = (fs::deFuzzMethod)r.below(5); } else W.dm = (t == fs::Sugeno && r.chance(.5)) ? fs::wtsum : fs::wtaver;
    return W; }
// a live system built for a world, with every array exactly sized on the heap
struct Live {
    const World &W; std::unique_ptr<fs::input[]> in; std::unique_ptr<fs::output[]> out; std::unique_ptr<fs::mf[]> mi, mo; std::vector<fs::rules> t; Buf<fs::rules> tab; Buf<float> wi, rw; std::shared_ptr<OnPattern<fs::instance>> obj; fs::instance &s; std::vector<std::unique_ptr<Buf<float>>> pts, reg;
    explicit Live(const World &W_, unsigned char fill = 0x5A, bool store = false, std::shared_ptr<OnPattern<fs::instance>> again = nullptr) : W(W_), in(new fs::input[(size_t)W.ni]), out(new fs::output[(size_t)W.no]), mi(new fs::mf[W.in.size()]), mo(new fs::mf[W.out.size()]), t(W.table()), tab(t.size()), wi(W.rules.size(), fill), rw(W.rules.size()), obj(again ? again : std::make_shared<OnPattern<fs::instance>>(fill)), s(**obj) {
        if (W.past & 4) { fs::instance other; VH_CHECK(other.setup(W.type, in.get(), (size_t)W.ni, out.get(), (size_t)W.no, mi.get(), W.in.size(), mo.get(), W.out.size(), tab.p, W.rules.size(), wi.p) && other.setupOutput(0, -1, 1) && other.setupInput(0, -1, 1), "setup refused"); } // of a system that is gone
        if (W.past & 8) { fs::rules bad[] = { fs::Q_FIS_RULES_BEGIN, 0, -1, fs::Q_FIS_OR, 0, 125, fs::Q_FIS_THEN, 0, 1, fs::Q_FIS_RULES_END }; float w1[1]; VH_CHECK(s.setup(W.type, in.get(), (size_t)W.ni, out.get(), (size_t)W.no, mi.get(), W.in.size(), mo.get(), W.out.size(), bad, 1, w1) && s.fuzzify() && !s.inference(), "a rule with the input set 125 of %zu is accepted", W.in.size()); }
        tab.set(t); VH_CHECK(s.setup(W.type, in.get(), (size_t)W.ni, out.get(), (size_t)W.no, mi.get(), W.in.size(), mo.get(), W.out.size(), tab.p, W.rules.size(), wi.p), "setup refused");
        for (int i = 0; i < W.ni; ++i) VH_CHECK(s.setupInput((fs::tag)i, W.imin[(size_t)i], W.imax[(size_t)i]), "setupInput refused"); for (int i = 0; i < W.no; ++i) VH_CHECK(s.setupOutput((fs::tag)i, W.omin[(size_t)i], W.omax[(size_t)i]), "setupOutput refused");
        auto keep = [&](const std::vector<float> &p) { pts.emplace_back(new Buf<float>(p.size())); pts.back()->set(p); return pts.back()->p; };
        if (W.past & 1) { static const float q[4] = { -1, 0, 1, 2 }; for (size_t k = 0; k < W.in.size(); ++k) VH_CHECK(s.setupInputMF((fs::tag)(W.ni - 1), (fs::tag)k, k & 1 ? fs::trimf : fs::trapmf, q, .35f), "setupInputMF refused"); for (size_t k = 0; k < W.out.size(); ++k) VH_CHECK(s.setupOutputMF((fs::tag)(W.no - 1), (fs::tag)k, k & 1 ? fs::trapmf : fs::constantmf, q, k & 1 ? .35f : 0.f), "setupOutputMF refused"); }
        for (size_t k = 0; k < W.in.size(); ++k) VH_CHECK(W.in[k].custom ? s.setupInputMF((fs::tag)W.inOf[k], (fs::tag)k, userFn(W.in[k].s), keep(W.in[k].p), W.in[k].h) : s.setupInputMF((fs::tag)W.inOf[k], (fs::tag)k, W.in[k].s, keep(W.in[k].p), W.in[k].h), "setupInputMF refused"); for (size_t k = 0; k < W.out.size(); ++k) VH_CHECK(W.out[k].custom ? s.setupOutputMF((fs::tag)W.outOf[k], (fs::tag)k, userFn(W.out[k].s), keep(W.out[k].p), W.out[k].h) : s.setupOutputMF((fs::tag)W.outOf[k], (fs::tag)k, W.out[k].s, keep(W.out[k].p), W.out[k].h), "setupOutputMF refused");
        // an operator that has its documented default may be left alone
        auto set = [&](fs::parameter q, int v, int dflt) { return (W.implicit && v == dflt) || s.setParameter(q, (fs::paramValue)v); }; VH_CHECK(set(fs::FIS_AND, W.andOp, fs::FIS_MIN) && set(fs::FIS_OR, W.orOp, fs::FIS_MAX) && set(fs::FIS_Implication, W.imp, fs::FIS_MIN) && set(fs::FIS_Aggregation, W.agg, fs::FIS_MAX), "operator refused"); if (!W.implicit || W.dm != (W.type == fs::Mamdani ? fs::centroid : fs::wtaver)) VH_CHECK(s.setDeFuzzMethod(W.dm), "defuzzification method %d refused", (int)W.dm);
        if (W.weights) { for (size_t k = 0; k < W.rules.size(); ++k) rw[k] = W.rules[k].weight; VH_CHECK(s.setRuleWeights(rw.p), "rule weights refused"); }
        if (store) for (int i = 0; i < W.no; ++i) { size_t n = s.getNumberOfPoints(); if (W.past & 2) { Buf<float> g0(n), g1(n); VH_CHECK(out[(size_t)i].storeAggregatedRegion(g0.p, g1.p, n), "region storage refused"); } reg.emplace_back(new Buf<float>(n)); reg.emplace_back(new Buf<float>(n)); VH_CHECK(!out[(size_t)i].storeAggregatedRegion(reg[reg.size() - 2]->p, reg.back()->p, n - 1), "a region shorter than the evaluation points is accepted"); VH_CHECK(out[(size_t)i].storeAggregatedRegion(reg[reg.size() - 2]->p, reg.back()->p, n), "region storage refused"); VH_CHECK(!out[(size_t)i].storeAggregatedRegion(nullptr, reg.back()->p, n) && !out[(size_t)i].storeAggregatedRegion(reg.back()->p, nullptr, n) && !out[(size_t)i].storeAggregatedRegion(reg.back()->p, reg.back()->p, n - 1), "unusable storage accepted"); } }
    void run(const std::vector<float> &x, bool stream) { for (int i = 0; i < W.ni; ++i) { if (stream) { s << (fs::tag)i; if (x[(size_t)i] == (float)(int)x[(size_t)i]) s << (int)x[(size_t)i]; else s << x[(size_t)i]; } else VH_CHECK(s.setInput((fs::tag)i, x[(size_t)i]), "setInput refused"); } VH_CHECK(s.fuzzify(), "fuzzify failed"); VH_CHECK(s.inference(), "inference of a valid rule table failed"); VH_CHECK(s.deFuzzify(), "deFuzzify failed"); wi.check("the rule strengths"); tab.check("the rule table"); for (auto &b : reg) b->check("the aggregated region"); for (auto &b : pts) b->check("membership function parameters"); }
};
}
#endif
