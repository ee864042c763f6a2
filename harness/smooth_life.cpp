// S03: smoother configuration and restart.
#include "smooth_ref.hpp"
using namespace vh; using namespace qlibs;
namespace {
float badUnit(Rng &r) { switch (r.below(6)) { case 0: return 0.f; case 1: return 1.f; case 2: return -r.f(0.001, 5); case 3: return 1 + r.f(0.0001, 5); case 4: return std::numeric_limits<float>::infinity(); default: return std::nanf(""); } }
float goodUnit(Rng &r) { return r.chance(0.1) ? 1e-6f : r.chance(0.1) ? 0.999999f : r.f(0.001, 0.999); }
// twin: an identically configured instance that never saw the refused calls
template <class S> void twins(Rng &r, const char *nm, S &a, S &b, std::function<bool(S &)> bad) {
    Signal s(r, 100); for (int i = 0; i < 20; ++i) { float x = s.next(); a.smooth(x); b.smooth(x); }
    for (int k = 0; k < 3; ++k) { VH_CHECK(!bad(a), "%s: invalid parameters accepted", nm); for (int i = 0; i < 5; ++i) { float x = s.next(), p = a.smooth(x), q = b.smooth(x); VH_CHECK(fb(p) == fb(q) || (p != p && q != q), "%s: a refused setup changed the output from %g to %g", nm, q, p); } }
    ev("refused_setup"); seen(sig2(hstr(nm), r.u64() & 0xFFFF));
}
}
MONITOR(refused, 7000, 200000) {
    Rng &r = rng; size_t n = 1 + r.below(12); Buf<float> w(n), w2(n), k(n), k2(n), p(n), p2(n), spare(n); float a = goodUnit(r);
    switch (idx % 11) {
        case 0: { smootherLPF1 x, y; VH_CHECK(x.setup(a) && y.setup(a), "LPF1 setup(%g) refused", a); twins<smootherLPF1>(r, "LPF1", x, y, [&](smootherLPF1 &s) { return s.setup(badUnit(r)); }); break; }
        case 1: { smootherLPF2 x, y; VH_CHECK(x.setup(a) && y.setup(a), "LPF2 setup(%g) refused", a); twins<smootherLPF2>(r, "LPF2", x, y, [&](smootherLPF2 &s) { return s.setup(badUnit(r)); }); break; }
        case 2: { smootherMWM1 x, y; VH_CHECK(x.setup(w.p, n) && y.setup(w2.p, n), "MWM1 setup refused"); twins<smootherMWM1>(r, "MWM1", x, y, [&](smootherMWM1 &s) { return r.chance(0.5) ? s.setup(nullptr, n) : s.setup(spare.p, 0); }); break; }
        case 3: { smootherMWM2 x, y; VH_CHECK(x.setup(w.p, n) && y.setup(w2.p, n), "MWM2 setup refused"); twins<smootherMWM2>(r, "MWM2", x, y, [&](smootherMWM2 &s) { return r.chance(0.5) ? s.setup(nullptr, n) : s.setup(spare.p, 0); }); break; }
        case 4: { smootherMOR1 x, y; VH_CHECK(x.setup(w.p, n, a) && y.setup(w2.p, n, a), "MOR1 setup refused"); twins<smootherMOR1>(r, "MOR1", x, y, [&](smootherMOR1 &s) { switch (r.below(3)) { case 0: return s.setup(nullptr, n, 0.5f); case 1: return s.setup(spare.p, 0, 0.5f); default: return s.setup(spare.p, n, badUnit(r)); } }); break; }
        case 5: { smootherMOR2 x, y; VH_CHECK(x.setup(w.p, n, a) && y.setup(w2.p, n, a), "MOR2 setup refused"); twins<smootherMOR2>(r, "MOR2", x, y, [&](smootherMOR2 &s) { switch (r.below(3)) { case 0: return s.setup(nullptr, n, 0.5f); case 1: return s.setup(spare.p, 0, 0.5f); default: return s.setup(spare.p, n, badUnit(r)); } }); break; }
        case 6: { smootherGMWF x, y; float c = (float)r.below(n); VH_CHECK(x.setup(1.5f, c, w.p, k.p, n) && y.setup(1.5f, c, w2.p, k2.p, n), "GMWF setup refused"); twins<smootherGMWF>(r, "GMWF", x, y, [&](smootherGMWF &s) { switch (r.below(5)) { case 4: return s.setup(1.f, 0.f, spare.p, nullptr, n); case 0: return s.setup(1.f, 0.f, nullptr, p.p, n); case 1: return s.setup(1.f, 0.f, spare.p, p.p, 0); case 2: return s.setup(r.chance(0.5) ? 0.f : -1.f, 0.f, spare.p, p.p, n); default: return s.setup(1.f, r.chance(.3) ? -r.logf_(1e-3, 1e3) : (float)n + (r.chance(0.3) ? 0.f : r.f(0, 3)), spare.p, p.p, n); } }); break; }
        case 7: { smootherEXPW x, y; VH_CHECK(x.setup(a) && y.setup(a), "EXPW setup(%g) refused", a); twins<smootherEXPW>(r, "EXPW", x, y, [&](smootherEXPW &s) { return s.setup(badUnit(r)); }); break; }
        case 8: { smootherKLMN x, y; float q = r.logf_(1e-3, 100), m = r.logf_(1e-3, 100), e = r.logf_(1e-3, 100); VH_CHECK(x.setup(q, m, e) && y.setup(q, m, e), "KLMN setup refused"); twins<smootherKLMN>(r, "KLMN", x, y, [&](smootherKLMN &s) { float v[3] = {1, 1, 1}; v[r.below(3)] = r.chance(0.4) ? 0.f : r.chance(0.2) ? std::nanf("") : -r.f(0.001, 10); return s.setup(v[0], v[1], v[2]); }); break; }
        case 9: { smootherDESF x, y; float bta = goodUnit(r); size_t N = r.below(9); VH_CHECK(x.setup(a, bta, N) && y.setup(a, bta, N), "DESF setup refused"); twins<smootherDESF>(r, "DESF", x, y, [&](smootherDESF &s) { return r.chance(0.5) ? s.setup(badUnit(r), 0.5f, 1) : s.setup(0.5f, badUnit(r), 1); }); break; }
        default: { smootherALNF x, y; float mu = r.chance(0.5) ? r.f(0.01, 0.9) : 0.f; float al = r.f(0.00001, 0.0001); VH_CHECK(x.setup(al, mu, n, w.p, k.p, p.p) && y.setup(al, mu, n, w2.p, k2.p, p2.p), "ALNF setup refused"); twins<smootherALNF>(r, "ALNF", x, y, [&](smootherALNF &s) { switch (r.below(5)) { case 4: return s.setup(0.1f, 0.f, n, spare.p, nullptr, nullptr); case 0: return s.setup(0.1f, 0.f, n, nullptr, spare.p, nullptr); case 1: return s.setup(0.1f, 0.f, 0, spare.p, spare.p, nullptr); case 2: return s.setup(badUnit(r), 0.f, n, spare.p, spare.p, nullptr); default: return s.setup(0.1f, r.chance(0.5) ? -0.1f : 1.f + (r.chance(.3) ? 0.f : r.f(0, 2)), n, spare.p, spare.p, nullptr); } }); break; }
    }
    for (auto *b : {&w, &w2, &k, &k2, &p, &p2, &spare}) b->check("smoother storage");
    for (size_t i = 0; i < n; ++i) VH_CHECK(spare.p == nullptr || fb(spare[i]) == 0xA5A5A5A5u, "a refused setup wrote to the buffer it was offered");
}
// after a restart (reset or an identical setup) the history is forgotten: same outputs as a new instance
MONITOR(restart, 9000, 300000) {
    bool win = rng.chance(0.5); int kind = win ? (int)rng.below(5) : (int)rng.below(6); uint64_t s0 = rng.u64(); Rng r1(s0), r2(s0);
    auto a = win ? makeWindowed(r1, kind) : makeRecursive(r1, kind), b = win ? makeWindowed(r2, kind) : makeRecursive(r2, kind); Signal s(rng, a->adaptive ? 1.0 : 100.0);
    for (int i = 0, n = 1 + (int)rng.below(80); i < n; ++i) a->s->smooth(s.next());
    bool viaSetup = rng.chance(0.5);
    if (viaSetup) VH_CHECK(a->again(), "%s: repeated setup refused", a->name.c_str()); else VH_CHECK(a->s->reset(), "%s: reset refused", a->name.c_str());
    for (int i = 0; i < 60; ++i) { float x = s.next(), p = a->s->smooth(x), q = b->s->smooth(x); VH_CHECK(fb(p) == fb(q) || (p != p && q != q) || p == q, "%s: output %d after %s is %.9g, a new instance gives %.9g", a->name.c_str(), i, viaSetup ? "setup" : "reset", p, q); seen(sig3(kind + 10 * win, fb(x), fb(p))); }
    ev(viaSetup ? "restart_setup" : "restart_reset"); eg("%s restarted by %s", a->name.c_str(), viaSetup ? "setup" : "reset");
}
// a new setup with other parameters, sizes and storage: same outputs as a new instance with that setup
namespace { struct Conf { int kind; size_t n; float a, b, c; bool prev; std::unique_ptr<Buf<float>> w, k, p;
    Conf(Rng &r, int kind_) : kind(kind_), n(1 + r.below(r.chance(.2) ? 40 : 8)), a(goodUnit(r)), b(r.f(.05, .95)), c(r.f(.1, 5)), prev(r.chance(.6)), w(new Buf<float>(n, 0xFF)), k(new Buf<float>(n, 0xFF)), p(new Buf<float>(n, 0xFF)) {}
    Conf(const Conf &o) : kind(o.kind), n(o.n), a(o.a), b(o.b), c(o.c), prev(o.prev), w(new Buf<float>(n, 0x3C)), k(new Buf<float>(n, 0x3C)), p(new Buf<float>(n, 0x3C)) {}
    std::unique_ptr<smoother> make() const { smoother *s; switch (kind) { case 0: s = new smootherLPF1; break; case 1: s = new smootherLPF2; break; case 2: s = new smootherMWM1; break; case 3: s = new smootherMWM2; break; case 4: s = new smootherMOR1; break; case 5: s = new smootherMOR2; break; case 6: s = new smootherGMWF; break; case 7: s = new smootherEXPW; break; case 8: s = new smootherKLMN; break; case 9: s = new smootherDESF; break; default: s = new smootherALNF; } return std::unique_ptr<smoother>(s); }
    bool apply(smoother *o) const { switch (kind) { case 0: return static_cast<smootherLPF1 *>(o)->setup(a); case 1: return static_cast<smootherLPF2 *>(o)->setup(a); case 2: return static_cast<smootherMWM1 *>(o)->setup(w->p, n); case 3: return static_cast<smootherMWM2 *>(o)->setup(w->p, n); case 4: return static_cast<smootherMOR1 *>(o)->setup(w->p, n, a); case 5: return static_cast<smootherMOR2 *>(o)->setup(w->p, n, a); case 6: return static_cast<smootherGMWF *>(o)->setup(c, b * (float)(n - 1), w->p, k->p, n); case 7: return static_cast<smootherEXPW *>(o)->setup(a); case 8: return static_cast<smootherKLMN *>(o)->setup(c, a, b); case 9: return static_cast<smootherDESF *>(o)->setup(a, b, n); default: return static_cast<smootherALNF *>(o)->setup(.01f * a, prev && b > .3f ? b : 0.f, n, w->p, k->p, prev ? p->p : nullptr); } }
    void check() const { w->check("the window"); k->check("the kernel or weights"); p->check("the previous weights"); } }; }
MONITOR(reconfigured, 6000, 200000) {
    int kind = (int)(idx % 11), K = 2 + (int)rng.below(3); std::vector<std::unique_ptr<Conf>> c; for (int i = 0; i < K; ++i) c.emplace_back(new Conf(rng, kind)); auto o = c[0]->make(); Signal s(rng, kind == 10 ? 1.0 : 100.0);
    for (int i = 0; i < K; ++i) { VH_CHECK(c[(size_t)i]->apply(o.get()), "setup %d of smoother %d refused", i, kind); Conf d(*c[(size_t)i]); auto q = d.make(); VH_CHECK(d.apply(q.get()), "setup of a new smoother %d refused", kind); for (int j = 0, N = 1 + (int)rng.below(50); j < N; ++j) { float x = s.next(), g = o->smooth(x), e = q->smooth(x); VH_CHECK(fb(g) == fb(e) || g == e, "smoother %d, setup %d (n=%zu): output %d is %.9g, a new instance gives %.9g", kind, i, d.n, j, g, e); seen(sig3(kind, fb(x), fb(g))); evaln(); } for (auto &x : c) x->check(); d.check(); if (i) ev("reconfigured"); }
}
// outputs do not depend on what the storage or the object's memory contained before
MONITOR(initial_memory, 4000, 60000) {
    size_t n = 1 + rng.below(10); float a = goodUnit(rng); unsigned char f1 = (unsigned char)rng.u32(), f2 = (unsigned char)~f1; int kind = (int)(idx % 11);
    std::vector<float> out[2];
    for (int rep = 0; rep < 2; ++rep) { unsigned char f = rep ? f2 : f1; Buf<float> w(n, f), k(n, f), p(n, f); Rng r(idx * 77 + 5); Signal s(r, kind == 10 ? 1.0 : 100.0); smoother *o = nullptr;
        OnPattern<smootherLPF1> s0(f); OnPattern<smootherLPF2> s1(f); OnPattern<smootherMWM1> s2(f); OnPattern<smootherMWM2> s3(f); OnPattern<smootherMOR1> s4(f); OnPattern<smootherMOR2> s5(f); OnPattern<smootherGMWF> s6(f); OnPattern<smootherEXPW> s7(f); OnPattern<smootherKLMN> s8(f); OnPattern<smootherDESF> s9(f); OnPattern<smootherALNF> sA(f); bool ok = false;
        switch (kind) { case 0: ok = s0->setup(a); o = s0.p; break; case 1: ok = s1->setup(a); o = s1.p; break; case 2: ok = s2->setup(w.p, n); o = s2.p; break; case 3: ok = s3->setup(w.p, n); o = s3.p; break; case 4: ok = s4->setup(w.p, n, a); o = s4.p; break; case 5: ok = s5->setup(w.p, n, a); o = s5.p; break; case 6: ok = s6->setup(2.f, 0.f, w.p, k.p, n); o = s6.p; break; case 7: ok = s7->setup(a); o = s7.p; break; case 8: ok = s8->setup(1, 2, 3); o = s8.p; break; case 9: ok = s9->setup(a, a, 3); o = s9.p; break; default: ok = sA->setup(0.001f, 0.2f, n, w.p, k.p, p.p); o = sA.p; }
        VH_CHECK(ok, "setup refused"); for (int i = 0; i < 25; ++i) out[rep].push_back(o->smooth(s.next())); }
    for (int i = 0; i < 25; ++i) VH_CHECK(fb(out[0][i]) == fb(out[1][i]), "smoother %d: output %d depends on the previous contents of memory (%g / %g)", kind, i, out[0][i], out[1][i]);
    seen(sig3(kind, n, f1)); ev("initial_memory");
}
// the array overloads and the documented default parameters configure the same smoother as the explicit call
namespace { template <class S> void agree(Rng &r, const char *nm, S &a, bool oka, S &b, bool okb) { VH_CHECK(oka && okb, "%s: setup refused (%d %d)", nm, (int)oka, (int)okb); Signal s(r, 2); for (int i = 0; i < 40; ++i) { float x = s.next(), p = a.smooth(x), q = b.smooth(x); VH_CHECK(fb(p) == fb(q) || p == q || (p != p && q != q), "%s: output %d is %.9g through the overload, %.9g through the explicit call", nm, i, p, q); seen(sig2(fb(x), fb(p))); } ev("overloads"); }
template <size_t N> void overloadCase(Rng &r, int kind) {
    float w[N], w2[N], k[N], k2[N], p[N], p2[N]; float a = goodUnit(r), sl = r.f(0.0001, 0.01);
    switch (kind) {
        case 0: { smootherLPF1 x, y; agree(r, "LPF1()", x, x.setup(), y, y.setup(0.9f)); break; }
        case 1: { smootherLPF2 x, y; agree(r, "LPF2()", x, x.setup(), y, y.setup(0.9f)); break; }
        case 2: { smootherEXPW x, y; agree(r, "EXPW()", x, x.setup(), y, y.setup(0.8f)); break; }
        case 3: { smootherMWM1 x, y; agree(r, "MWM1(array)", x, x.setup(w), y, y.setup(&w2[0], N)); break; }
        case 4: { smootherMWM2 x, y; agree(r, "MWM2(array)", x, x.setup(w), y, y.setup(&w2[0], N)); break; }
        case 5: { smootherMOR1 x, y; agree(r, "MOR1(array)", x, x.setup(w), y, y.setup(&w2[0], N, 0.9f)); agree(r, "MOR1(array,a)", x, x.setup(w, a), y, y.setup(&w2[0], N, a)); agree(r, "MOR1(pointer)", x, x.setup(&w[0], N), y, y.setup(&w2[0], N, 0.9f)); break; }
        case 6: { smootherMOR2 x, y; agree(r, "MOR2(array)", x, x.setup(w), y, y.setup(&w2[0], N, 0.9f)); agree(r, "MOR2(array,a)", x, x.setup(w, a), y, y.setup(&w2[0], N, a)); agree(r, "MOR2(pointer)", x, x.setup(&w[0], N), y, y.setup(&w2[0], N, 0.9f)); break; }
        case 7: { smootherGMWF x, y; float sg = r.f(0.5, 4), c = r.f(0, (double)N - 0.01); agree(r, "GMWF(array)", x, x.setup(sg, c, w, k), y, y.setup(sg, c, &w2[0], &k2[0], N)); break; }
        case 8: { smootherALNF x, y; float mu = r.f(0.01, 0.5); agree(r, "ALNF(arrays)", x, x.setup(sl, mu, w, k, p), y, y.setup(sl, mu, N, &w2[0], &k2[0], &p2[0])); break; }
        default: { smootherALNF x, y; agree(r, "ALNF(arrays, no momentum)", x, x.setup(sl, w, k), y, y.setup(sl, 0.f, N, &w2[0], &k2[0])); break; }
    } } }
MONITOR(overloads, 1500, 30000) { int kind = (int)(idx % 10); switch (idx / 10 % 4) { case 0: overloadCase<1>(rng, kind); break; case 1: overloadCase<2>(rng, kind); break; case 2: overloadCase<5>(rng, kind); break; default: overloadCase<16>(rng, kind); } }
// isInitialized follows the restart
MONITOR(initialised_flag, 200, 1000) { bool win = rng.chance(0.5); int kind = win ? (int)rng.below(5) : (int)rng.below(6); auto a = win ? makeWindowed(rng, kind) : makeRecursive(rng, kind); bool f0 = a->s->isInitialized(); a->s->smooth(1.f); bool f1 = a->s->isInitialized(); a->s->reset(); bool f2 = a->s->isInitialized(); VH_CHECK(!f0 && f1 && !f2, "%s: isInitialized is %d after setup, %d after the first sample and %d after reset", a->name.c_str(), f0, f1, f2); seen(sig3(kind, f0, f1)); ev("initialised_flag"); }
VH_MAIN
