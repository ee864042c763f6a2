// Double-precision reference models of the smoothers, written from their
// published equations, keeping histories explicitly.
#ifndef SMOOTH_REF_HPP
#define SMOOTH_REF_HPP
#include <include/smoother.hpp>
#include "sig.hpp"
#include <deque>
namespace vh {
struct Ref { bool init = true; bool unsure = false; virtual ~Ref() {} virtual double slack() const { return 0; } /* rounding the recursion itself amplifies */ virtual double step(double x) = 0; virtual void reset() { init = true; } };
struct RLPF1 : Ref { double a, y = 0; explicit RLPF1(double a_) : a(a_) {} double step(double x) override { if (init) { y = x; init = false; } y = a * y + (1 - a) * x; return y; } };
struct RLPF2 : Ref { double k, b1, a1, a2, x1 = 0, x2 = 0, y1 = 0, y2 = 0; explicit RLPF2(double a) { double p = std::sqrt(2 * a), r = 1 + p + a * a; k = a * a / r; b1 = 2 * k; a1 = 2 * (a * a - 1) / r; a2 = (1 - p + a * a) / r; }
    double step(double x) override { if (init) { x1 = x2 = y1 = y2 = x; init = false; } double y = k * x + b1 * x1 + k * x2 - a1 * y1 - a2 * y2; x2 = x1; x1 = x; y2 = y1; y1 = y; return y; } };
struct RMean : Ref { size_t n; std::deque<double> h; explicit RMean(size_t n_) : n(n_) {} double step(double x) override { if (init) { h.assign(n, x); init = false; } h.push_front(x); h.pop_back(); double s = 0; for (double v : h) s += v; return s / (double)n; } };
struct ROutlier : Ref { size_t n; double a, m = 0, big = 0; size_t k = 0; std::deque<double> h; ROutlier(size_t n_, double a_) : n(n_), a(a_) {}
    // `unsure`: the accept/reject decision is within what single precision rounding can flip
    double step(double x) override { if (init) { h.assign(n, x); m = x; init = false; big = 0; k = 0; } big = std::max(big, std::fabs(x)); ++k; double d = std::fabs(m - x), t = a * std::fabs(m); if (std::fabs(d - t) <= 1e-3 * (d + t) + 2 * (2e-5 + 2e-6 * (double)k) * big) unsure = true; double v = d > t ? m : x; h.push_front(v); h.pop_back(); double s = 0; for (double q : h) s += q; m = s / (double)n; return v; } };
struct RGauss : Ref { size_t n; std::vector<double> c; std::deque<double> h; RGauss(double sg, double ctr, size_t n_) : n(n_) { double s = 0; for (size_t i = 0; i < n; ++i) { double d = (double)i - ctr; c.push_back(std::exp(-d * d / (2 * sg * sg))); s += c.back(); } for (auto &v : c) v /= s; }
    double step(double x) override { if (init) { h.assign(n, x); init = false; } h.push_front(x); h.pop_back(); double y = 0; for (size_t i = 0; i < n; ++i) y += c[i] * h[i]; return y; } };
struct REXPW : Ref { double l, m = 0, w = 1; explicit REXPW(double l_) : l(l_) {} double step(double x) override { if (init) { m = x; w = 1; init = false; } w = l * w + 1; m = m * (1 - 1 / w) + x / w; return m; } };
struct RKLMN : Ref { double q, r, p0, p, xs = 0, ep = 0, ex = 0; RKLMN(double q_, double r_, double p_) : q(q_), r(r_), p0(p_), p(p_) {} double slack() const override { return 3 * ex; }
    // ep, ex: first-order bounds of the relative error of the covariance (1-g loses digits when g is close to 1) and of the error of the state in single precision
    double step(double x) override { if (init) { xs = x; p = p0; ep = ex = 0; init = false; } ep = ep * p / (p + q) + 1.2e-7; p += q; double g = p / (p + r); ex = (1 - g) * ex + (g * (1 - g) * ep + 1.2e-7 * g) * std::fabs(x - xs) + 1.2e-7 * (std::fabs(x) + std::fabs(xs)); ep = ep * (1 - g) + 1.8e-7 / (1 - g); xs += g * (x - xs); p = (1 - g) * p; return xs; } };
struct RDESF : Ref { double a, b, l = 0, t = 0; double n; RDESF(double a_, double b_, double n_) : a(a_), b(b_), n(n_) {} double step(double x) override { if (init) { l = t = x; init = false; } double lp = l; l = (1 - a) * lp + a * x; t = (1 - b) * t + b * (l - lp); return l + n * t; } };
// the same recursion in double and in single precision: where the two drift apart the recursion amplifies rounding and the history is undecidable
template <class T> struct AlnfT { T a, mu; size_t n; std::deque<T> h; std::vector<T> w, w1; bool init = true;
    T step(T x) { if (init) { h.assign(n, x); w.assign(n, (T)1 / (T)n); w1 = w; init = false; } h.push_front(x); h.pop_back(); T y = 0; for (size_t i = 0; i < n; ++i) y += w[i] * h[i]; for (size_t i = 0; i < n; ++i) { T w0 = w[i]; w[i] += a * (x - y) * h[i] + mu * (w0 - w1[i]); w1[i] = w0; } return y; } };
struct RALNF : Ref { AlnfT<double> d; AlnfT<float> f; double spread = 0, unit; RALNF(double a_, double mu_, size_t n_, double unit_) : unit(unit_) { d.a = a_; d.mu = mu_; d.n = n_; f.a = (float)a_; f.mu = (float)mu_; f.n = n_; }
    double step(double x) override { if (init) { d.init = f.init = true; spread = 0; init = false; } double y = d.step(x), z = f.step((float)x), e = std::fabs(y - z); if (!(e <= 1e-4 * unit)) unsure = true; spread = std::max(spread, e); return y; } };

// One smoother instance with its storage, its reference and what is known about it.
struct Unit {
    std::string name; std::unique_ptr<qlibs::smoother> s; std::unique_ptr<Ref> ref; std::vector<std::unique_ptr<Buf<float>>> bufs; bool convex = false, adaptive = false; double maxIn = 0, lo = 0, hi = 0; bool fresh = true; double relTol = 2e-5; std::function<bool()> again; size_t steps = 0; double amplification = 1; float unit = 1; // size of the samples of an adaptive filter
   
    Buf<float> &buf(size_t n) { bufs.emplace_back(new Buf<float>(n, (n + bufs.size()) % 2 ? 0xFF : 0xA5)); return *bufs.back(); }
    float feed(float x) {
        if (fresh) { maxIn = 0; lo = hi = x; fresh = false; steps = 0; }
        maxIn = std::max(maxIn, (double)std::fabs(x)); lo = std::min(lo, (double)x); hi = std::max(hi, (double)x);
        float y = s->smooth(x); for (auto &b : bufs) b->check(name.c_str()); ++steps; return y;
    }
    void reset() { VH_CHECK(s->reset(), "%s: reset refused", name.c_str()); ref->reset(); fresh = true; }
};
inline double pickAlpha(Rng &r) { switch (r.below(5)) { case 0: return r.uni(0.001, 0.05); case 1: return r.uni(0.95, 0.999); default: return r.uni(0.02, 0.98); } }
inline size_t pickN(Rng &r) { switch (r.below(6)) { case 0: return 1; case 1: return 2; case 2: return 3; case 3: return r.chance(.12) ? 100 + r.below(500) : 20 + r.below(60); default: return 2 + r.below(14); } }
#define SETUP_OK(expr) VH_CHECK(expr, "%s: setup with valid parameters refused (%s)", u->name.c_str(), #expr)
inline std::unique_ptr<Unit> makeWindowed(Rng &r, int kind) {
    using namespace qlibs; std::unique_ptr<Unit> u(new Unit); size_t n = pickN(r); float a = (float)pickAlpha(r); u->convex = true;
    switch (kind) {
        case 0: { u->name = "MWM1"; auto *s = new smootherMWM1; u->s.reset(s); float *w = u->buf(n).p; u->again = [=] { return s->setup(w, n); }; u->ref.reset(new RMean(n)); break; }
        case 1: { u->name = "MWM2"; auto *s = new smootherMWM2; u->s.reset(s); float *w = u->buf(n).p; u->again = [=] { return s->setup(w, n); }; u->ref.reset(new RMean(n)); break; }
        case 2: { u->name = "MOR1"; auto *s = new smootherMOR1; u->s.reset(s); float *w = u->buf(n).p; u->again = [=] { return s->setup(w, n, a); }; u->ref.reset(new ROutlier(n, a)); break; }
        case 3: { u->name = "MOR2"; auto *s = new smootherMOR2; u->s.reset(s); float *w = u->buf(n).p; u->again = [=] { return s->setup(w, n, a); }; u->ref.reset(new ROutlier(n, a)); break; }
        default: { u->name = "GMWF"; auto *s = new smootherGMWF; u->s.reset(s); float *w = u->buf(n).p, *k = u->buf(n).p; float sg = r.chance(0.5) ? r.f(0.5, 3) : r.f(0.2, 30), c = (float)r.uni(0, (double)n - 0.01); if (r.chance(0.5)) c = (float)r.below(n); u->again = [=] { return s->setup(sg, c, w, k, n); }; u->ref.reset(new RGauss(sg, c, n)); u->relTol = 6e-5; break; }
    }
    char b[64]; snprintf(b, sizeof b, "%s(n=%zu)", u->name.c_str(), n); u->name = b; SETUP_OK(u->again()); return u;
}
inline std::unique_ptr<Unit> makeRecursive(Rng &r, int kind) {
    using namespace qlibs; std::unique_ptr<Unit> u(new Unit); float a = (float)pickAlpha(r); char b[96];
    switch (kind) {
        case 0: { auto *s = new smootherLPF1; u->s.reset(s); u->convex = true; u->again = [=] { return s->setup(a); }; u->ref.reset(new RLPF1(a)); snprintf(b, sizeof b, "LPF1(%g)", a); break; }
        case 1: { a = (float)r.uni(0.05, 0.98); auto *s = new smootherLPF2; u->s.reset(s); u->again = [=] { return s->setup(a); }; u->ref.reset(new RLPF2(a)); snprintf(b, sizeof b, "LPF2(%g)", a); u->relTol = 2e-3; break; }
        case 2: { auto *s = new smootherEXPW; u->s.reset(s); u->convex = true; u->again = [=] { return s->setup(a); }; u->ref.reset(new REXPW(a)); snprintf(b, sizeof b, "EXPW(%g)", a); u->relTol = 1e-4; break; }
        case 3: { auto *s = new smootherKLMN; u->s.reset(s); u->convex = true; float q = r.logf_(1e-3, 100), m = r.logf_(1e-3, 100), p = r.logf_(1e-3, 100); u->again = [=] { return s->setup(q, m, p); }; u->ref.reset(new RKLMN(q, m, p)); snprintf(b, sizeof b, "KLMN(%g,%g,%g)", q, m, p); u->relTol = 2e-4; break; }
        case 4: { auto *s = new smootherDESF; u->s.reset(s); float be = (float)pickAlpha(r); size_t n = r.chance(.1) ? r.below(100000) : r.below(12); u->again = [=] { return s->setup(a, be, n); }; u->ref.reset(new RDESF(a, be, (double)n)); u->amplification = 1 + (double)n; snprintf(b, sizeof b, "DESF(%g,%g,%zu)", a, be, n); u->relTol = 1e-4; break; }
        default: { size_t n = 1 + r.below(12); if (r.chance(.5)) u->unit = std::ldexp(1.f, (int)r.range(-2, 10)); float al = r.f(0.0005, 0.05) / (u->unit * u->unit), mu = r.chance(0.5) ? r.f(0.01, 0.6) : 0.f; auto *s = new smootherALNF; u->s.reset(s); u->adaptive = true; float *w = u->buf(n).p, *k = u->buf(n).p, *k1 = (mu > 0 ? !r.chance(.15) : r.chance(0.3)) ? u->buf(n).p : nullptr; /* no array for the previous weights: momentum is ignored */ u->again = [=] { return s->setup(al, mu, n, w, k, k1); }; u->ref.reset(new RALNF(al, k1 ? mu : 0.f, n, u->unit)); snprintf(b, sizeof b, "ALNF(%g,%g,%zu)", al, mu, n); u->relTol = 2e-3; break; }
    }
    u->name = b; SETUP_OK(u->again()); return u;
}
// drive one unit with a signal, online-checking each output; returns false when
// the remainder of the history is undecidable in single precision
inline bool drive(Unit &u, Signal &sg, int steps, uint64_t kindSig, double ampCap) {
    bool first = u.fresh;
    for (int i = 0; i < steps; ++i) {
        float x = sg.next(); if (u.adaptive && std::fabs(x) > 3) x = std::fmod(x, 3.f); if (u.adaptive) x *= u.unit;
        float y = u.feed(x); double e = u.ref->step(x);
        if (u.ref->unsure) { ev("threshold_tie_skipped"); return false; }
        double tol = u.relTol * (u.maxIn * u.amplification + std::fabs(e)) + 1e-30 + (u.name[0] == 'M' ? 2e-6 : 8e-8) * (double)u.steps * u.maxIn + u.ref->slack();
        if (u.adaptive) { if (!(std::fabs(e) < 50 * u.unit)) { ev("adaptive_diverged_skipped"); return false; } tol = 1e-4 * u.unit + 50 * static_cast<RALNF *>(u.ref.get())->spread; }
        VH_CHECK(std::fabs((double)y - e) <= tol, "%s: output %zu after (re)start is %.9g, expected %.9g (tolerance %g, input %.9g)", u.name.c_str(), u.steps, y, e, tol, x);
        if (first && i == 0 && !u.adaptive && u.name[0] != 'D') VH_CHECK(std::fabs((double)y - x) <= 2e-5 * std::fabs(x) + 1e-30, "%s: first output %.9g does not equal the first input %.9g", u.name.c_str(), y, x);
        if (u.convex) { double m = tol; VH_CHECK(y >= u.lo - m && y <= u.hi + m, "%s: output %.9g leaves the range [%.9g,%.9g] of its inputs", u.name.c_str(), y, u.lo, u.hi); ev("range_checked"); }
        seen(sig3(kindSig, fb(x), fb(y)));
    }
    (void)ampCap; return true;
}
}
#endif
