// M01: fixed-size matrices follow matrix algebra, leave their operands alone and stay inside their storage.
#include "vh.hpp"
#include <iostream>
#include <sstream>
#include <include/mat.hpp>
using namespace vh; using qlibs::mat;
typedef std::vector<double> D;
static double vScale = 1; static bool vInt = false; // vInt: small integers, every sum is exact
static float anyV0(Rng &r) { if (vInt) return (float)r.range(-5, 5); switch (r.below(6)) { case 0: return 0; case 1: return (float)r.range(-5, 5); case 2: return r.slogf_(1e-3, 1e3); default: return r.f(-10, 10); } }
static float anyV(Rng &r) { return (float)(vScale * (double)anyV0(r)); }
// a matrix in the middle of guarded memory
template <size_t R, size_t C> struct Held { Buf<float> b; mat<R, C> &m; Held() : b(sizeof(mat<R, C>) / sizeof(float), 0x66), m(*new (b.p) mat<R, C>()) { static_assert(sizeof(mat<R, C>) == R * C * sizeof(float), "matrix storage"); } void fill(Rng &r) { for (size_t i = 0; i < R * C; ++i) m(i) = anyV(r); } D d() const { D v; for (size_t i = 0; i < R * C; ++i) v.push_back(b.p[i]); return v; } void chk(const char *w) const { b.check(w); } };
template <size_t R, size_t C> static D dv(const mat<R, C> &m) { D v; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) v.push_back(m[i][j]); return v; }
template <class M> static void eq(const char *w, const M &m, const D &e, double mag, size_t C) { D g = dv(m); for (size_t i = 0; i < g.size(); ++i) { VH_CHECK(std::fabs(g[i] - e[i]) <= 4e-7 * (std::fabs(e[i]) + mag) + 1e-44, "%s: element (%zu,%zu) is %.9g, expected %.9g", w, i / C, i % C, g[i], e[i]); evaln(); } }
template <class F> static D each(const D &a, F f) { D o; for (double x : a) o.push_back(f(x)); return o; }
template <class F> static D zip(const D &a, const D &b, F f) { D o; for (size_t i = 0; i < a.size(); ++i) o.push_back(f(a[i], b[i])); return o; }
template <size_t R, size_t C, size_t N> static void shape(Rng &r) {
    Held<R, C> A, B; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) VH_CHECK(A.m[i][j] == 0, "a new matrix is not zero"); A.fill(r); B.fill(r); D a = A.d(), b = B.d(); float s = anyV(r); double S = s; double mg = 20 + std::fabs(S); note("%zux%zu by %zux%zu", R, C, C, N);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) VH_CHECK(A.m(i, j) == a[i * C + j] && A.m[i][j] == A.m(i, j) && A.m(i * C + j) == A.m(i, j) && &A.m(i, j) == &A.m[i][j] && ((const mat<R, C> &)A.m)(i * C + j) == A.m(i, j), "element access (%zu,%zu)", i, j);
    eq("A+B", A.m + B.m, zip(a, b, [](double x, double y) { return x + y; }), 0, C); eq("A-B", A.m - B.m, zip(a, b, [](double x, double y) { return x - y; }), 0, C); eq("-A", -A.m, each(a, [](double x) { return -x; }), 0, C);
    eq("A*s", A.m * s, each(a, [&](double x) { return x * S; }), 0, C); eq("s*A", s * A.m, each(a, [&](double x) { return x * S; }), 0, C); if (s != 0) eq("A/s", A.m / s, each(a, [&](double x) { return x / S; }), 0, C); eq("A+s", A.m + s, each(a, [&](double x) { return x + S; }), 0, C); eq("s+A", s + A.m, each(a, [&](double x) { return x + S; }), 0, C); eq("A-s", A.m - s, each(a, [&](double x) { return x - S; }), 0, C); eq("s-A", s - A.m, each(a, [&](double x) { return S - x; }), 0, C);
    D t(R * C); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) t[j * R + i] = a[i * C + j]; eq("transpose", !A.m, t, 0, R); eq("transpose of the transpose", !!A.m, a, 0, C);
    Held<C, N> P; P.fill(r); D p = P.d(), e(R * N), em(R * N); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < N; ++j) for (size_t k = 0; k < C; ++k) { e[i * N + j] += a[i * C + k] * p[k * N + j]; em[i * N + j] += std::fabs(a[i * C + k] * p[k * N + j]); } D g = dv(A.m * P.m); for (size_t i = 0; i < R * N; ++i) { VH_CHECK(std::fabs(g[i] - e[i]) <= (vInt ? 0 : std::max(1e-6, 1.2e-7 * (double)C)) * em[i] + 1e-30, "product (%zux%zu)(%zux%zu): element (%zu,%zu) is %.9g, expected %.9g", R, C, C, N, i / N, i % N, g[i], e[i]); evaln(); }
    // nothing above changed an operand
    VH_CHECK(A.d() == a && B.d() == b && P.d() == p, "an operation changed its operands");
    Held<R, C> Z; Z.m = A.m; VH_CHECK(Z.d() == a, "assignment"); mat<R, C> cp(A.m); VH_CHECK(dv(cp) == a, "copy"); mat<R, C> &self = Z.m; Z.m = self; VH_CHECK(Z.d() == a, "self assignment"); VH_CHECK(&(Z.m += B.m) == &Z.m, "+= returns another object"); eq("+=", Z.m, zip(a, b, [](double x, double y) { return x + y; }), 0, C); Z.m = A.m; Z.m -= B.m; eq("-=", Z.m, zip(a, b, [](double x, double y) { return x - y; }), 0, C); Z.m = A.m; Z.m *= s; eq("*= s", Z.m, each(a, [&](double x) { return x * S; }), 0, C); Z.m = A.m; if (s != 0) { Z.m /= s; eq("/= s", Z.m, each(a, [&](double x) { return x / S; }), 0, C); } Z.m = A.m; Z.m += s; eq("+= s", Z.m, each(a, [&](double x) { return x + S; }), 0, C); Z.m = A.m; Z.m -= s; eq("-= s", Z.m, each(a, [&](double x) { return x - S; }), 0, C); { size_t at = r.below(R * C); double E = a[at]; Z.m = A.m; Z.m *= Z.m(at); eq("*= own element", Z.m, each(a, [&](double x) { return x * E; }), 0, C); Z.m = A.m; if (E != 0) { Z.m /= Z.m(at); eq("/= own element", Z.m, each(a, [&](double x) { return x / E; }), 0, C); } Z.m = A.m; Z.m += Z.m(at); eq("+= own element", Z.m, each(a, [&](double x) { return x + E; }), 0, C); Z.m = A.m; Z.m -= Z.m(at); eq("-= own element", Z.m, each(a, [&](double x) { return x - E; }), 0, C); Z.m = A.m; Z.m = Z.m * Z.m(at); eq("A = A * own element", Z.m, each(a, [&](double x) { return x * E; }), 0, C); ev("own_element"); } Z.m = A.m; Z.m += Z.m; eq("A+=A", Z.m, each(a, [](double x) { return 2 * x; }), 0, C); Z.m -= Z.m; eq("A-=A", Z.m, D(R * C, 0.0), 0, C);
    Z.m = A.m; D up = each(a, [](double x) { return x + 1; }), dn = each(a, [](double x) { return x - 1; }); VH_CHECK(&++Z.m == &Z.m, "++ returns another object"); eq("++A", Z.m, up, 1, C); Z.m = A.m; mat<R, C> old = Z.m++; eq("A++ value", old, a, 0, C); eq("A++", Z.m, up, 1, C); Z.m = A.m; --Z.m; eq("--A", Z.m, dn, 1, C); Z.m = A.m; mat<R, C> old2 = Z.m--; eq("A-- value", old2, a, 0, C); eq("A--", Z.m, dn, 1, C);
    double ni = 0; for (size_t i = 0; i < R; ++i) { double q = 0; for (size_t j = 0; j < C; ++j) q += std::fabs(a[i * C + j]); ni = std::max(ni, q); } VH_CHECK(std::fabs(A.m.normInf() - ni) <= (vInt ? 0 : std::max(1e-6, 1.2e-7 * (double)C)) * ni, "normInf is %.9g, expected %.9g", A.m.normInf(), ni);
    if (r.chance(.05)) { std::ostringstream os; auto *o = std::cout.rdbuf(os.rdbuf()); A.m.display(); std::cout.rdbuf(o); std::istringstream is(os.str()); for (double x : a) { double y; VH_CHECK((bool)(is >> y) && std::fabs(y - x) <= 1e-4 * std::fabs(x) + 1e-9, "display prints something else"); } ev("display"); }
    A.chk("A"); B.chk("B"); P.chk("P"); Z.chk("Z"); ev(R == C ? "square" : "rectangular"); seen(sig3(R * 64 + C * 8 + N, fb((float)a[0]), fb(s))); }
template <size_t N> static bool dinv(const D &a, D &o) { double x[N][2 * N]; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { x[i][j] = a[i * N + j]; x[i][N + j] = i == j; } for (size_t i = 0; i < N; ++i) { size_t p = i; for (size_t j = i; j < N; ++j) if (std::fabs(x[j][i]) > std::fabs(x[p][i])) p = j; if (std::fabs(x[p][i]) < 1e-9) return false; for (size_t k = 0; k < 2 * N; ++k) std::swap(x[i][k], x[p][k]); double v = x[i][i]; for (size_t k = 0; k < 2 * N; ++k) x[i][k] /= v; for (size_t j = 0; j < N; ++j) if (j != i) { double f = x[j][i]; for (size_t k = 0; k < 2 * N; ++k) x[j][k] -= f * x[i][k]; } } o.assign(N * N, 0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) o[i * N + j] = x[i][N + j]; return true; }
template <size_t N> static double ninf(const D &a) { double m = 0; for (size_t i = 0; i < N; ++i) { double q = 0; for (size_t j = 0; j < N; ++j) q += std::fabs(a[i * N + j]); m = std::max(m, q); } return m; }
static float rng_any(Rng &r) { switch (r.below(4)) { case 0: return 0; case 1: return (float)r.range(-3, 3); case 2: return r.slogf_(1e-20, 1e20); default: return r.f(-100, 100); } }
template <size_t N> static void square(Rng &r) {
    Held<N, N> A; int kind = (int)r.below(6); A.fill(r); if (kind == 0) { std::vector<size_t> p; for (size_t i = 0; i < N; ++i) p.push_back(i); for (size_t i = N; i-- > 1;) std::swap(p[i], p[r.below(i + 1)]); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A.m(i, j) = p[i] == j ? r.slogf_(.1, 10) : 0; } if (kind == 1) for (size_t i = 0; i < N; ++i) A.m(i, i) = 0; if (kind == 2) for (size_t i = 0; i < N; ++i) A.m(i, i) += 30; if (kind == 3) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) A.m(i, j) = 0; if (kind == 4 && N > 1) A.m(0, 0) = 1e-7f;
    const float va = rng_any(r), vi = rng_any(r); D a = A.d(), ref; mat<N, N> I(qlibs::MAT_IDENTITY), Z(qlibs::MAT_ZERO), L(qlibs::MAT_ALL, va), I2(qlibs::MAT_IDENTITY, vi); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) VH_CHECK(I[i][j] == (i == j) && Z[i][j] == 0 && L[i][j] == va && I2[i][j] == (i == j ? vi : 0), "special matrix, element (%zu,%zu)", i, j); eq("A*I", A.m * I, a, 0, N); eq("I*A", I * A.m, a, 0, N); Held<N, N> Q; Q.m = A.m; Q.m *= A.m; D e = dv(A.m * A.m); VH_CHECK(Q.d() == e, "A *= A differs from A*A"); Q.m = A.m; Q.m *= Q.m; VH_CHECK(Q.d() == e, "A *= A (same object) differs from A*A"); Q.chk("Q");
    if (!dinv<N>(a, ref)) { ev("singular"); return; } double cond = ninf<N>(a) * ninf<N>(ref); if (cond > 3e3) { ev("ill_conditioned"); return; } note("inverse of %zux%zu kind %d cond %g", N, N, kind, cond); D g = dv(A.m.inv()); double mg = 0, er = 0; for (double x : ref) mg = std::max(mg, std::fabs(x)); for (size_t i = 0; i < N * N; ++i) er = std::max(er, std::fabs(g[i] - ref[i])); for (double x : g) VH_CHECK(std::isfinite(x), "the inverse of a %zux%zu matrix with condition number %.3g is not finite", N, N, cond); maxi("inverse error / (cond eps |inv|)", er / (cond * 1.2e-7 * mg)); VH_CHECK(er <= 10 * cond * 1.2e-7 * mg, "the inverse of a %zux%zu matrix (condition number %.3g) is off by %.3g, largest element %.3g", N, N, cond, er, mg); VH_CHECK(A.d() == a, "inv changed the matrix"); A.chk("A"); ev(kind == 0 ? "permutation" : kind == 1 ? "zero_diagonal" : "inverse"); seen(sig3(N, fb((float)a[0]), fb((float)g[0]))); if (N == 3) eg("3x3 kind %d condition number %.1f: inverse within %.2g", kind, cond, er); }
// matrices with more than 255 or 65535 rows, columns or elements; on a stack that holds the temporaries of the operators
#include <pthread.h>
struct Job { Rng *r; void (*f)(Rng &); bool bad; };
static void *bigStack(void *q) { Job *j = (Job *)q; try { j->f(*j->r); } catch (CaseAbort &) { j->bad = true; } return nullptr; }
static void onBigStack(Rng &r, void (*f)(Rng &)) { Job j = { &r, f, false }; pthread_attr_t at; pthread_t t; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)512 << 20); if (pthread_create(&t, &at, bigStack, &j)) { fprintf(stderr, "no thread\n"); _exit(9); } pthread_join(t, nullptr); pthread_attr_destroy(&at); if (j.bad) throw CaseAbort(); }
MONITOR(wide, 24, 200) { vScale = 1; vInt = true; static void (*const F[])(Rng &) = { shape<300, 3, 2>, shape<3, 300, 2>, shape<2, 3, 300>, shape<20, 20, 20>, shape<257, 2, 258>, shape<66000, 1, 1>, shape<1, 66000, 2>, shape<1, 2, 66000>, shape<260, 260, 1> }; size_t k = (size_t)(idx % 9); try { onBigStack(rng, F[k]); } catch (CaseAbort &) { vInt = false; throw; } vInt = false; ev(k < 5 ? "above_255" : "above_65535"); }
MONITOR(wide_square, 16, 200) { vScale = 1; if (idx % 2) onBigStack(rng, square<24>); else onBigStack(rng, square<17>); ev("above_255"); }
MONITOR(algebra, 24000, 900000) { vScale = rng.chance(.2) ? (double)rng.logf_(1e-12, 1e12) : 1; if (vScale != 1) ev("other_magnitudes"); if (rng.chance(.01)) { ev("large"); switch (rng.below(4)) { case 0: shape<3, 20, 2>(rng); break; case 1: shape<2, 40, 1>(rng); break; case 2: shape<35, 3, 4>(rng); break; default: shape<18, 17, 19>(rng); } return; } switch (rng.below(8)) { case 0: shape<1, 1, 1>(rng); break; case 1: shape<2, 2, 3>(rng); break; case 2: shape<3, 3, 3>(rng); break; case 3: shape<2, 3, 4>(rng); break; case 4: shape<3, 1, 2>(rng); break; case 5: shape<1, 5, 1>(rng); break; case 6: shape<4, 2, 5>(rng); break; default: shape<6, 4, 2>(rng); } }
MONITOR(square, 40000, 1500000) { vScale = 1; if (rng.chance(.005)) { square<12>(rng); return; } switch (rng.below(5)) { case 0: square<1>(rng); break; case 1: square<2>(rng); break; case 2: square<3>(rng); break; case 3: square<4>(rng); break; default: square<6>(rng); } }
MONITOR(listed, 2000, 40000) { vScale = 1; float v[6]; for (auto &x : v) x = anyV(rng); mat<2, 3> a(v[0], v[1], v[2], v[3], v[4], v[5]); mat<3, 2> b(v[0], (double)v[1], 3, v[3], v[4], v[5]); for (size_t i = 0; i < 6; ++i) VH_CHECK(a[i / 3][i % 3] == v[i] && b[i / 2][i % 2] == (i == 2 ? 3.0f : v[i]), "element %zu of a listed matrix", i); seen(sig2(fb(v[0]), fb(v[5]))); ev("listed"); }
VH_MAIN
