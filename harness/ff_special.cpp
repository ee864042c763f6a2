// X04: special functions against the C++17 <cmath> special functions evaluated
// in double precision; polynomial families are bounded by their conditioning.
#include "vh.hpp"
#include <include/ffmath.hpp>
using namespace vh;
namespace ff = qlibs::ffmath;
static const double EPS = 1.1920929e-7;
static void near1(const char *n, double a, double b, double got, double e, double tol) {
    std::string k = std::string("err/tol ") + n; if (tol > 0) maxi(k.c_str(), std::fabs(got - e) / tol);
    VH_CHECK(std::fabs(got - e) <= tol, "%s(%.9g,%.9g) is %.9g, expected %.9g within %.3g", n, a, b, got, e, tol); seen(sig3(hstr(n), fb((float)a), fb((float)b))); ev(n); }
MONITOR(gamma, 300000, 8000000) {
    float x = rng.chance(.3) ? rng.logf_(1e-6, .2) : (float)rng.uni(.05, 34.5); note("gamma %.9g", x); double e = std::tgamma((double)x); near1("tgamma", x, 0, ff::tgamma(x), e, e * (x < 12 ? 1.5e-6 : 3e-5));
    x = rng.chance(.3) ? rng.logf_(1e-6, 1) : rng.chance(.3) ? rng.logf_(1, 4e36) : (float)rng.uni(.01, 171); e = std::lgamma((double)x); near1("lgamma", x, 0, ff::lgamma(x), e, 6e-7 + 4e-7 * std::fabs(e));
    x = rng.chance(.2) ? (float)rng.uni(-400, -10) : (float)rng.uni(-10, -.01); double fr = std::fabs(x - std::round(x)); if (fr > .01) { note("gamma %.9g", x); e = std::tgamma((double)x); near1("tgamma_negative", x, 0, ff::tgamma(x), e, std::fabs(e) * (x < -34 ? 1.013 : std::min(2.2e-2, 6e-4 / fr)) + 1.2e-38); e = std::lgamma((double)x); near1("lgamma_negative", x, 0, ff::lgamma(x), e, 1.6e-2 + 6e-7 * std::fabs(e)); }
    x = rng.logf_(1e-37, 1e-6); note("gamma %.9g", x); e = std::tgamma((double)x); near1("tgamma_tiny", x, 0, ff::tgamma(x), e, e * 4e-6); e = std::lgamma((double)x); near1("lgamma_tiny", x, 0, ff::lgamma(x), e, 4e-6 * e); x = rng.logf_(4.1e36, 3.4e38); VH_CHECK(ff::lgamma(x) == INFINITY || std::fabs(ff::lgamma(x) / std::lgamma((double)x) - 1) < 1e-6, "lgamma(%.9g) is %.9g", x, ff::lgamma(x));
    int k = (int)rng.below(35); e = std::tgamma(k + 1.); VH_CHECK(std::fabs(ff::factorial((float)k) - e) <= e * 1.2e-7, "factorial(%d) is %.9g, expected %.9g", k, ff::factorial((float)k), e); VH_CHECK(ff::factorial((float)(34 + rng.logf_(.001, 1e30))) == INFINITY && std::isnan(ff::factorial(-rng.logf_(1e-6, 1e30))) && std::isnan(ff::factorial(NAN)), "factorial outside its domain");
    VH_CHECK(std::isnan(ff::tgamma(NAN)) && ff::tgamma(0) == INFINITY && ff::tgamma(INFINITY) == INFINITY && std::isnan(ff::tgamma(-INFINITY)) && std::isnan(ff::tgamma(-(float)(k + 1))) && ff::tgamma(172 + (float)k) == INFINITY && ff::lgamma(0) == INFINITY && ff::lgamma(-(float)(k + 1)) == INFINITY && std::isnan(ff::lgamma(NAN)) && ff::lgamma(INFINITY) == INFINITY, "gamma functions at a pole or outside the domain");
    float a = (float)rng.uni(.1, 40), b = (float)rng.uni(.1, 40); if (rng.chance(.2)) a = (float)rng.uni(40, 400), b = (float)rng.uni(.1, rng.chance(.5) ? 10 : 60); if (rng.chance(.5)) std::swap(a, b); note("beta %.9g %.9g", a, b); e = std::exp(std::lgamma((double)a) + std::lgamma((double)b) - std::lgamma((double)a + b)); VH_CHECK(std::isnan(ff::beta(NAN, a)) && std::isnan(ff::beta(a, NAN)), "beta of NaN"); if (e > 1e-30) near1("beta", a, b, ff::beta(a, b), e, e * (2e-6 + 4e-7 * (std::fabs(std::lgamma((double)a)) + std::fabs(std::lgamma((double)b)) + std::fabs(std::lgamma((double)a + b))))); float b1 = ff::beta(a, b), b2 = ff::beta(b, a); VH_CHECK(b1 == b2 || std::fabs((double)b1 - b2) <= 1e-4 * b1, "beta is not symmetric at %.9g, %.9g", a, b); evaln(3); }
MONITOR(elliptic, 150000, 4000000) {
    float k = (float)rng.uni(-.99, .99), phi = (float)rng.uni(-1.5, 1.5), nu = (float)rng.uni(-.9, .9); note("elliptic k=%.9g phi=%.9g nu=%.9g", k, phi, nu); double e;
    e = std::comp_ellint_1((double)k); near1("comp_ellint_1", k, 0, ff::comp_ellint_1(k), e, e * 7e-6); e = std::comp_ellint_2((double)k); near1("comp_ellint_2", k, 0, ff::comp_ellint_2(k), e, e * 1.8e-5);
    e = std::comp_ellint_3((double)k, (double)nu); near1("comp_ellint_3", k, nu, ff::comp_ellint_3(k, nu), e, e * 2.2e-3);
    float kk = k * .95f; e = std::ellint_1((double)kk, (double)phi); near1("ellint_1", kk, phi, ff::ellint_1(kk, phi), e, 3.5e-3); e = std::ellint_2((double)kk, (double)phi); near1("ellint_2", kk, phi, ff::ellint_2(kk, phi), e, 1.5e-3); e = std::ellint_3((double)kk, (double)nu, (double)phi); near1("ellint_3", kk, phi, ff::ellint_3(kk, nu, phi), e, 2e-3 + 5e-3 * std::fabs(e));
    float big = (float)rng.uni(-12, 12), c = (float)(std::remainder((double)big, M_PI)); if (std::fabs(c) < 1.45) { note("elliptic k=%.9g phi=%.9g", kk, big); e = std::ellint_1((double)kk, (double)big); near1("ellint_1_beyond", kk, big, ff::ellint_1(kk, big), e, 3.5e-3); e = std::ellint_2((double)kk, (double)big); near1("ellint_2_beyond", kk, big, ff::ellint_2(kk, big), e, 1.5e-3); e = std::ellint_3((double)kk, (double)nu, (double)big); near1("ellint_3_beyond", kk, big, ff::ellint_3(kk, nu, big), e, 2e-3 + 5e-3 * std::fabs(e)); }
    float out = (rng.chance(.5) ? 1 : -1) * (1 + rng.logf_(1e-4, 1e3)); VH_CHECK(std::isnan(ff::comp_ellint_1(out)) && std::isnan(ff::comp_ellint_2(out)) && std::isnan(ff::comp_ellint_3(out, nu)) && std::isnan(ff::ellint_1(out, phi)) && std::isnan(ff::ellint_2(out, phi)) && std::isnan(ff::ellint_3(out, nu, phi)), "elliptic integral with modulus %.9g is not NaN", out); VH_CHECK(std::isnan(ff::comp_ellint_1(NAN)) && std::isnan(ff::comp_ellint_2(NAN)) && std::isnan(ff::comp_ellint_3(NAN, nu)) && std::isnan(ff::comp_ellint_3(k, NAN)) && std::isnan(ff::ellint_1(NAN, phi)) && std::isnan(ff::ellint_1(k, NAN)) && std::isnan(ff::ellint_2(NAN, phi)) && std::isnan(ff::ellint_2(k, NAN)) && std::isnan(ff::ellint_3(NAN, nu, phi)) && std::isnan(ff::ellint_3(k, NAN, phi)) && std::isnan(ff::ellint_3(k, nu, NAN)), "elliptic integral of NaN"); VH_CHECK(ff::comp_ellint_2(1) == 1 && ff::comp_ellint_2(-1) == 1 && ff::comp_ellint_3(kk, 1) == INFINITY, "elliptic integrals at the end of the domain"); evaln(2); }
MONITOR(expint_, 200000, 5000000) {
    float x = rng.chance(.3) ? rng.slogf_(1e-6, 1) : (float)rng.uni(-87, 87); if (rng.chance(.1)) x = (float)rng.uni(-1.2, -.8); if (rng.chance(.02)) x = -rng.logf_(90, 1e6); if (rng.chance(.1)) x = (float)rng.uni(35.5, 36.5); note("expint %.9g", x); double e = x < -600 ? -0. : std::expint((double)x); near1(x < 0 ? "expint_negative" : "expint", x, 0, ff::expint(x), e, x < 0 ? 2e-38 + std::fabs(e) * 2e-5 : 1e-6 + std::fabs(e) * 7e-6); VH_CHECK(std::isnan(ff::expint(NAN)), "expint(NaN)"); }
MONITOR(polynomials, 300000, 6000000) {
    unsigned n = (unsigned)rng.below(rng.chance(.5) ? 5 : 18), m = (unsigned)rng.below(rng.chance(.3) ? 16 : 6); float x = (float)rng.uni(-4, 4), p = (float)rng.uni(0, 20), u = (float)rng.uni(-1, 1); if (rng.chance(.05)) x = 0; if (rng.chance(.05)) p = 0; if (rng.chance(.05)) u = rng.chance(.5) ? 1 : -1; if (rng.chance(.05)) u = 0; note("n=%u m=%u x=%.9g p=%.9g u=%.9g", n, m, x, p, u); double ax = std::fabs(x), s0 = 1, s1 = 2 * ax, s = n == 0 ? s0 : s1; for (unsigned i = 2; i <= n; ++i) { s = 2 * (ax * s1 + (i - 1.) * s0); s0 = s1; s1 = s; }
    near1("hermite", n, x, ff::hermite(n, x), std::hermite(n, (double)x), EPS * .5 * (n + 1) * s);
    auto lagAbs = [&](unsigned mm) { double sum = 0, t = 1; for (unsigned i = 1; i <= n; ++i) t *= (mm + i) / (double)i; for (unsigned i = 0; i <= n; ++i) { sum += t; t *= (double)p * (n - i) / ((i + 1.) * (mm + i + 1.)); } return sum; };
    near1("laguerre", n, p, ff::laguerre(n, p), std::laguerre(n, (double)p), EPS * (n + 1) * (n + 1) * .5 * lagAbs(0)+EPS*lagAbs(0)); near1("assoc_laguerre", n, p, ff::assoc_laguerre(n, m, p), std::assoc_laguerre(n, m, (double)p), EPS * (n + 1) * (n + 1) * .5 * lagAbs(m)+EPS*lagAbs(m));
    near1("legendre", n, u, ff::legendre(n, u), std::legendre(n, (double)u), 2e-7 * (n + 1)); double sc = 1; for (unsigned i = n >= m ? n - m + 1 : 1; i <= n + m; ++i) sc *= i; if (m <= n) near1("assoc_legendre", n, u, ff::assoc_legendre(n, m, u), std::assoc_legendre(n, m, (double)u), 7e-7 * (n + 1) * (1 + std::sqrt(sc))); else VH_CHECK(ff::assoc_legendre(n, m, u) == 0, "assoc_legendre of order above the degree");
    float th = (float)rng.uni(.05, 3.09); if (m <= n) near1("sph_legendre", n, th, ff::sph_legendre(n, m, th), std::sph_legendre(n, m, (double)th), (n + 1) * (n + 1) * 3e-4); else VH_CHECK(ff::sph_legendre(n, m, th) == 0 && ff::sph_legendre(n, m, 0) == 0, "sph_legendre of order above the degree"); VH_CHECK(std::isnan(ff::hermite(n, NAN)) && std::isnan(ff::laguerre(n, NAN)) && std::isnan(ff::laguerre(n, -1)) && std::isnan(ff::legendre(n, NAN)) && (m > n || std::isnan(ff::sph_legendre(n, m, NAN))) && (m > n || std::isnan(ff::assoc_legendre(n, m, NAN))) && std::isnan(ff::assoc_laguerre(n, m, NAN)), "polynomial of NaN");
    if (m <= n) { float th0 = rng.chance(.5) ? 0 : (float)M_PI; note("sph_legendre(%u,%u,%.9g)", n, m, th0); near1("sph_legendre_pole", n, th0, ff::sph_legendre(n, m, th0), std::sph_legendre(n, m, (double)th0), (n + 1) * (n + 1) * 3e-4); }
    if (rng.chance(.02)) { size_t big = 10000001 + rng.below(1u << 30); float q = (float)rng.uni(.01, 40); note("laguerre(%zu,%.9g)", big, q); float v = ff::laguerre(big, q); VH_CHECK(std::fabs(v) <= std::exp(.5 * q) * 1.01, "laguerre(%zu,%.9g) is %.9g, beyond exp(x/2)", big, q, v); double am = std::exp(.5 * q) * std::pow(M_PI * M_PI * (double)big * q, -.25); maxi("laguerre_large/amplitude", std::fabs(v) / am); VH_CHECK(std::fabs(v) <= am * 1.2, "laguerre(%zu,%.9g) is %.9g, amplitude %.9g", big, q, v, am); ev("laguerre_large"); } }
MONITOR(zeta, 1200, 60000) { float s = rng.chance(.6) ? (float)rng.uni(1.05, 40) : (float)rng.uni(-12, .9); if (rng.chance(.1)) s = (float)rng.uni(-25, -12); note("zeta %.9g", s); if (rng.chance(.2)) { float f = (float)rng.uni(rng.chance(.3) ? -64 : rng.chance(.5) ? -25 : -4, -.001); note("zeta %.9g", f); double u = 1 - (double)f, z = std::riemann_zeta(u); double am = z * std::exp(std::lgamma(u) + f * std::log(2 * M_PI)) / M_PI; near1("riemann_zeta_far_left", f, 0, ff::riemann_zeta(f) / am, std::sin(M_PI / 2 * f), 1.4e-3); } double e = std::riemann_zeta((double)s); near1(s > 1 ? "riemann_zeta" : "riemann_zeta_left", s, 0, ff::riemann_zeta(s), e, s > 1 ? e * 3e-6 : s >= 0 ? std::fabs(e) * 2e-5 : .005 + std::fabs(e) * .02); VH_CHECK(ff::riemann_zeta(1) == INFINITY && std::isnan(ff::riemann_zeta(NAN)), "riemann_zeta at its pole"); }
MONITOR(bessel, 60000, 1500000) {
    float nu = rng.chance(.4) ? (float)rng.below(9) : (float)rng.uni(0, 8), x = rng.chance(.7) ? (float)rng.uni(.1, 25) : (float)rng.uni(.05, 2.1); unsigned n = (unsigned)rng.below(9); note("bessel nu=%.9g n=%u x=%.9g", nu, n, x); double e, mu = std::fabs(nu - std::round(nu)); bool ill = x < 2 && mu > 0 && mu < .15; if (ill && mu < 1e-3) nu = std::round(nu), ill = false; // near an integer order the series below 2 cancels
    e = std::cyl_bessel_j((double)nu, (double)x); near1("cyl_bessel_j", nu, x, ff::cyl_bessel_j(nu, x), e, 4e-6 + 2e-6 * std::fabs(e)); e = std::cyl_bessel_i((double)nu, (double)x); near1("cyl_bessel_i", nu, x, ff::cyl_bessel_i(nu, x), e, 1e-9 + 8e-6 * std::fabs(e));
    mu = std::fabs(nu - std::round(nu)); double t = x < 2 ? mu == 0 ? 4e-6 : .06 : 3.2e-6; e = std::cyl_bessel_k((double)nu, (double)x); if (e < 1e30) near1(x < 2 ? mu == 0 ? "cyl_bessel_k_small_integer" : "cyl_bessel_k_small" : "cyl_bessel_k", nu, x, ff::cyl_bessel_k(nu, x), e, ill ? .02 + .02 * std::fabs(e) : std::fabs(e) * t + 1e-10); e = std::cyl_neumann((double)nu, (double)x); if (std::fabs(e) < 1e30) near1(x < 2 ? mu == 0 ? "cyl_neumann_small_integer" : "cyl_neumann_small" : "cyl_neumann", nu, x, ff::cyl_neumann(nu, x), e, x < 2 && mu == 0 ? 3e-6 * (1 + std::fabs(e)) : ill ? .02 + .02 * std::fabs(e) : x < 2 ? 2.5e-3 + 5e-3 * std::fabs(e) : 2e-6 + 2e-6 * std::fabs(e));
    e = std::sph_bessel(n, (double)x); near1("sph_bessel", n, x, ff::sph_bessel(n, x), e, 2e-6 + 2.4e-3 * std::fabs(e)); e = std::sph_neumann(n, (double)x); if (std::fabs(e) < 1e30) near1(x < 2 ? "sph_neumann_small" : "sph_neumann", n, x, ff::sph_neumann(n, x), e, x < 2 ? 3e-3 + 8e-3 * std::fabs(e) : 2e-6 + 2.4e-3 * std::fabs(e));
    float big = (float)rng.uni(1000.5, 5000), nb = (float)rng.uni(0, 4); double w = 4e-5; note("bessel nu=%.9g x=%.9g", nb, big); e = std::cyl_bessel_j((double)nb, (double)big); near1("cyl_bessel_j_far", nb, big, ff::cyl_bessel_j(nb, big), e, w); e = std::cyl_neumann((double)nb, (double)big); near1("cyl_neumann_far", nb, big, ff::cyl_neumann(nb, big), e, w);
    VH_CHECK(std::isnan(ff::cyl_bessel_j(nu, NAN)) && std::isnan(ff::cyl_bessel_i(nu, NAN)) && std::isnan(ff::cyl_bessel_k(nu, NAN)) && std::isnan(ff::cyl_neumann(nu, NAN)) && std::isnan(ff::cyl_bessel_j(NAN, x)) && std::isnan(ff::cyl_bessel_i(NAN, x)) && std::isnan(ff::cyl_bessel_k(NAN, x)) && std::isnan(ff::cyl_neumann(NAN, x)) && std::isnan(ff::sph_bessel(n, NAN)) && std::isnan(ff::sph_neumann(n, NAN)), "Bessel function of NaN"); float ng = -rng.logf_(1e-3, 1e3); VH_CHECK(std::isnan(ff::cyl_bessel_j(nu, ng)) && std::isnan(ff::cyl_bessel_i(nu, ng)) && std::isnan(ff::cyl_bessel_k(nu, ng)) && std::isnan(ff::cyl_neumann(nu, ng)) && std::isnan(ff::cyl_bessel_j(ng, x)) && std::isnan(ff::cyl_bessel_i(ng, x)) && std::isnan(ff::cyl_bessel_k(ng, x)) && std::isnan(ff::cyl_neumann(ng, x)) && std::isnan(ff::sph_bessel(n, ng)) && std::isnan(ff::sph_neumann(n, ng)), "Bessel function of a negative argument is not NaN"); VH_CHECK(ff::cyl_bessel_j(0, 0) == 1 && ff::cyl_bessel_i(0, 0) == 1 && ff::sph_bessel(0, 0) == 1 && ff::sph_bessel(n + 1, 0) == 0 && ff::sph_neumann(n, 0) == -INFINITY && ff::cyl_bessel_k(nu, 0) == INFINITY && ff::cyl_neumann(nu, 0) == -INFINITY && (nu > 0 ? ff::cyl_bessel_j(nu, 0) == 0 && ff::cyl_bessel_i(nu, 0) == 0 : true), "Bessel functions at zero"); evaln(2); }
// larger orders and arguments, up to where the results leave the range of float
MONITOR(bessel_wide, 12000, 300000) {
    float nu = rng.chance(.4) ? (float)rng.below(21) : (float)rng.uni(0, 20), x = (float)rng.uni(2.1, 999), y = (float)rng.uni(2.1, 86); note("bessel nu=%.9g x=%.9g y=%.9g", nu, x, y); double e = std::cyl_bessel_j((double)nu, (double)x), t = 8e-6 + 4e-7 * x; near1("cyl_bessel_j_wide", nu, x, ff::cyl_bessel_j(nu, x), e, t); e = std::cyl_neumann((double)nu, (double)x); if (std::fabs(e) < 1e36) near1("cyl_neumann_wide", nu, x, ff::cyl_neumann(nu, x), e, t * (1 + std::fabs(e))); e = std::cyl_bessel_i((double)nu, (double)y); if (e > 1e-30) near1("cyl_bessel_i_wide", nu, y, ff::cyl_bessel_i(nu, y), e, 4e-5 * e); e = std::cyl_bessel_k((double)nu, (double)y); if (e < 1e36) near1("cyl_bessel_k_wide", nu, y, ff::cyl_bessel_k(nu, y), e, 4e-5 * e + 2e-38); evaln(); }
// the edges of every domain and much larger orders: nothing may turn into NaN and
// the accuracy stays within (about twice) what is measured over the region
MONITOR(wide_elliptic, 30000, 800000) {
    float k = 1 - rng.logf_(6e-8f, .02f), nu = (float)rng.uni(-.9, .9); if (k >= 1) k = .99999994f; if (rng.chance(.5)) k = -k; double e; note("wide elliptic k=%.9g nu=%.9g", k, nu);
    e = std::comp_ellint_1((double)k); near1("K_near_1", k, 0, ff::comp_ellint_1(k), e, e * 2e-5); e = std::comp_ellint_2((double)k); near1("E_near_1", k, 0, ff::comp_ellint_2(k), e, e * 5e-5); e = std::comp_ellint_3((double)k, (double)nu); near1("Pi_near_1", k, nu, ff::comp_ellint_3(k, nu), e, e * 3e-3);
    k = (float)rng.uni(-.99, .99); nu = 1 - rng.logf_(1e-4, .1); note("wide elliptic k=%.9g nu=%.9g", k, nu); e = std::comp_ellint_3((double)k, (double)nu); near1("Pi_nu_near_1", k, nu, ff::comp_ellint_3(k, nu), e, e * 4e-3);
    float phi = (float)rng.uni(-1.5707, 1.5707), k1 = (float)rng.uni(-1, 1); note("wide elliptic k=%.9g,%.9g phi=%.9g", k, k1, phi); near1("F_full", k, phi, ff::ellint_1(k, phi), std::ellint_1((double)k, (double)phi), 7e-3); near1("E_full", k1, phi, ff::ellint_2(k1, phi), std::ellint_2((double)k1, (double)phi), 2e-3);
    phi = (float)rng.uni(-200, 200); k *= .9f; note("wide elliptic k=%.9g,%.9g phi=%.9g", k, k1, phi); e = std::ellint_1((double)k, (double)phi); near1("F_big", k, phi, ff::ellint_1(k, phi), e, 1.6e-3 * (1 + std::fabs(e))); e = std::ellint_2((double)k1, (double)phi); near1("E_big", k1, phi, ff::ellint_2(k1, phi), e, 1.6e-3 * (1 + std::fabs(e)));
    float a = rng.logf_(1e-6, .1), b = rng.logf_(1e-6, 50); if (rng.chance(.5)) std::swap(a, b); note("beta %.9g %.9g", a, b); e = std::beta((double)a, (double)b); near1("beta_small", a, b, ff::beta(a, b), e, e * 1e-4);
    if (rng.chance(.02)) { float s = 1 + rng.logf_(1e-6, .05) * (rng.chance(.5) ? 1 : -1); if (s != 1) { note("zeta %.9g", s); e = std::riemann_zeta((double)s); near1("zeta_near_1", s, 0, ff::riemann_zeta(s), e, std::fabs(e) * (6e-6 + 2e-7 / std::fabs(s - 1))); } s = rng.logf_(20, 1e30); note("zeta %.9g", s); near1("zeta_big", s, 0, ff::riemann_zeta(s), 1, 2e-6); } }
MONITOR(wide_polynomials, 30000, 800000) {
    unsigned n = (unsigned)rng.below(200), m; float u = (float)rng.uni(-1, 1), q = (float)rng.uni(-10, 10); note("wide n=%u u=%.9g q=%.9g", n, u, q); near1("legendre_wide", n, u, ff::legendre(n, u), std::legendre(n, (double)u), 3.5e-7 * (n + 1));
    n %= 40; double ax = std::fabs(q), s0 = 1, s1 = 2 * ax, s = n == 0 ? s0 : s1; for (unsigned i = 2; i <= n; ++i) { s = 2 * (ax * s1 + (i - 1.) * s0); s0 = s1; s1 = s; } if (s < 1e37) near1("hermite_wide", n, q, ff::hermite(n, q), std::hermite(n, (double)q), EPS * (n + 1) * s);
    n = (unsigned)rng.below(100); q = (float)rng.uni(0, 60); note("wide n=%u q=%.9g", n, q); near1("laguerre_wide", n, q, ff::laguerre(n, q), std::laguerre(n, (double)q), .3e-7 * (n + 1) * (n + 1) * std::exp(.5 * q));
    n = (unsigned)rng.below(30); m = (unsigned)rng.below(30); note("wide n=%u m=%u q=%.9g", n, m, q); double t = 1; for (unsigned i = 1; i <= n; ++i) t *= (m + i) / (double)i; near1("assoc_laguerre_wide", n, q, ff::assoc_laguerre(n, m, q), std::assoc_laguerre(n, m, (double)q), .3e-7 * (n + 1) * (n + 1) * t * std::exp(.5 * q));
    n = (unsigned)rng.below(60); m = (unsigned)rng.below(n + 1); float th = (float)rng.uni(.05, 3.09); note("wide n=%u m=%u theta=%.9g", n, m, th); near1("sph_legendre_wide", n, th, ff::sph_legendre(n, m, th), std::sph_legendre(n, m, (double)th), (n + 1) * (n + 1) * 3e-4); }
MONITOR(wide_bessel, 6000, 150000) {
    double e; float nu = (float)rng.uni(20, 100), x = (float)rng.uni(.1, 999); note("wide J nu=%.9g x=%.9g", nu, x); near1("J_wide", nu, x, ff::cyl_bessel_j(nu, x), std::cyl_bessel_j((double)nu, (double)x), 5e-4);
    nu = (float)rng.uni(4, 20); x = (float)rng.uni(1001, 5000); note("wide nu=%.9g x=%.9g", nu, x); near1("J_far_wide", nu, x, ff::cyl_bessel_j(nu, x), std::cyl_bessel_j((double)nu, (double)x), 6e-5); near1("N_far_wide", nu, x, ff::cyl_neumann(nu, x), std::cyl_neumann((double)nu, (double)x), 6e-5);
    nu = (float)rng.uni(20, 60); x = (float)rng.uni(2, 999); note("wide nu=%.9g x=%.9g", nu, x); e = std::cyl_neumann((double)nu, (double)x); if (std::fabs(e) < 1e35) near1("N_wide", nu, x, ff::cyl_neumann(nu, x), e, 5e-4 * (1 + std::fabs(e)));
    nu = rng.chance(.5) ? (float)rng.uni(20, 60) : (float)rng.uni(60, 300); x = (float)rng.uni(2, nu < 60 ? 86 : 290); note("wide I/K nu=%.9g x=%.9g", nu, x); e = std::cyl_bessel_i((double)nu, (double)x); if (e > 1e-30 && e < 1e35) near1("I_wide", nu, x, ff::cyl_bessel_i(nu, x), e, (nu < 60 ? 4e-4 : 8e-3) * e); e = std::cyl_bessel_k((double)nu, (double)x); if (e > 1e-30 && e < 1e35) near1("K_wide", nu, x, ff::cyl_bessel_k(nu, x), e, (nu < 60 ? 1e-4 : 8e-3) * e);
    unsigned n = (unsigned)rng.below(40); x = rng.logf_(1e-3, 200); note("wide sph n=%u x=%.9g", n, x); e = std::sph_bessel(n, (double)x); near1("sph_bessel_wide", n, x, ff::sph_bessel(n, x), e, 4e-3 * std::fabs(e) + 4e-6); if (x > 2) { e = std::sph_neumann(n, (double)x); if (std::fabs(e) < 1e35) near1("sph_neumann_wide", n, x, ff::sph_neumann(n, x), e, 4e-3 * std::fabs(e) + 4e-6); }
    nu = (float)rng.uni(0, 10); x = rng.logf_(1e-6, .1); note("wide small nu=%.9g x=%.9g", nu, x); e = std::cyl_bessel_j((double)nu, (double)x); if (e > 1e-36) near1("J_small", nu, x, ff::cyl_bessel_j(nu, x), e, 3e-5 * e); e = std::cyl_bessel_i((double)nu, (double)x); if (e > 1e-36) near1("I_small", nu, x, ff::cyl_bessel_i(nu, x), e, 3e-5 * e);
    nu = (float)rng.below(5); note("wide small nu=%.9g x=%.9g", nu, x); e = std::cyl_bessel_k((double)nu, (double)x); if (e < 1e36) near1("K_small", nu, x, ff::cyl_bessel_k(nu, x), e, 3e-6 * e); e = std::cyl_neumann((double)nu, (double)x); if (e > -1e36) near1("N_small", nu, x, ff::cyl_neumann(nu, x), e, 2e-6 * (1 + std::fabs(e)));
    // any order and argument: a number (or the correct infinity), and J stays within [-1,1]
    nu = rng.chance(.5) ? (float)rng.below(1500) : rng.logf_(1e-3, 1500); x = rng.chance(.8) ? rng.logf_(1e-4, 1e4) : rng.logf_(1e4, 1e6); n = (unsigned)rng.below(rng.chance(.5) ? 100 : 600); note("wide any nu=%.9g n=%u x=%.9g", nu, n, x); float j = ff::cyl_bessel_j(nu, x), y = ff::cyl_neumann(nu, x), sj = ff::sph_bessel(n, x), sy = ff::sph_neumann(n, x);
    VH_CHECK(std::fabs(j) <= 1.0001 && std::fabs(sj) <= 1.0001, "J(%.9g,%.9g) is %.9g and j(%u,x) is %.9g", nu, x, j, n, sj); VH_CHECK(y == y && sy == sy && y < 1 && sy < 1, "N(%.9g,%.9g) is %.9g and n(%u,x) is %.9g", nu, x, y, n, sy);
    if (x < 1e3f) { float I = ff::cyl_bessel_i(nu, x), K = ff::cyl_bessel_k(nu, x); VH_CHECK(I >= 0 && K >= 0, "I(%.9g,%.9g) is %.9g and K is %.9g", nu, x, I, K); } ev("wide_any"); }
VH_MAIN
