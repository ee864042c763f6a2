// Double-precision references of discrete and continuous transfer functions.
#ifndef LTI_REF_HPP
#define LTI_REF_HPP
#include "vh.hpp"
#include "sig.hpp"
#include <include/ltisys.hpp>
#include <complex>
#include <deque>
namespace vh {
// y[k] = sum b_i u[k-i] - sum a_j y[k-j], coefficients already divided by a0;
// condMag bounds the magnitude flowing through a direct form II realisation.
struct DTF { std::vector<double> b, a; std::vector<double> U, Y, V; double vmax = 0;
    double step(double u) { U.push_back(u); double y = 0, v = u; size_t k = U.size() - 1; for (size_t i = 0; i < b.size() && i <= k; ++i) y += b[i] * U[k - i]; for (size_t j = 1; j < a.size() && j <= k; ++j) { y -= a[j] * Y[k - j]; v -= a[j] * V[k - j]; } Y.push_back(y); V.push_back(v); vmax = std::max(vmax, std::fabs(v)); return y; }
    double bsum() const { double s = 0; for (double x : b) s += std::fabs(x); return s; } double asum() const { double s = 0; for (double x : a) s += std::fabs(x); return s; } };
// real polynomial (descending powers) from roots inside the given disc / half plane, closed under conjugation
inline std::vector<double> polyFrom(const std::vector<std::complex<double>> &r) { std::vector<std::complex<double>> p{1.0}; for (auto z : r) { std::vector<std::complex<double>> q(p.size() + 1, 0.0); for (size_t i = 0; i < p.size(); ++i) { q[i] += p[i]; q[i + 1] -= p[i] * z; } p = q; } std::vector<double> o; for (auto z : p) o.push_back(z.real()); return o; }
inline std::vector<std::complex<double>> discRoots(Rng &r, size_t n, double rad) { std::vector<std::complex<double>> v; while (v.size() < n) { if (n - v.size() >= 2 && r.chance(0.5)) { auto z = std::polar(r.uni(0, rad), r.uni(0, 3.14159)); v.push_back(z); v.push_back(std::conj(z)); } else v.push_back(r.uni(-rad, rad)); } return v; }
}
#endif
