// Array types and the dispatch over array sizes of the algorithm monitors.
#ifndef ALGO_REF_HPP
#define ALGO_REF_HPP
#include "vh.hpp"
#include <include/algorithm.hpp>
namespace vh {
namespace al = qlibs::algorithm;
struct Rec { int key; uint32_t tag; bool operator<(const Rec &o) const { return key < o.key; } bool operator==(const Rec &o) const { return key == o.key && tag == o.tag; } };
// a value that carries its own integrity: copies of anything but a live value are noticed
template <class T> T mk(Rng &r, int spread);
template <> inline int mk<int>(Rng &r, int s) { return (int)r.range(-s, s); }
template <> inline unsigned char mk<unsigned char>(Rng &r, int s) { return (unsigned char)r.below((size_t)(s > 255 ? 256 : s + 1)); }
template <> inline float mk<float>(Rng &r, int s) { return (float)r.range(-s, s) * .5f; }
template <> inline double mk<double>(Rng &r, int s) { return (double)r.range(-s, s) * 1.25; }
template <> inline int64_t mk<int64_t>(Rng &r, int s) { return r.chance(.1) ? (r.chance(.5) ? INT64_MAX : INT64_MIN) : r.range(-s, s); }
template <> inline Rec mk<Rec>(Rng &r, int s) { return Rec{ (int)r.range(-s, s), r.u32() }; }
template <class T> bool lt(const T &a, const T &b) { return a < b; }
inline uint64_t hmem(const void *p, size_t n) { uint64_t h = 7; for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ULL; return h; }
template <class T> bool same(const T &a, const T &b) { return !std::memcmp(&a, &b, sizeof(T)); }
template <class T> std::vector<T> pattern(Rng &r, size_t n, int &kind) {
    int spread = (int)r.pick(std::vector<int>{ 0, 1, 3, 20, 1000, 1000000 }); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(mk<T>(r, spread)); kind = (int)r.below(7);
    if (kind >= 1 && kind <= 5) std::sort(v.begin(), v.end(), lt<T>); if (kind == 2) std::reverse(v.begin(), v.end()); if (kind == 3) for (int q = 0; q < 3; ++q) std::swap(v[r.below(n)], v[r.below(n)]); if (kind == 4) { std::vector<T> o; for (size_t i = 0; i < n; i += 2) o.push_back(v[i]); for (size_t i = n; i-- > 0;) if (i & 1) o.push_back(v[i]); v = o; } if (kind == 5) std::rotate(v.begin(), v.begin() + (long)r.below(n), v.end()); return v; }
} // namespace vh
#define SIZES(F, T) switch (rng.below(7)) { case 0: F<T, 1>(rng); break; case 1: F<T, 2>(rng); break; case 2: F<T, 3>(rng); break; case 3: F<T, 6>(rng); break; case 4: F<T, 13>(rng); break; case 5: F<T, 64>(rng); break; default: F<T, 129>(rng); }
#define TYPES(F) switch (rng.below(4)) { case 0: SIZES(F, int) break; case 1: SIZES(F, unsigned char) break; case 2: SIZES(F, float) break; default: SIZES(F, Rec) }
#define ARR(name, buf, T, N) T (&name)[N] = *reinterpret_cast<T (*)[N]>(buf.p)
#endif
