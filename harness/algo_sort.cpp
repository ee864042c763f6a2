// A01: sort orders the selected range, keeps its elements and touches nothing else.
#include "algo_ref.hpp"
using namespace vh;
template <class T> static bool desc(const T &a, const T &b) { return b < a; }
template <class T, size_t N> static void sortOne(Rng &r) {
    int kind; auto v = pattern<T>(r, N, kind); Buf<T> b(N); b.set(v); ARR(a, b, T, N); size_t f = 0, l = N - 1; int how = (int)r.below(4); if (how >= 2) { f = r.below(N); l = f + r.below(N - f); } bool (*c)(const T &, const T &) = (how & 1) ? (r.chance(.7) ? desc<T> : lt<T>) : nullptr; note("n=%zu range %zu..%zu how %d pattern %d", N, f, l, how, kind);
    if (how == 0) al::sort(a); else al::sort(a, f, l, c); b.check("the sorted array");
    for (size_t i = 0; i < N; ++i) if (i < f || i > l) VH_CHECK(same(a[i], v[i]), "sort of %zu..%zu changed element %zu of %zu", f, l, i, N);
    for (size_t i = f; i < l; ++i) VH_CHECK(c ? !c(a[i + 1], a[i]) : !(a[i + 1] < a[i]), "elements %zu and %zu of %zu are out of order after sort of %zu..%zu (pattern %d)", i, i + 1, N, f, l, kind);
    std::vector<std::string> x, y; for (size_t i = 0; i < N; ++i) { x.emplace_back((const char *)&v[i], sizeof(T)); y.emplace_back((const char *)&a[i], sizeof(T)); } std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VH_CHECK(x == y, "sort lost or invented elements (%zu elements, pattern %d)", N, kind);
    ev(c ? "comparator" : "natural_order"); if (how >= 2) ev("subrange"); if (kind == 2) ev("reversed_input"); uint64_t h = N; for (size_t i = 0; i < N && i < 8; ++i) h = sig2(h, hmem(&v[i], sizeof(T))); seen(sig3(h, f, l)); }
MONITOR(sort, 40000, 1500000) { TYPES(sortOne) }
// every permutation of up to 7 elements and every 0/1/2 pattern of up to 8
template <size_t N> static void perms() { int p[N]; for (size_t i = 0; i < N; ++i) p[i] = (int)i; do { int a[N]; std::memcpy(a, p, sizeof a); al::sort(a); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == (int)i, "a permutation of %zu elements is not sorted", N); evaln(); } while (std::next_permutation(p, p + N)); size_t t = 1; for (size_t i = 0; i < N; ++i) t *= 3; for (size_t k = 0; k < t; ++k) { int a[N], c[3] = { 0, 0, 0 }; size_t q = k; for (size_t i = 0; i < N; ++i) { a[i] = (int)(q % 3); c[a[i]]++; q /= 3; } al::sort(a); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == ((int)i < c[0] ? 0 : (int)i < c[0] + c[1] ? 1 : 2), "a pattern of %zu elements is not sorted", N); evaln(); } ev("exhaustive_sizes"); seen(N); }
MONITOR(exhaustive, 7, 7) { switch (idx) { case 0: perms<1>(); break; case 1: perms<2>(); break; case 2: perms<3>(); break; case 3: perms<4>(); break; case 4: perms<5>(); break; case 5: perms<6>(); break; default: perms<7>(); } }
MONITOR(deep, 24, 600) { static const size_t N = 4096; int kind; auto v = pattern<int>(rng, N, kind); Buf<int> b(N); b.set(v); ARR(a, b, int, N); al::sort(a); b.check("the sorted array"); std::sort(v.begin(), v.end()); VH_CHECK(std::equal(v.begin(), v.end(), a), "sort of 4096 elements (pattern %d)", kind); ev("deep"); seen(sig2(idx, (uint64_t)v[7])); }
// more elements than a 16 bit index reaches
MONITOR(huge, 6, 60) { static const size_t N = 70001; Buf<int> b(N); ARR(a, b, int, N); for (size_t i = 0; i < N; ++i) a[i] = (int)i; for (size_t i = N; i-- > 1;) std::swap(a[i], a[rng.below(i + 1)]); size_t f = 0, l = N - 1; if (idx % 3) { f = rng.below(N); l = f + rng.below(N - f); } std::vector<int> e(a, a + N); std::sort(e.begin() + (long)f, e.begin() + (long)l + 1); note("range %zu..%zu of %zu", f, l, N); if (idx % 3) al::sort(a, f, l); else al::sort(a); b.check("the sorted array"); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == e[i], "element %zu of %zu is %d after sorting %zu..%zu, expected %d", i, N, a[i], f, l, e[i]); ev("huge"); seen(sig3(idx, f, l)); }
// extreme elements where a pivot may be taken from: partitions of a large range that leave one to three elements on a side
MONITOR(extreme_ranks, 600, 12000) { static const size_t N = 6000; static int a[N]; size_t n = rng.chance(.5) ? N : 2 + rng.below(N - 1), f = rng.below(N - n + 1), l = f + n - 1; for (size_t i = 0; i < N; ++i) a[i] = (int)i - 7; size_t pos[3] = { f, f + (n - 1) / 2, l }, lo = rng.below(3); bool up = rng.chance(.5); std::vector<int> v(a + f, a + f + n); size_t k = rng.below(4); if (k >= n) k = 0; int x = up ? v[n - 1 - k] : v[k]; int how = (int)rng.below(3); if (how == 0) for (size_t i = n; i-- > 1;) std::swap(v[i], v[rng.below(i + 1)]); else if (how == 1) { for (int q = 0; q < 6; ++q) std::swap(v[rng.below(n)], v[rng.below(n)]); if (n > 4) std::swap(v[n - 1], v[n - 2]); } else for (size_t i = n, w = std::min<size_t>(n, 8); w-- > 1;) std::swap(v[i - 1 - w], v[i - 1 - rng.below(w)]); for (size_t i = 0; i < n; ++i) if (v[i] == x) { std::swap(v[i], v[pos[lo] - f]); break; } std::copy(v.begin(), v.end(), a + f); note("range %zu..%zu rank %zu from the %s at %zu, order %d", f, l, k, up ? "top" : "bottom", pos[lo], how); if (rng.chance(.5)) al::sort(a, f, l); else al::sort(a, f, l, +[](const int &p, const int &q) { return p < q; }); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == (int)i - 7, "element %zu is %d after sorting %zu..%zu, expected %d", i, a[i], f, l, (int)i - 7); ev("extreme_rank"); seen(sig3(n, k * 2 + up, lo)); }
// elements that own memory: every copy has to go through the element type
MONITOR(owners, 1500, 40000) { static const size_t N = 40; std::vector<std::string> v; for (size_t i = 0; i < N; ++i) v.push_back(std::string(rng.below(60), (char)('a' + rng.below(26))) + std::to_string(rng.below(50))); std::string a[N]; std::copy(v.begin(), v.end(), a); size_t f = rng.below(N), l = f + rng.below(N - f); int how = (int)rng.below(3); if (how == 0) { f = 0; l = N - 1; al::sort(a); } else if (how == 1) al::sort(a, f, l); else al::sort(a, f, l, desc<std::string>); std::sort(v.begin() + (long)f, v.begin() + (long)l + 1, how == 2 ? desc<std::string> : lt<std::string>); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == v[i], "text %zu of %zu is %s after sorting %zu..%zu, expected %s", i, N, a[i].c_str(), f, l, v[i].c_str()); ev("owners"); seen(sig3(f, l, idx)); }
// inputs that keep as many ranges pending as possible, for partitions around the last or the first element; each pivot leaves k elements on one side
template <size_t N> static void nested(Rng &r) {
    int k = 1 + (int)r.below(4); bool first = r.chance(.3), mirror = r.chance(.3); std::vector<int> c(N), val(N, -1); for (size_t i = 0; i < N; ++i) c[i] = (int)i; size_t s = 0, e = N - 1; int rank = 0;
    while (s + (size_t)k + 1 <= e) { int p = first ? c[s] : c[e]; if (first) { std::swap(c[s], c[s + (size_t)k]); for (int q = 0; q < k; ++q) val[(size_t)c[s + (size_t)q]] = rank + (k - 1 - q); } else { for (int q = 0; q < k; ++q) val[(size_t)c[s + (size_t)q]] = rank + (k - 1 - q); std::swap(c[s + (size_t)k], c[e]); } val[(size_t)p] = rank + k; rank += k + 1; s += (size_t)k + 1; } for (size_t i = s; i <= e; ++i) val[(size_t)c[i]] = rank++;
    Buf<int> b(N); ARR(a, b, int, N); for (size_t i = 0; i < N; ++i) a[i] = mirror ? (int)N - 1 - val[i] : val[i]; note("nested n=%zu k=%d first %d mirror %d", N, k, first, mirror); bool d = r.chance(.3); if (d) al::sort(a, 0, N - 1, desc<int>); else al::sort(a); b.check("the sorted array"); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == (d ? (int)(N - 1 - i) : (int)i), "element %zu of %zu is %d after sorting a permutation with nested partitions (k=%d)", i, N, a[i], k); seen(sig3(N, (uint64_t)k * 4 + first * 2 + mirror, d)); ev("nested"); }
MONITOR(nested_ranges, 2000, 40000) { switch (rng.below(7)) { case 0: nested<9>(rng); break; case 1: nested<16>(rng); break; case 2: nested<33>(rng); break; case 3: nested<64>(rng); break; case 4: nested<100>(rng); break; case 5: nested<257>(rng); break; default: nested<1000>(rng); } }
// an adversary that decides the order of the elements while they are being compared (McIlroy): whatever the pivot rule, the partitions are as uneven as possible
static std::vector<int> advVal; static int advSolid, advCand, advGas; static size_t advCalls;
static bool advLess(const int &x, const int &y) { ++advCalls; if (advVal[(size_t)x] == advGas && advVal[(size_t)y] == advGas) advVal[(size_t)(x == advCand ? x : y)] = advSolid++; if (advVal[(size_t)x] == advGas) advCand = x; else if (advVal[(size_t)y] == advGas) advCand = y; return advVal[(size_t)x] < advVal[(size_t)y]; }
template <size_t N> static void adversary(Rng &r) { advVal.assign(N, (int)N); advGas = (int)N; advSolid = 0; advCand = 0; advCalls = 0; Buf<int> b(N); ARR(a, b, int, N); for (size_t i = 0; i < N; ++i) a[i] = (int)i; if (r.chance(.5)) for (size_t i = N; i-- > 1;) std::swap(a[i], a[r.below(i + 1)]); std::vector<int> start(a, a + N); al::sort(a, 0, N - 1, advLess); b.check("the sorted array"); for (size_t i = 1; i < N; ++i) VH_CHECK(advVal[(size_t)a[i - 1]] <= advVal[(size_t)a[i]], "elements %zu and %zu of %zu are out of order after sorting against an adversary", i - 1, i, N); std::vector<bool> hit(N); for (size_t i = 0; i < N; ++i) { VH_CHECK(a[i] >= 0 && a[i] < (int)N && !hit[(size_t)a[i]], "sort lost or invented elements"); hit[(size_t)a[i]] = true; } maxi("adversary_comparisons", (double)advCalls / N);
    // replay the order the adversary settled on, with the natural comparison
    for (size_t i = 0; i < N; ++i) a[i] = advVal[(size_t)start[i]]; std::vector<int> e(a, a + N); std::sort(e.begin(), e.end()); al::sort(a); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == e[i], "element %zu of %zu after sorting the adversary's input", i, N); ev("adversary"); seen(sig2(N, advCalls)); }
MONITOR(adversarial, 400, 8000) { switch (rng.below(5)) { case 0: adversary<8>(rng); break; case 1: adversary<31>(rng); break; case 2: adversary<64>(rng); break; case 3: adversary<150>(rng); break; default: adversary<500>(rng); } }
VH_MAIN
