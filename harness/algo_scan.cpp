// A02: reverse, rotate, fill, find, any/all/count, replace, for_each and binary search act on exactly the selected elements.
#include "algo_ref.hpp"
using namespace vh;
static int calls; static Rec pv;
template <class T> T zero() { return T(); }
template <class T> static T &pivot() { static T p; return p; }
template <class T> static bool pred(const T x) { ++calls; return x < pivot<T>(); }
template <class T> static bool predR(const T &x) { ++calls; return x < pivot<T>(); }
template <class T> static T &step() { static T s; return s; }
template <class T> static void visit(T &x) { ++calls; x = step<T>(); }
template <class T, size_t N> static void expect(const char *what, T (&a)[N], const std::vector<T> &e, size_t f, size_t l) { for (size_t i = 0; i < N; ++i) VH_CHECK(same(a[i], e[i]), "%s over %zu..%zu of %zu: element %zu is wrong", what, f, l, N, i); }
template <class T, size_t N> static void scanOne(Rng &r) {
    int kind; auto v = pattern<T>(r, N, kind); Buf<T> b(N); ARR(a, b, T, N); size_t f = 0, l = N - 1; bool whole = r.chance(.25); if (!whole) { f = r.below(N); l = f + r.below(N - f); } auto F = v.begin() + (long)f, L = v.begin() + (long)l + 1; note("n=%zu range %zu..%zu", N, f, l); T key = r.chance(.7) ? v[r.below(N)] : mk<T>(r, 30), nv = mk<T>(r, 50); pivot<T>() = r.chance(.5) ? v[r.below(N)] : mk<T>(r, 100); step<T>() = nv; auto P = [&](const T &x) { return x < pivot<T>(); }; std::vector<T> e;
    b.set(v); e = v; std::reverse(e.begin() + (long)f, e.begin() + (long)l + 1); if (whole) al::reverse(a); else al::reverse(a, f, l); expect("reverse", a, e, f, l);
    b.set(v); e = v; std::fill(e.begin() + (long)f, e.begin() + (long)l + 1, nv); if (whole) al::fill(a, nv); else al::fill(a, nv, f, l); expect("fill", a, e, f, l);
    int k = r.chance(.5) ? (int)r.range(-(int64_t)N - 2, (int64_t)N + 2) : r.chance(.05) ? (r.chance(.5) ? INT_MIN : INT_MAX) : (int)r.u32(); b.set(v); e = v; { long m = (long)(((int64_t)k % (int64_t)N + (int64_t)N) % (int64_t)N); std::rotate(e.rbegin(), e.rbegin() + m, e.rend()); } al::rotate(a, k); for (size_t i = 0; i < N; ++i) VH_CHECK(same(a[i], e[i]), "rotate by %d of %zu elements: element %zu is wrong", k, N, i); ev(k < 0 ? "rotate_left" : "rotate_right"); b.set(v); e = v; std::rotate(e.rbegin(), e.rbegin() + 1 % (long)N, e.rend()); al::rotate(a); expect("rotate", a, e, 0, N - 1);
    b.set(v); auto it = std::find(F, L, key); T *p = whole ? al::find(a, key) : al::find(a, key, f, l); VH_CHECK(p == (it == L ? nullptr : a + (it - v.begin())), "find over %zu..%zu of %zu returns element %ld, expected %ld", f, l, N, p ? (long)(p - a) : -1L, it == L ? -1L : (long)(it - v.begin())); ev(p ? "found" : "not_found");
    auto jt = std::find_if(F, L, P); p = whole ? al::find_if(a, pred<T>) : al::find_if(a, pred<T>, f, l); VH_CHECK(p == (jt == L ? nullptr : a + (jt - v.begin())), "find_if over %zu..%zu of %zu", f, l, N); bool any = whole ? al::any_of(a, pred<T>) : al::any_of(a, pred<T>, f, l), all = whole ? al::all_of(a, pred<T>) : al::all_of(a, pred<T>, f, l); VH_CHECK(any == std::any_of(F, L, P) && all == std::all_of(F, L, P), "any_of %d / all_of %d over %zu..%zu of %zu", any, all, f, l, N); calls = 0; size_t c = whole ? al::count_if(a, pred<T>) : al::count_if(a, pred<T>, f, l); VH_CHECK(c == (size_t)std::count_if(F, L, P) && calls == (int)(l - f + 1), "count_if over %zu..%zu of %zu is %zu after %d calls", f, l, N, c, calls); expect("a search", a, v, f, l);
    b.set(v); e = v; std::replace(e.begin() + (long)f, e.begin() + (long)l + 1, key, nv); { T ov = key; if (whole) al::replace(a, ov, nv); else al::replace(a, ov, nv, f, l); } expect("replace", a, e, f, l); { size_t at = r.chance(.8) ? f + r.below(l - f + 1) : r.below(N); T ov = v[at]; b.set(v); e = v; std::replace(e.begin() + (long)f, e.begin() + (long)l + 1, ov, nv); al::replace(a, a[at], nv, f, l); expect("replace of an element's value", a, e, f, l); size_t to = r.below(N); T nw = v[to]; b.set(v); e = v; std::replace_if(e.begin() + (long)f, e.begin() + (long)l + 1, P, nw); al::replace_if(a, predR<T>, a[to], f, l); expect("replace_if by an element", a, e, f, l); } b.set(v); e = v; std::replace_if(e.begin() + (long)f, e.begin() + (long)l + 1, P, nv); if (whole) al::replace_if(a, predR<T>, nv); else al::replace_if(a, predR<T>, nv, f, l); expect("replace_if", a, e, f, l); b.set(v); e = v; std::fill(e.begin() + (long)f, e.begin() + (long)l + 1, nv); calls = 0; if (whole) al::for_each(a, visit<T>); else al::for_each(a, visit<T>, f, l); expect("for_each", a, e, f, l); VH_CHECK(calls == (int)(l - f + 1), "for_each over %zu elements made %d calls", l - f + 1, calls);
    e = v; std::sort(e.begin() + (long)f, e.begin() + (long)l + 1, [](const T &x, const T &y) { return x < y; }); b.set(e); for (size_t q = 0; q < 6; ++q) { T w = q < 3 ? e[r.below(N)] : mk<T>(r, 20); if (q == 4) w = e[f]; if (q == 5) w = e[l]; if (std::is_same<T, Rec>::value) { bool uniq = true; for (size_t i = f; i <= l; ++i) for (size_t j = i + 1; j <= l && j < i + 2; ++j) if (!(e[i] < e[j])) uniq = false; if (!uniq) break; } bool has = std::find(e.begin() + (long)f, e.begin() + (long)l + 1, w) != e.begin() + (long)l + 1; p = whole ? al::binary_search(a, w) : al::binary_search(a, w, f, l); VH_CHECK(has ? (p && p >= a + f && p <= a + l && *p == w) : !p, "binary_search over %zu..%zu of %zu returns element %ld, the key is %s", f, l, N, p ? (long)(p - a) : -1L, has ? "there" : "not there"); ev(has ? "binary_hit" : "binary_miss"); evaln(); }
    T s1 = v[0], s2 = v[N - 1]; al::swap(s1, s2); VH_CHECK(same(s1, v[N - 1]) && same(s2, v[0]), "swap"); b.check("the array"); evaln(12); uint64_t h = N; for (size_t i = 0; i < N && i < 6; ++i) h = sig2(h, hmem(&v[i], sizeof(T))); seen(sig3(h, f, l)); if (kind == 0) eg("%zu elements, range %zu..%zu, rotate %d", N, f, l, k); }
MONITOR(scan, 40000, 1200000) { TYPES(scanOne) }
// more elements than a 16 bit index or counter reaches
MONITOR(huge, 30, 600) { static const size_t N = 140003; static int a[N], o[N]; for (size_t i = 0; i < N; ++i) o[i] = a[i] = (int)(3 * i); size_t f = rng.chance(.3) ? 0 : rng.below(N), l = f + rng.below(N - f); if (rng.chance(.3)) f = 0, l = N - 1; note("range %zu..%zu of %zu", f, l, N);
    for (int k = 0; k < 40; ++k) { size_t at = rng.below(N); int key = 3 * (int)at + (k % 4 == 3); bool in = at >= f && at <= l && k % 4 != 3; int *p = al::binary_search(a, key, f, l), *q = k < 4 ? al::find(a, key, f, l) : p; VH_CHECK(p == (in ? a + at : nullptr) && q == p, "binary_search or find of element %zu over %zu..%zu of %zu", at, f, l, N); }
    { pivot<int>() = INT_MIN; size_t at = rng.chance(.5) ? l - rng.below(std::min<size_t>(l - f, 300) + 1) : f + rng.below(l - f + 1); a[at] = -5; pivot<int>() = 0; int *p = al::find_if(a, pred<int>, f, l); VH_CHECK(p == a + at, "find_if of element %zu over %zu..%zu of %zu", at, f, l, N); al::replace_if(a, predR<int>, 3 * (int)at, f, l); VH_CHECK(a[at] == 3 * (int)at, "replace_if of element %zu over %zu..%zu of %zu", at, f, l, N); }
    pivot<int>() = 3 * (int)rng.below(N); size_t c = 0; for (size_t i = f; i <= l; ++i) c += a[i] < pivot<int>(); size_t g = al::count_if(a, pred<int>, f, l); VH_CHECK(g == c, "count_if over %zu..%zu of %zu is %zu, expected %zu", f, l, N, g, c); bool any = al::any_of(a, pred<int>, f, l), all = al::all_of(a, pred<int>, f, l); VH_CHECK(any == (c > 0) && all == (c == l - f + 1), "any_of or all_of over %zu..%zu of %zu", f, l, N); calls = 0;
    al::reverse(a, f, l); for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == (i < f || i > l ? o[i] : o[f + l - i]), "reverse of %zu..%zu of %zu: element %zu", f, l, N, i); al::reverse(a, f, l); int k = (int)rng.range(-(int64_t)N, (int64_t)N); al::rotate(a, k); for (size_t i = 0; i < N; ++i) VH_CHECK(a[(i + (size_t)(k + (int)N)) % N] == o[i], "rotate by %d of %zu: element %zu", k, N, i);
    al::fill(a, -1, f, l); size_t m = 0; for (size_t i = 0; i < N; ++i) { VH_CHECK((a[i] == -1) == (i >= f && i <= l), "fill of %zu..%zu of %zu: element %zu", f, l, N, i); m += a[i] == -1; } al::replace(a, -1, -2, f, l); for (size_t i = f; i <= l; ++i) VH_CHECK(a[i] == -2, "replace over %zu..%zu of %zu: element %zu", f, l, N, i); step<int>() = -3; al::for_each(a, visit<int>, f, l); for (size_t i = 0; i < N; ++i) VH_CHECK((a[i] == -3) == (i >= f && i <= l), "for_each over %zu..%zu of %zu: element %zu", f, l, N, i); VH_CHECK((size_t)calls == l - f + 1, "for_each made %d calls", calls); evaln(8); ev("huge"); seen(sig3(f, l, (uint64_t)k)); }
// elements that own memory: every copy has to go through the element type
static bool isLong(const std::string s) { return s.size() > 20; }
static bool isLongR(const std::string &s) { return s.size() > 20; }
static void shout(std::string &s) { s += "!"; }
MONITOR(owners, 1500, 40000) { static const size_t N = 24; typedef std::string S; std::vector<S> v, e; for (size_t i = 0; i < N; ++i) v.push_back(S(rng.below(60), (char)('a' + rng.below(26)))); S a[N]; auto set = [&] { std::copy(v.begin(), v.end(), a); e = v; }; size_t f = rng.below(N), l = f + rng.below(N - f); long F = (long)f, L = (long)l + 1; auto is = [&](const char *w) { for (size_t i = 0; i < N; ++i) VH_CHECK(a[i] == e[i], "%s of texts over %zu..%zu: element %zu", w, f, l, i); evaln(); };
    set(); al::reverse(a, f, l); std::reverse(e.begin() + F, e.begin() + L); is("reverse"); int k = (int)rng.range(-60, 60); set(); al::rotate(a, k); std::rotate(e.rbegin(), e.rbegin() + (k % (int)N + (int)N) % (int)N, e.rend()); is("rotate"); S key = v[rng.below(N)]; set(); al::fill(a, key, f, l); std::fill(e.begin() + F, e.begin() + L, key); is("fill"); set(); al::replace(a, key, S("another text that is not short"), f, l); std::replace(e.begin() + F, e.begin() + L, key, S("another text that is not short")); is("replace"); set(); al::replace(a, a[f], S("x"), f, l); std::replace(e.begin() + F, e.begin() + L, v[f], S("x")); is("replace of an element's value"); set(); al::replace_if(a, isLongR, S(), f, l); std::replace_if(e.begin() + F, e.begin() + L, isLongR, S()); is("replace_if"); set(); al::for_each(a, shout, f, l); for (size_t i = f; i <= l; ++i) e[i] += "!"; is("for_each"); set(); VH_CHECK(al::count_if(a, isLong, f, l) == (size_t)std::count_if(e.begin() + F, e.begin() + L, isLong), "count_if of texts"); S *p = al::find(a, key, f, l); auto it = std::find(e.begin() + F, e.begin() + L, key); VH_CHECK(p == (it == e.begin() + L ? nullptr : a + (it - e.begin())), "find of a text"); al::swap(a[f], a[l]); std::swap(e[f], e[l]); is("swap"); al::swap(a[f], a[f]); is("swap with itself"); ev("owners"); seen(sig3(f, l, idx)); }
VH_MAIN
