// Exact integer model of the Q16.16 numbers and the generator of interesting ones.
#ifndef FP_REF_HPP
#define FP_REF_HPP
#include "vh.hpp"
#include <iostream>
#include <include/fp16.hpp>
namespace vh {
using qlibs::fp16;
typedef __int128 i128;
static const int64_t FMAX = 2147483647LL;
// the number with this raw representation (INT32_MIN is the overflow value)
inline fp16 R(int64_t raw) { return fp16::from((double)raw / 65536.0); }
inline int64_t anyRaw(Rng &r) {
    int64_t v;
    switch (r.below(9)) {
        case 0: v = (int64_t)(int32_t)r.u32(); break;
        case 1: v = (int64_t)1 << r.below(31); v += r.range(-2, 2); break;
        case 2: v = r.range(-3, 3) + (r.chance(.5) ? FMAX - 3 : 0); break;
        case 3: v = r.range(-40, 40) * 32768; break;
        case 4: v = (int64_t)r.range(-32768, 32767) * 65536 + r.range(-1, 1); break;
        case 5: v = (int64_t)std::ldexp(r.unit(), (int)r.range(1, 31)); break;
        case 6: v = r.range(-300000, 300000); break;
        case 7: v = (int64_t)(r.u32() & r.u32() & 0x7fffffff); break;
        default: v = (int64_t)((r.u32() | r.u32()) & 0x7fffffff); }
    if (r.chance(.5)) v = -v;
    return v > FMAX ? FMAX : v < -FMAX ? -FMAX : v; }
inline double val(int64_t raw) { return (double)raw / 65536.0; }
} // namespace vh
#endif
