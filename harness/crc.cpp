// K01: checksums equal the published CRC algorithms.
#include <include/crc.hpp>
#include "vh.hpp"
using namespace vh;
using qlibs::crc;

namespace {
// independent reference: long division over a bit string (no shift-register
// trick): message bits ++ width zero bits, init XORed on the leading bits
uint32_t ref(int width, const uint8_t *d, size_t n, uint32_t poly, uint32_t init, bool ri, bool ro, uint32_t xo) {
    std::vector<uint8_t> bits; bits.reserve(n * 8 + width);
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < 8; ++k) bits.push_back(ri ? (d[i] >> k) & 1 : (d[i] >> (7 - k)) & 1);
    bits.insert(bits.end(), width, 0);
    for (int k = 0; k < width && (size_t)k < bits.size(); ++k) bits[k] ^= (init >> (width - 1 - k)) & 1;
    for (size_t i = 0; i + width < bits.size(); ++i) if (bits[i]) for (int k = 0; k < width; ++k) bits[i + 1 + k] ^= (poly >> (width - 1 - k)) & 1;
    uint32_t r = 0; for (int k = 0; k < width; ++k) { uint32_t b = bits[bits.size() - width + k]; r |= b << (ro ? k : width - 1 - k); }
    uint32_t mask = width == 32 ? 0xFFFFFFFFu : (1u << width) - 1; return (r ^ xo) & mask;
}
struct Named { const char *name; int width; uint32_t (*fn)(const void *, size_t); uint32_t poly, init; bool ri, ro; uint32_t xo, check; };
#define N8(f) [](const void *p, size_t n) -> uint32_t { return crc::f(p, n); }
const Named named[] = {
    {"crc8", 8, N8(crc8), 0x07, 0, 0, 0, 0, 0xF4}, {"crc8_CDMA2000", 8, N8(crc8_CDMA2000), 0x9B, 0xFF, 0, 0, 0, 0xDA},
    {"crc8_DARC", 8, N8(crc8_DARC), 0x39, 0, 1, 1, 0, 0x15}, {"crc8_DVS_S2", 8, N8(crc8_DVS_S2), 0xD5, 0, 0, 0, 0, 0xBC},
    {"crc8_EBU", 8, N8(crc8_EBU), 0x1D, 0xFF, 1, 1, 0, 0x97}, {"crc8_I_CODE", 8, N8(crc8_I_CODE), 0x1D, 0xFD, 0, 0, 0, 0x7E},
    {"crc8_ITU", 8, N8(crc8_ITU), 0x07, 0, 0, 0, 0x55, 0xA1}, {"crc8_MAXIM", 8, N8(crc8_MAXIM), 0x31, 0, 1, 1, 0, 0xA1},
    {"crc8_ROHC", 8, N8(crc8_ROHC), 0x07, 0xFF, 1, 1, 0, 0xD0}, {"crc8_WCDMA", 8, N8(crc8_WCDMA), 0x9B, 0, 1, 1, 0, 0x25},
    {"crc16_CCITT_FALSE", 16, N8(crc16_CCITT_FALSE), 0x1021, 0xFFFF, 0, 0, 0, 0x29B1}, {"crc16_ARC", 16, N8(crc16_ARC), 0x8005, 0, 1, 1, 0, 0xBB3D},
    {"crc16_AUG_CCITT", 16, N8(crc16_AUG_CCITT), 0x1021, 0x1D0F, 0, 0, 0, 0xE5CC}, {"crc16_BUYPASS", 16, N8(crc16_BUYPASS), 0x8005, 0, 0, 0, 0, 0xFEE8},
    {"crc16_CDMA2000", 16, N8(crc16_CDMA2000), 0xC867, 0xFFFF, 0, 0, 0, 0x4C06}, {"crc16_DDS_110", 16, N8(crc16_DDS_110), 0x8005, 0x800D, 0, 0, 0, 0x9ECF},
    {"crc16_DECT_R", 16, N8(crc16_DECT_R), 0x0589, 0, 0, 0, 1, 0x007E}, {"crc16_DECT_X", 16, N8(crc16_DECT_X), 0x0589, 0, 0, 0, 0, 0x007F},
    {"crc16_DNP", 16, N8(crc16_DNP), 0x3D65, 0, 1, 1, 0xFFFF, 0xEA82}, {"crc16_EN_13757", 16, N8(crc16_EN_13757), 0x3D65, 0, 0, 0, 0xFFFF, 0xC2B7},
    {"crc16_GENIBUS", 16, N8(crc16_GENIBUS), 0x1021, 0xFFFF, 0, 0, 0xFFFF, 0xD64E}, {"crc16_MAXIM", 16, N8(crc16_MAXIM), 0x8005, 0, 1, 1, 0xFFFF, 0x44C2},
    {"crc16_MCRF4XX", 16, N8(crc16_MCRF4XX), 0x1021, 0xFFFF, 1, 1, 0, 0x6F91}, {"crc16_RIELLO", 16, N8(crc16_RIELLO), 0x1021, 0xB2AA, 1, 1, 0, 0x63D0},
    {"crc16_T10_DIF", 16, N8(crc16_T10_DIF), 0x8BB7, 0, 0, 0, 0, 0xD0DB}, {"crc16_TELEDISK", 16, N8(crc16_TELEDISK), 0xA097, 0, 0, 0, 0, 0x0FB3},
    {"crc16_TMS37157", 16, N8(crc16_TMS37157), 0x1021, 0x89EC, 1, 1, 0, 0x26B1}, {"crc16_USB", 16, N8(crc16_USB), 0x8005, 0xFFFF, 1, 1, 0xFFFF, 0xB4C8},
    {"crc16_A", 16, N8(crc16_A), 0x1021, 0xC6C6, 1, 1, 0, 0xBF05}, {"crc16_KERMIT", 16, N8(crc16_KERMIT), 0x1021, 0, 1, 1, 0, 0x2189},
    {"crc16_MODBUS", 16, N8(crc16_MODBUS), 0x8005, 0xFFFF, 1, 1, 0, 0x4B37}, {"crc16_X_25", 16, N8(crc16_X_25), 0x1021, 0xFFFF, 1, 1, 0xFFFF, 0x906E},
    {"crc16_XMODEM", 16, N8(crc16_XMODEM), 0x1021, 0, 0, 0, 0, 0x31C3},
    {"crc32", 32, N8(crc32), 0x04C11DB7, 0xFFFFFFFF, 1, 1, 0xFFFFFFFF, 0xCBF43926}, {"crc32_BZIP2", 32, N8(crc32_BZIP2), 0x04C11DB7, 0xFFFFFFFF, 0, 0, 0xFFFFFFFF, 0xFC891918},
    {"crc32_C", 32, N8(crc32_C), 0x1EDC6F41, 0xFFFFFFFF, 1, 1, 0xFFFFFFFF, 0xE3069283}, {"crc32_D", 32, N8(crc32_D), 0xA833982B, 0xFFFFFFFF, 1, 1, 0xFFFFFFFF, 0x87315576},
    {"crc32_JAMCRC", 32, N8(crc32_JAMCRC), 0x04C11DB7, 0xFFFFFFFF, 1, 1, 0, 0x340BC6D9}, {"crc32_MPEG2", 32, N8(crc32_MPEG2), 0x04C11DB7, 0xFFFFFFFF, 0, 0, 0, 0x0376E6E7},
    {"crc32_POSIX", 32, N8(crc32_POSIX), 0x04C11DB7, 0, 0, 0, 0xFFFFFFFF, 0x765E7680}, {"crc32_Q", 32, N8(crc32_Q), 0x814141AB, 0, 0, 0, 0, 0x3010BF7F},
    {"crc32_XFER", 32, N8(crc32_XFER), 0x000000AF, 0, 0, 0, 0, 0xBD0BE338},
};
const size_t NN = sizeof named / sizeof *named;
size_t len(Rng &r) { switch (r.below(8)) { case 0: return 1; case 1: return 2; case 2: return 255 + r.below(3); case 3: return r.chance(0.002) ? 65530 + r.below(5000) : r.chance(0.05) ? 1 + r.below(5000) : 1 + r.below(600); default: return 1 + r.below(40); } }
void fill(Rng &r, uint8_t *p, size_t n) { int m = (int)r.below(5); for (size_t i = 0; i < n; ++i) p[i] = m == 0 ? 0 : m == 1 ? 0xFF : m == 2 ? (uint8_t)(1u << r.below(8)) : (uint8_t)r.u32(); }
qlibs::crcMode mode(int w) { return w == 8 ? qlibs::CRC8 : w == 16 ? qlibs::CRC16 : qlibs::CRC32; }
}

MONITOR(catalogue, 60000, 2000000) {
    const Named &c = named[idx % NN]; size_t n = len(rng); Buf<uint8_t> b(n); fill(rng, b.p, n);
    std::vector<uint8_t> before = b.vec();
    uint32_t g = c.fn(b.p, n), e = ref(c.width, b.p, n, c.poly, c.init, c.ri, c.ro, c.xo);
    VH_CHECK(g == e, "%s over %zu bytes (first %02x) = %08x, expected %08x", c.name, n, b[0], g, e);
    VH_CHECK(c.fn(b.p, n) == g, "%s is not repeatable", c.name); VH_CHECK(b.vec() == before, "%s modified its input", c.name);
    seen(sig3(idx % NN, n, g)); ev(c.name); if (idx < 4 * NN) eg("%s(%zu bytes)=%08x", c.name, n, g);
    // error detection: any burst no longer than the width changes the checksum
    size_t bits = n * 8; size_t bl = 1 + rng.below((size_t)c.width); if (bl <= bits) {
        size_t at = rng.below(bits - bl + 1);
        auto flip = [&](size_t k) { b[k / 8] ^= c.ri ? (uint8_t)(1u << (k % 8)) : (uint8_t)(0x80u >> (k % 8)); };
        flip(at); if (bl > 1) flip(at + bl - 1); for (size_t k = 1; k + 1 < bl; ++k) if (rng.chance(0.5)) flip(at + k);
        VH_CHECK(c.fn(b.p, n) != g, "%s misses a burst error of %zu bits at bit %zu of %zu bytes", c.name, bl, at, n); ev("burst_detected");
    }
}
MONITOR(check_strings, 42, 42) {
    const Named &c = named[idx % NN]; uint32_t g = c.fn("123456789", 9);
    VH_CHECK(g == c.check, "%s(\"123456789\") = %08x, published check value %08x", c.name, g, c.check); seen(idx); ev("check_value");
    // all one-byte messages
    for (int k = 0; k < 256; ++k) { uint8_t d = (uint8_t)k; uint32_t r = c.fn(&d, 1), e = ref(c.width, &d, 1, c.poly, c.init, c.ri, c.ro, c.xo); VH_CHECK(r == e, "%s of byte %02x = %08x, expected %08x", c.name, k, r, e); seen(sig2(idx, k)); }
}
// lengths at and next to every power of two, and every short length, for every width
// messages of more than 2^20 bytes
MONITOR(megabytes, 3, 24) { static const int W[3] = {8, 16, 32}; int w = W[idx % 3]; size_t n = (1u << 20) + rng.below(200000); Buf<uint8_t> b(n); fill(rng, b.p, n); uint32_t poly = rng.u32() | 1, init = rng.u32(), xo = rng.u32(), mask = w == 32 ? 0xFFFFFFFFu : (1u << w) - 1; bool ri = rng.chance(.5), ro = rng.chance(.5); uint32_t g = crc::generic(mode(w), b.p, n, poly, init, ri, ro, xo), e = ref(w, b.p, n, poly & mask, init & mask, ri, ro, xo & mask); VH_CHECK(g == e, "width %d over %zu bytes = %08x, expected %08x", w, n, g, e); seen(sig3(w, n, g)); ev("megabytes"); }
MONITOR(lengths, 1400, 4000) {
    static const int W[3] = {8, 16, 32}; int w = W[idx % 3]; size_t q = idx / 3, n = q < 54 ? ((size_t)1 << (1 + q / 3)) + q % 3 - 1 : q < 120 ? 2 * (q - 54) * 512 + 511 + rng.below(3) : 1 + (q - 120) * 4 % 3000 + rng.below(4); Buf<uint8_t> b(n); fill(rng, b.p, n); uint32_t poly = rng.u32() | 1, init = rng.u32(), xo = rng.u32(), mask = w == 32 ? 0xFFFFFFFFu : (1u << w) - 1; bool ri = rng.chance(.5), ro = rng.chance(.5);
    uint32_t g = crc::generic(mode(w), b.p, n, poly, init, ri, ro, xo), e = ref(w, b.p, n, poly & mask, init & mask, ri, ro, xo & mask); VH_CHECK(g == e, "width %d over %zu bytes = %08x, expected %08x", w, n, g, e); seen(sig3(w, n, g)); ev("length_swept");
}
MONITOR(parametric, 60000, 3000000) {
    static const int W[3] = {8, 16, 32}; int w = W[rng.below(3)]; uint32_t poly = rng.u32(), init = rng.chance(0.3) ? 0 : rng.u32(), xo = rng.chance(0.3) ? 0 : rng.u32(); bool ri = rng.chance(0.5), ro = rng.chance(0.5);
    uint32_t mask = w == 32 ? 0xFFFFFFFFu : (1u << w) - 1; if (rng.chance(0.7)) { poly &= mask; init &= mask; xo &= mask; }
    size_t n = len(rng); Buf<uint8_t> b(n); fill(rng, b.p, n);
    uint32_t g = crc::generic(mode(w), b.p, n, poly, init, ri, ro, xo), e = ref(w, b.p, n, poly & mask, init & mask, ri, ro, xo & mask);
    VH_CHECK(g == e, "width %d poly %08x init %08x refIn %d refOut %d xorOut %08x over %zu bytes = %08x, expected %08x", w, poly, init, ri, ro, xo, n, g, e);
    VH_CHECK((g & ~mask) == 0, "result %08x exceeds %d bits", g, w);
    seen(sig3(poly, init ^ xo, sig3(w * 4 + ri * 2 + ro, n, g))); ev(w == 8 ? "width8" : w == 16 ? "width16" : "width32"); if (ri != ro) ev("mixed_reflection");
    if (idx < 12) eg("width %d poly %08x init %08x ri %d ro %d xo %08x n %zu -> %08x", w, poly, init, ri, ro, xo, n, g);
    // continuation: without output stages, checksum of a concatenation = checksum of the tail started from the head's value
    if (n > 1) { size_t k = 1 + rng.below(n - 1); uint32_t h = crc::generic(mode(w), b.p, k, poly, init, ri, false, 0), t = crc::generic(mode(w), b.p + k, n - k, poly, h, ri, ro, xo); VH_CHECK(t == g, "split at %zu of %zu gives %08x instead of %08x (width %d)", k, n, t, g, w); ev("continued"); }
}
MONITOR(rejections, 50, 50) {
    uint8_t d[4] = {1, 2, 3, 4};
    for (int w = 0; w < 3; ++w) { VH_CHECK(crc::generic((qlibs::crcMode)w, nullptr, 4, 7, 0xFF) == 0, "nullptr data must give 0"); VH_CHECK(crc::generic((qlibs::crcMode)w, d, 0, 7, 0xFF, false, false, 0xFF) == 0, "empty data must give 0"); }
    for (size_t i = 0; i < NN; ++i) { VH_CHECK(named[i].fn(nullptr, 4) == 0 && named[i].fn(d, 0) == 0, "%s of nothing must give 0", named[i].name); }
    seen(idx); ev("rejected");
}
VH_MAIN
