// B01: a bit field behaves as an independent array of bits.
#include <include/bitfield.hpp>
#include "vh.hpp"
using namespace vh;
using qlibs::bitfield;

namespace {
struct Model {
    std::vector<uint8_t> b;
    explicit Model(size_t n) : b(n, 0) {}
    void fromArea(const uint8_t *a) { for (size_t i = 0; i < b.size(); ++i) b[i] = (a[i / 8] >> (i % 8)) & 1; }
    uint32_t get(size_t i, size_t n) const { uint32_t v = 0; for (size_t k = 0; k < n; ++k) if (i + k < b.size() && b[i + k]) v |= 1u << k; return v; }
    void put(size_t i, size_t n, uint32_t v) { for (size_t k = 0; k < n; ++k) if (i + k < b.size()) b[i + k] = (v >> k) & 1; }
};
struct Area {
    size_t bytes; Buf<uint32_t> mem; bitfield bf; Model m;
    Area(size_t words, Rng &r) : bytes(words * 4), mem(words), m(words * 32) {
        for (size_t i = 0; i < words; ++i) mem[i] = r.u32();
        VH_CHECK(bf.setup(mem.p, bytes), "setup refused a valid area of %zu bytes", bytes);
        m.fromArea((uint8_t *)mem.p);
    }
    void compareAll(const char *after) {
        mem.check("the bit area");
        std::vector<uint8_t> d(bytes + 8, 0x5C);
        void *r = bf.dump(d.data(), bytes);
        VH_CHECK(r == d.data(), "dump of %zu bytes refused", bytes);
        for (size_t i = 0; i < 8; ++i) VH_CHECK(d[bytes + i] == 0x5C, "dump wrote past the %zu bytes requested", bytes);
        for (size_t i = 0; i < m.b.size(); ++i) {
            int got = (d[i / 8] >> (i % 8)) & 1;
            VH_CHECK(got == m.b[i], "after %s: bit %zu of %zu is %d in the dump, expected %d", after, i, m.b.size(), got, m.b[i]);
        }
        evaln();
    }
    void compareReads(Rng &r, const char *after) {
        for (size_t i = 0; i < m.b.size(); ++i) VH_CHECK(bf.readBit(i) == (m.b[i] != 0), "after %s: readBit(%zu) != %d", after, i, m.b[i]);
        for (int k = 0; k < 12; ++k) { size_t i = r.below(m.b.size()), n = 1 + r.below(32); uint32_t g = bf.readUINTn(i, n), e = m.get(i, n); VH_CHECK(g == e, "after %s: readUINTn(%zu,%zu) = %08x expected %08x (%zu bits)", after, i, n, g, e, m.b.size()); }
        evaln(m.b.size());
    }
    void step(Rng &r) {
        size_t N = m.b.size(), i = r.chance(0.3) ? (r.chance(0.5) ? N - 1 - r.below(N < 40 ? N : 40) : r.below(N < 40 ? N : 40)) : r.below(N);
        char w[96]; int op = (int)r.below(13); bool ok = true;
        switch (op) {
            case 0: snprintf(w, sizeof w, "setBit(%zu)", i); ok = bf.setBit(i); m.b[i] = 1; break;
            case 1: snprintf(w, sizeof w, "clearBit(%zu)", i); ok = bf.clearBit(i); m.b[i] = 0; break;
            case 2: snprintf(w, sizeof w, "toggleBit(%zu)", i); ok = bf.toggleBit(i); m.b[i] ^= 1; break;
            case 3: { bool v = r.chance(0.5); snprintf(w, sizeof w, "writeBit(%zu,%d)", i, v); ok = bf.writeBit(i, v); m.b[i] = v; break; }
            case 4: case 5: case 6: case 7: {
                size_t n = 1 + r.below(32); uint32_t v = r.chance(0.2) ? 0xFFFFFFFFu : (r.chance(0.1) ? 0 : r.u32());
                if (r.chance(0.85) && i + n > N) i = N - n;           // mostly in range, sometimes across the end
                snprintf(w, sizeof w, "writeUINTn(%zu,%zu,0x%x)", i, n, v); ok = bf.writeUINTn(i, n, v);
                if (n == 1) m.b[i] = v != 0; else m.put(i, n, v);
                seen(sig3(n, i % 32, i / 32)); ev("field_write"); if (i % 32 + n > 32) ev("field_write_across_words"); if (i + n > N) ev("field_write_across_end");
                VH_CHECK(bf.readUINTn(i, n) == m.get(i, n), "%s then read gives %08x, expected %08x", w, bf.readUINTn(i, n), m.get(i, n));
                break; }
            case 8: { float f = r.anyFloat(); if (r.chance(0.15)) { static const uint32_t SP[] = {0x80000000u, 0u, 0x7F800000u, 0xFF800000u, 1u, 0x80000001u, 0x7FFFFFu, 0x7FC00001u, 0xFFFFFFFFu}; uint32_t q = SP[r.below(9)]; memcpy(&f, &q, 4); } if (N < 32) return; i = r.below(N - 31); uint32_t b; memcpy(&b, &f, 4);
                snprintf(w, sizeof w, "writeFloat(%zu)", i); ok = bf.writeFloat(i, f); m.put(i, 32, b); float g = bf.readFloat(i);
                ev("float_round_trip"); VH_CHECK(fb(g) == b || (std::isnan(f) && std::isnan(g)), "%s: float read back %08llx, written %08x", w, (unsigned long long)fb(g), b); if (fb(g) != b) m.put(i, 32, (uint32_t)fb(g)); break; }
            case 9: if (r.chance(0.2)) { snprintf(w, sizeof w, "clearAll"); ok = bf.clearAll(); std::fill(m.b.begin(), m.b.end(), 0); ev("clearAll"); } else { snprintf(w, sizeof w, "nothing"); } break;
            case 10: if (r.chance(0.2)) { snprintf(w, sizeof w, "setAll"); ok = bf.setAll(); std::fill(m.b.begin(), m.b.end(), 1); ev("setAll"); } else { snprintf(w, sizeof w, "nothing"); } break;
            case 11: { // rejected accesses leave everything unchanged
                size_t n = r.chance(0.5) ? 0 : 33 + r.below(1000); snprintf(w, sizeof w, "writeUINTn(%zu,%zu)", i, n);
                VH_CHECK(!bf.writeUINTn(i, n, r.u32()), "%s: width out of 1..32 was accepted", w); VH_CHECK(bf.readUINTn(i, n) == 0, "readUINTn(%zu,%zu): width out of 1..32 must read 0", i, n); ev("rejected_width"); break; }
            default: { uint8_t d[4]; size_t n = bytes + 1 + r.below(64); snprintf(w, sizeof w, "dump(%zu)", n); VH_CHECK(bf.dump(d, n) == nullptr, "dump of %zu bytes out of %zu was accepted", n, bytes); VH_CHECK(bf.dump(nullptr, 1) == nullptr, "dump to nullptr accepted");
                size_t k = r.below(bytes + 1); std::vector<uint8_t> p(k + 1, 0xEE); VH_CHECK(bf.dump(p.data(), k) == p.data() && p[k] == 0xEE && memcmp(p.data(), mem.p, k) == 0, "partial dump of %zu bytes", k); ev("dump"); break; }
        }
        VH_CHECK(ok, "%s refused on a valid area", w);
        mem.check("the bit area");
        if (r.chance(0.25)) compareAll(w); else if (r.chance(0.1)) compareReads(r, w);
        last = w;
    }
    std::string last;
};
}

MONITOR(random_history, 4000, 100000) {
    // two fields side by side: operations on one never show in the other
    size_t w1 = 1 + rng.below(rng.chance(0.2) ? 40 : 6), w2 = 1 + rng.below(6);
    Area a(w1, rng), b(w2, rng);
    int steps = 20 + (int)rng.below(60);
    for (int i = 0; i < steps; ++i) { (rng.chance(0.5) ? a : b).step(rng); }
    a.compareAll(a.last.c_str()); b.compareAll(b.last.c_str()); a.compareReads(rng, a.last.c_str());
    eg("area of %zu words, %d operations, last %s", w1, steps, a.last.c_str());
}

// one bit field object set up over one area after the other
MONITOR(moved, 800, 20000) {
    bitfield f; int rounds = 2 + (int)rng.below(4); std::vector<std::unique_ptr<Area>> old;
    for (int k = 0; k < rounds; ++k) { old.emplace_back(new Area(1 + rng.below(rng.chance(.3) ? 30 : 5), rng)); Area &a = *old.back(); VH_CHECK(f.setup(a.mem.p, a.bytes), "setup over another area of %zu bytes refused", a.bytes); memcpy((void *)&a.bf, (void *)&f, sizeof f); for (int i = 0, n = 5 + (int)rng.below(30); i < n; ++i) a.step(rng); for (auto &o : old) o->compareAll("operations after a setup over another area"); ev("moved"); }
}
// every (bit offset, width, slot relation) of a write, on contrasting backgrounds
MONITOR(all_offsets_widths, 96 * 2, 96 * 2) {
    size_t i = idx % 96; bool ones = idx >= 96;
    for (size_t n = 1; n <= 32; ++n) for (int pat = 0; pat < 4; ++pat) {
        Area a(3, rng);
        if (ones) { a.bf.setAll(); std::fill(a.m.b.begin(), a.m.b.end(), 1); } else { a.bf.clearAll(); std::fill(a.m.b.begin(), a.m.b.end(), 0); }
        uint32_t v = pat == 0 ? 0xFFFFFFFFu : pat == 1 ? 0u : pat == 2 ? 0xA5A5A5A5u : rng.u32();
        VH_CHECK(a.bf.writeUINTn(i, n, v), "write refused");
        if (n == 1) a.m.b[i] = v != 0; else a.m.put(i, n, v);
        VH_CHECK(a.bf.readUINTn(i, n) == a.m.get(i, n), "writeUINTn(%zu,%zu,%08x) reads back %08x", i, n, v, a.bf.readUINTn(i, n));
        char w[64]; snprintf(w, sizeof w, "writeUINTn(%zu,%zu,0x%x)", i, n, v); a.compareAll(w); seen(sig3(i, n, pat));
        uint32_t f2 = rng.u32(); float f; memcpy(&f, &f2, 4);
        if (n == 32 && i <= 64 && f == f) { a.bf.writeFloat(i, f); a.m.put(i, 32, f2); a.compareAll("writeFloat"); VH_CHECK(fb(a.bf.readFloat(i)) == f2, "readFloat(%zu)", i); }
    }
    ev("offset_width_grid");
}

MONITOR(single_bits, 200, 2000) {
    size_t words = 1 + rng.below(8); Area a(words, rng);
    for (size_t i = 0; i < words * 32; ++i) {
        uint8_t before = a.m.b[i];
        switch (rng.below(4)) { case 0: VH_CHECK(a.bf.setBit(i), "setBit"); a.m.b[i] = 1; break; case 1: VH_CHECK(a.bf.clearBit(i), "clearBit"); a.m.b[i] = 0; break; case 2: VH_CHECK(a.bf.toggleBit(i), "toggleBit"); a.m.b[i] ^= 1; break; default: VH_CHECK(a.bf.writeBit(i, !before), "writeBit"); a.m.b[i] = !before; }
        a.compareAll("a single-bit operation"); seen(sig2(i, before));
    }
    a.compareReads(rng, "single-bit operations"); ev("bit_walk");
}

// areas of many thousands of bits: every word is reachable, far positions do not alias near ones
MONITOR(large_area, 12, 200) {
    size_t words = 2040 + rng.below(20); if (idx % 2) words = 2500 + rng.below(3000); if (idx == 2) words = 65537 + rng.below(40); Area a(words, rng); size_t N = words * 32;
    for (int k = 0; k < 60; ++k) { a.step(rng); size_t i = N - 1 - rng.below(200), n = 1 + rng.below(32); if (i + n > N) i = N - n; uint32_t v = rng.u32(); VH_CHECK(a.bf.writeUINTn(i, n, v), "write refused"); if (n == 1) a.m.b[i] = v != 0; else a.m.put(i, n, v); VH_CHECK(a.bf.readUINTn(i, n) == a.m.get(i, n), "writeUINTn(%zu,%zu,%08x) of %zu bits reads back %08x", i, n, v, N, a.bf.readUINTn(i, n)); size_t j = rng.below(N); bool b = rng.chance(.5); VH_CHECK(a.bf.writeBit(j, b), "writeBit refused"); a.m.b[j] = b; VH_CHECK(a.bf.readUINTn(j, 1) == (uint32_t)b && a.bf.readBit(j) == b, "bit %zu of %zu", j, N); }
    for (size_t i = 0; i < N; i += 7) VH_CHECK(a.bf.readUINTn(i, 1) == a.m.get(i, 1), "one-bit field %zu of %zu", i, N);
    a.compareAll("operations on a large area"); a.compareReads(rng, "operations on a large area"); seen(sig2(words, idx)); ev("large_area");
}
MONITOR(not_set_up, 20, 20) {
    bitfield f; float g; uint8_t d[4];
    VH_CHECK(!f.setup(nullptr, 8), "setup(nullptr) accepted"); uint32_t w = 0; VH_CHECK(!f.setup(&w, 0), "setup with size 0 accepted");
    VH_CHECK(!f.setBit(0) && !f.clearBit(0) && !f.toggleBit(0) && !f.writeBit(0, true) && !f.readBit(0) && !f.clearAll() && !f.setAll(), "an operation on a field without area reported success");
    VH_CHECK(f.readUINTn(0, 8) == 0 && !f.writeUINTn(0, 8, 1) && !f.writeFloat(0, 1.0f) && (g = f.readFloat(0)) == 0.0f && f.dump(d, 4) == nullptr, "an access to a field without area reported success");
    // a refused setup leaves the previous area in place; a new one redirects everything
    uint32_t a = 0, b = 0; bitfield h; VH_CHECK(h.setup(&a, 4), "setup"); h.setBit(3); VH_CHECK(!h.setup(nullptr, 4) && !h.setup(&b, 0), "bad setup accepted"); h.setBit(4); VH_CHECK(a == 0x18, "refused setup changed the area in use");
    VH_CHECK(h.setup(&b, 4), "re-setup"); h.setBit(31); VH_CHECK(a == 0x18 && b == 0x80000000u, "re-setup did not redirect the field"); seen(idx); ev("lifecycle");
    alignas(4) static uint8_t area[sizeof(qlibs::bitArea<70>)]; bitfield k; VH_CHECK(sizeof(qlibs::bitArea<70>) == 12 && sizeof(qlibs::bitArea<64>) == 8 && sizeof(qlibs::bitArea<1>) == 4 && sizeof(qlibs::bitArea<65>) == 12, "area type has the wrong size"); VH_CHECK(k.setup(area), "setup(array)"); VH_CHECK(k.setAll() && k.readBit(95), "array setup uses the whole array");
}
// one field in use for more than 2^16 operations of each kind
MONITOR(soak, 3, 40) {
    Buf<uint32_t> mem(2); bitfield f; VH_CHECK(f.setup(mem.p, 8) && f.clearAll(), "setup refused"); uint64_t m = 0; size_t N = 66000 + rng.below(70000);
    for (size_t k = 0; k < N; ++k) { size_t a = rng.below(64), b = rng.below(64), c = rng.below(64), d = rng.below(64), n = 2 + rng.below(31), i = rng.below(65 - n), j = rng.below(33); bool v = rng.chance(.5); uint32_t x = rng.u32(); auto same = [&](const char *op) { uint64_t g; memcpy(&g, mem.p, 8); VH_CHECK(g == m, "after %s number %zu on one field the area holds %016llx, expected %016llx", op, k, (unsigned long long)g, (unsigned long long)m); };
        VH_CHECK(f.setBit(a), "setBit"); m |= 1ull << a; same("setBit"); VH_CHECK(f.clearBit(b), "clearBit"); m &= ~(1ull << b); same("clearBit"); VH_CHECK(f.toggleBit(c), "toggleBit"); m ^= 1ull << c; same("toggleBit"); VH_CHECK(f.writeBit(d, v), "writeBit"); m = v ? m | 1ull << d : m & ~(1ull << d); same("writeBit"); uint64_t q = ((1ull << n) - 1) << i; VH_CHECK(f.writeUINTn(i, n, x), "writeUINTn"); m = (m & ~q) | (((uint64_t)x << i) & q); same("writeUINTn"); uint32_t y = f.readUINTn(i, n), z = (uint32_t)((m & q) >> i); VH_CHECK(y == z, "readUINTn number %zu on one field gives %08x, expected %08x", k, y, z); VH_CHECK(f.readBit(b) == (bool)(m >> b & 1), "readBit number %zu on one field", k);
        uint32_t h = x & 0xBFFFFFFFu; float g; memcpy(&g, &h, 4); VH_CHECK(f.writeFloat(j, g), "writeFloat"); m = (m & ~(0xFFFFFFFFull << j)) | (uint64_t)h << j; same("writeFloat"); VH_CHECK((uint32_t)fb(f.readFloat(j)) == h, "readFloat number %zu on one field", k); uint64_t o = 0; VH_CHECK(f.dump(&o, 8) == &o && o == m, "dump number %zu of one field", k); if (k % 4 == 0) { VH_CHECK(v ? f.setAll() : f.clearAll(), "setAll/clearAll"); m = v ? ~0ull : 0; same(v ? "setAll" : "clearAll"); m = rng.u64(); memcpy(mem.p, &m, 8); } if (k % 64 == 0) seen(sig3(i, n, x)); }
    mem.check("the bit area"); ev("long_run_operations", N);
}
VH_MAIN
