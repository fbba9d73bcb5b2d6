// C10..C13: streams, bit fields, CRC and bounded copies, over a channel that truncates, flips and fragments.
#include <algorithm>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
extern "C" {
#include <swiftnav/bits.h>
#include <swiftnav/edc.h>
#include <swiftnav/memcpy_s.h>
}
struct Buf {   // exact-size buffer, guarded
  uint8_t *raw, *p; size_t n;
#ifdef SIM_ASAN
  static const size_t G = 0;
#else
  static const size_t G = 64;
#endif
  Buf(size_t bytes, U64 seed) : n(bytes) {
    raw = (uint8_t *)malloc(bytes + 2 * G + (bytes == 0)); memset(raw, 0xC3, bytes + 2 * G + (bytes == 0)); p = raw + G;
    Rng r(seed); unsigned style = (unsigned)(seed % 4);
    for (size_t i = 0; i < bytes; i++) p[i] = style == 0 ? (uint8_t)0xff : style == 1 ? (uint8_t)0 : (uint8_t)r.next();
  }
  ~Buf() { free(raw); }
  Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
  bool intact() { for (size_t i = 0; i < G; i++) if (raw[i] != 0xC3 || p[n + i] != 0xC3) return false; return true; }
};
static U64 bits_at(const uint8_t *b, U64 pos, unsigned len) {
  U64 v = 0;
  for (unsigned i = 0; i < len; i++, pos++) v = v << 1 | ((b[pos / 8] >> (7 - pos % 8)) & 1);
  return v;
}
static i64 sext(U64 v, unsigned len) { return len >= 64 ? (i64)v : (i64)(v << (64 - len)) >> (64 - len); }
// positions and lengths worth trying: inside, at the edge, far outside, near 2^32
static i64 wild(Rng &r, i64 total) {
  switch (r.below(9)) {
    case 0: return (i64)(0xffffffffu - r.below(70));
    case 1: return (i64)(0x80000000u + r.below(5));
    case 2: return total;
    case 3: return std::max<i64>(0, total - (i64)r.below(70));
    case 4: return total + (i64)r.below(70);
    case 5: return (i64)(uint32_t)r.next();
    default: return (i64)r.below((U64)total + 1);
  }
}
// =========================================================================== C10
static void gen_c10(Rng &r, Scenario &s, U64) {
  i64 bytes = r.pick({(i64)0, (i64)1, (i64)3, (i64)8, r.range(1, 40)});
  if (r.chance(1, 150)) bytes = r.chance(1, 3) ? r.range(8150, 8230) : r.range(41, 300);   // positions beyond 8, 12 and 16 bits
  bool bys = r.chance(2, 5);
  i64 cut = bys || r.chance(1, 2) ? 0 : r.range(0, std::min<i64>(7, bytes * 8));
  s.op("msg", {bytes, (i64)(r.next() >> 1), bys, cut, (i64)r.below(2)});
  if (r.chance(1, 3)) s.op("trunc", {(i64)r.below((U64)bytes + 1)});
  i64 total = bys ? bytes : bytes * 8 - cut;
  int n = (int)r.range(2, 20);
  if (bytes > 40 && r.chance(1, 2)) s.op("eat", {r.range(0, total)});
  for (int i = 0; i < n; i++) {
    if (bys) switch (r.below(6)) {
      case 0: case 1: case 2: s.op("dec", {(i64)r.below(8)}); break;
      case 3: s.op("get", {wild(r, total), r.chance(1, 4) ? wild(r, total) : (i64)r.below(12)}); break;
      case 4: s.op("over", {wild(r, total), wild(r, total)}); break;
      default: s.op("eat", {r.chance(1, 4) ? wild(r, total) : (i64)r.below(9)}); break;
    } else switch (r.below(8)) {
      case 0: s.op("eat", {r.chance(1, 5) ? wild(r, total) : (i64)r.below(40)}); break;
      case 1: s.op("over", {wild(r, total), wild(r, total)}); break;
      default: s.op("bit", {(i64)r.below(4), r.chance(1, 3) ? wild(r, total) : (i64)r.below(40), r.chance(1, 12) ? wild(r, total) : r.chance(1, 4) ? r.pick({(i64)32, (i64)64, (i64)0, (i64)31, (i64)33, (i64)63}) : r.range(1, 64)}); break;
    }
  }
}
static void run_c10(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    const Op *m = nullptr; i64 trunc = -1;
    for (auto &o : s.ops) { if (o.name == "msg" && !m) m = &o; if (o.name == "trunc") trunc = o.arg(0); }
    if (!m) return;
    size_t bytes = (size_t)((U64)m->arg(0) % 9000); bool bys = m->arg(2) & 1, big = m->arg(4) & 1;
    if (trunc >= 0 && (U64)trunc < bytes) { bytes = (size_t)trunc; c.fault("truncated_message"); }
    Buf b(bytes, (U64)m->arg(1)); std::vector<uint8_t> copy(b.p, b.p + bytes);
    U64 total = bys ? bytes : bytes * 8 - std::min<U64>((U64)m->arg(3) % 8, bytes * 8), used = 0, ok = 0, bad = 0;
    alignas(16) uint8_t st[64]; memset(st, 0x77, sizeof st);
    if (bys) shim_bys_init(st, b.p, (uint32_t)total, big); else shim_ibs_init(st, b.p, (uint32_t)total);
    for (auto &o : s.ops) {
      if (c.failed()) return;
      U64 left = total > used ? total - used : 0;
      if (o.name == "bit" && !bys) {
        int k = (int)((U64)o.arg(0) % 4); uint32_t pos = (uint32_t)o.arg(1), len = (uint32_t)o.arg(2);
        unsigned maxw = k < 2 ? 32 : 64;
        bool fits = used <= total && (U64)pos + len <= left;
        if (fits && len > maxw) continue;            // wider than the result: no meaning given
        if (fits && (k & 1) && len == 0) continue;   // a signed field of no bits: no meaning given
        uint32_t u = 0x5a5a5a5a; int32_t i = 0x5a5a5a5a; U64 ul = 0x5a5a5a5a5a5a5a5aull; i64 il = 0x5a5a5a5a5a5a5a5all;
        about_to("read kind %d at %u+%u, %llu used of %llu", k, pos, len, (unsigned long long)used, (unsigned long long)total);
        bool r = k == 0 ? shim_ibs_getu(st, &u, pos, len) : k == 1 ? shim_ibs_gets(st, &i, pos, len) : k == 2 ? shim_ibs_getul(st, (uint64_t *)&ul, pos, len) : shim_ibs_getsl(st, (int64_t *)&il, pos, len);
        U64 v = k == 0 ? u : k == 1 ? (U64)(i64)i : k == 2 ? ul : (U64)il;
        c.ev("read kind %d at %u+%u -> %d %llx", k, pos, len, r, (unsigned long long)v);
        if (r != fits) { c.fail("stream-bounds", "reading %u bits at %u with %llu of %llu bits left %s", len, pos, (unsigned long long)left, (unsigned long long)total, r ? "succeeded" : "failed"); return; }
        U64 want;
        if (fits) { U64 x = bits_at(copy.data(), used + pos, len); want = (k & 1) ? (U64)sext(x, len) : x; ok++; }
        else { want = k < 2 ? 0x5a5a5a5aull : 0x5a5a5a5a5a5a5a5aull; bad++; if ((U64)pos + len + used >= 0x100000000ull) c.fault("offset_arithmetic_wraps"); }
        if (v != want) { c.fail(fits ? "stream-value" : "stream-output-touched", "reading %u bits at %u of %llu gave %llx, expected %llx", len, pos, (unsigned long long)left, (unsigned long long)v, (unsigned long long)want); return; }
      } else if (o.name == "over") {
        uint32_t pos = (uint32_t)o.arg(0), len = (uint32_t)o.arg(1);
        bool want = used > total || (U64)pos + len > left;
        bool r = bys ? shim_bys_over(st, pos, len) : shim_ibs_over(st, pos, len);
        if (r != want) { c.fail("stream-bounds", "overflow test of %u+%u with %llu left says %d", pos, len, (unsigned long long)left, r); return; }
      } else if (o.name == "eat") {
        uint32_t n = (uint32_t)o.arg(0);
        bys ? shim_bys_remove(st, n) : shim_ibs_remove(st, n);
        used += n; if (used > total) c.fault("consumed_past_the_end");
      } else if (o.name == "get" && bys) {
        uint32_t ix = (uint32_t)o.arg(0), n = (uint32_t)o.arg(1);
        bool fits = used <= total && (U64)ix + n <= left;
        Buf d(fits ? n : std::min<uint32_t>(n, 64), 1);
        about_to("get %u bytes at %u, %llu used of %llu", n, ix, (unsigned long long)used, (unsigned long long)total);
        bool r = shim_bys_get(st, ix, n, d.p);
        c.ev("get %u at %u -> %d", n, ix, r);
        if (r != fits) { c.fail("stream-bounds", "taking %u bytes at %u with %llu left %s", n, ix, (unsigned long long)left, r ? "succeeded" : "failed"); return; }
        if (fits ? (n && memcmp(d.p, copy.data() + used + ix, n)) : false) { c.fail("stream-value", "bytes taken at %u differ from the message", ix); return; }
        if (!fits) { for (size_t i = 0; i < d.n; i++) if (d.p[i] != 0) { c.fail("stream-output-touched", "a refused read wrote to its output"); return; } bad++; if (used + ix + n >= 0x100000000ull) c.fault("offset_arithmetic_wraps"); } else ok++;
        if (!d.intact()) { c.fail("stream-overrun", "bytes were written past the output"); return; }
      } else if (o.name == "dec" && bys) {
        int t = (int)((U64)o.arg(0) % 8); unsigned w = 1u << (t / 2);
        alignas(8) uint8_t d[24]; memset(d, 0x5a, sizeof d);
        bool fits = used <= total && w <= left;
        bool r = shim_bys_decode(st, t, d + 8);
        c.ev("decode type %d -> %d", t, r);
        if (r != fits) { c.fail("stream-bounds", "decoding %u bytes with %llu left %s", w, (unsigned long long)left, r ? "succeeded" : "failed"); return; }
        if (fits) {
          for (unsigned i = 0; i < w; i++) {
            uint8_t e = copy[used + (big ? w - 1 - i : i)];     // host is little endian
            if (d[8 + i] != e) { c.fail("stream-value", "decoded %u-byte %s-endian integer has byte %u = %02x, expected %02x", w, big ? "big" : "little", i, d[8 + i], e); return; }
          }
          used += w; ok++;
        } else bad++;
        for (unsigned i = 0; i < 24; i++) if ((i < 8 || i >= 8 + (fits ? w : 0)) && d[i] != 0x5a) { c.fail("stream-output-touched", "decoding wrote outside its output"); return; }
      } else continue;
      uint32_t rem = bys ? shim_bys_remaining(st) : shim_ibs_remaining(st);
      U64 want = total > used ? total - used : 0;
      if (rem != want) { c.fail("stream-remaining", "%u reported remaining, %llu of %llu consumed", rem, (unsigned long long)used, (unsigned long long)total); return; }
      if (bytes && memcmp(copy.data(), b.p, bytes)) { c.fail("stream-data-modified", "reading changed the message"); return; }
      c.state(mix(total * 4096 + std::min<U64>(used, 4000), bys));
    }
    if (!b.intact()) c.fail("stream-overrun", "memory outside the message was written");
    c.nontrivial = ok > 0 && bad > 0;
  });
}
// =========================================================================== C11
static void gen_c11(Rng &r, Scenario &s, U64) {
  i64 bytes = r.range(1, 40);
  if (r.chance(1, 250)) bytes = r.chance(1, 4) ? r.range(8150, 8230) : r.range(41, 300);
  bool big = bytes > 40;
  s.op("buf", {bytes, (i64)(r.next() >> 1), r.range(0, 7)});
  int n = (int)r.range(2, 16);
  if (big && r.chance(1, 2)) s.op("eat", {r.range(0, bytes * 8)});
  auto val = [&]() -> i64 { return r.pick({(i64)0, (i64)-1, (i64)r.next(), (i64)1, (i64)0x8000000080000000ull}); };
  for (int i = 0; i < n; i++) switch (r.below(11)) {
    case 10: s.op("wire", {(i64)r.below(6), (i64)r.below((U64)bytes), val()}); break;
    case 0: s.op("shl", {r.chance(1, 3) ? wild(r, bytes * 8) : (i64)r.below((U64)bytes * 8 + 2), (i64)r.below((U64)bytes + 1)}); break;
    case 1: s.op("copy", {(i64)r.below((U64)bytes * 8), (i64)r.below(big && r.chance(1, 2) ? 70000 : 64), (i64)r.below((U64)bytes * 8 + 1), (i64)(r.next() >> 1)}); break;
    case 2: case 3: case 4: s.op("set", {(i64)r.below(4), (i64)r.below((U64)bytes * 8), r.chance(1, 3) ? r.pick({(i64)32, (i64)64, (i64)31, (i64)33, (i64)57, (i64)1, (i64)8}) : r.range(1, 64), val()}); break;
    case 5: s.op("eat", {r.chance(1, 6) ? wild(r, bytes * 8) : (i64)r.below(40)}); break;
    default: s.op("put", {(i64)r.below(4), r.chance(1, 3) ? wild(r, bytes * 8) : (i64)r.below(64), r.chance(1, 10) ? wild(r, bytes * 8) : r.range(1, 64), val()}); break;
  }
}
static void put_bits(std::vector<uint8_t> &b, U64 pos, unsigned len, U64 v) {
  for (unsigned i = 0; i < len; i++) {
    U64 p = pos + i; unsigned bit = (unsigned)(v >> (len - 1 - i)) & 1;
    b[p / 8] = (uint8_t)((b[p / 8] & ~(0x80 >> p % 8)) | (bit ? 0x80 >> p % 8 : 0));
  }
}
static void run_c11(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    const Op *m = nullptr;
    for (auto &o : s.ops) if (o.name == "buf" && !m) m = &o;
    if (!m) return;
    size_t bytes = 1 + (size_t)((U64)(m->arg(0) - 1) % 9000);
    Buf b(bytes, (U64)m->arg(1)); std::vector<uint8_t> e(b.p, b.p + bytes);
    U64 total = bytes * 8 - (U64)m->arg(2) % 8, used = 0, writes = 0, refused = 0;
    alignas(16) uint8_t st[64]; memset(st, 0x77, sizeof st);
    shim_obs_init(st, b.p, (uint32_t)total);
    for (auto &o : s.ops) {
      if (c.failed()) return;
      if (o.name == "set") {
        int k = (int)((U64)o.arg(0) % 4); unsigned w = 1 + (unsigned)((U64)(o.arg(2) - 1) % (k < 2 ? 32 : 64)); U64 pos = (U64)o.arg(1) % (bytes * 8), v = (U64)o.arg(3);
        if (pos + w > bytes * 8) { if (w > bytes * 8) continue; pos = bytes * 8 - w; }
        about_to("write kind %d width %u at %llu of %zu bytes", k, w, (unsigned long long)pos, bytes);
        if (k == 0) setbitu(b.p, (u32)pos, w, (u32)v); else if (k == 1) setbits(b.p, (u32)pos, w, (s32)v); else if (k == 2) setbitul(b.p, (u32)pos, w, v); else setbitsl(b.p, (u32)pos, w, (s64)v);
        put_bits(e, pos, w, v); writes++;
        U64 want = bits_at(e.data(), pos, w);
        if (w <= 32) {
          u32 g = getbitu(b.p, (u32)pos, (u8)w); s32 gs = getbits(b.p, (u32)pos, (u8)w);
          if (g != want || gs != (s32)sext(want, w)) { c.fail("bits-readback", "%u bits at %llu read back as %x/%x, written %llx", w, (unsigned long long)pos, g, (u32)gs, (unsigned long long)want); return; }
        }
        U64 g = getbitul(b.p, (u32)pos, (u8)w); i64 gs = getbitsl(b.p, (u32)pos, (u8)w);
        if (g != want || gs != sext(want, w)) { c.fail("bits-readback", "%u bits at %llu read back as %llx, written %llx", w, (unsigned long long)pos, (unsigned long long)g, (unsigned long long)want); return; }
        c.ev("write %u at %llu", w, (unsigned long long)pos);
      } else if (o.name == "put") {
        int k = (int)((U64)o.arg(0) % 4); uint32_t pos = (uint32_t)o.arg(1), w = (uint32_t)o.arg(2); U64 v = (U64)o.arg(3);
        bool fits = used <= total && (U64)pos + w <= total - used;
        if (fits && (w == 0 || w > (k < 2 ? 32u : 64u))) continue;   // no meaning given
        uint32_t u = (uint32_t)v; int32_t i = (int32_t)v; uint64_t ul = v; int64_t il = (int64_t)v;
        about_to("stream write kind %d at %u+%u, %llu used of %llu", k, pos, w, (unsigned long long)used, (unsigned long long)total);
        bool r = k == 0 ? shim_obs_setu(st, &u, pos, w) : k == 1 ? shim_obs_sets(st, &i, pos, w) : k == 2 ? shim_obs_setul(st, &ul, pos, w) : shim_obs_setsl(st, &il, pos, w);
        c.ev("stream write at %u+%u -> %d", pos, w, r);
        if (r != fits) { c.fail("stream-bounds", "writing %u bits at %u with %llu of %llu used %s", w, pos, (unsigned long long)used, (unsigned long long)total, r ? "succeeded" : "failed"); return; }
        if (fits) { put_bits(e, used + pos, w, v); writes++; } else { refused++; if (used + pos + w >= 0x100000000ull) c.fault("offset_arithmetic_wraps"); }
      } else if (o.name == "eat") {
        uint32_t n = (uint32_t)o.arg(0); shim_obs_remove(st, n); used += n; if (used > total) c.fault("consumed_past_the_end");
      } else if (o.name == "wire") {   // a word in a stated byte order, as it lies in a message
        int k = (int)((U64)o.arg(0) % 6); unsigned w = 2u << (k / 2); bool be = k & 1; U64 v = (U64)o.arg(2); if (w < 8) v &= (1ull << w * 8) - 1; if (w > bytes) continue; U64 at = (U64)o.arg(1) % (bytes - w + 1);
        about_to("placing a %u byte word", w); U64 back;
        if (w == 2) { u16 x = be ? htobe_16((u16)v) : htole_16((u16)v); memcpy(b.p + at, &x, 2); u16 y; memcpy(&y, b.p + at, 2); back = be ? betoh_16(y) : letoh_16(y); }
        else if (w == 4) { u32 x = be ? htobe_32((u32)v) : htole_32((u32)v); memcpy(b.p + at, &x, 4); u32 y; memcpy(&y, b.p + at, 4); back = be ? betoh_32(y) : letoh_32(y); }
        else { u64 x = be ? htobe_64(v) : htole_64(v); memcpy(b.p + at, &x, 8); u64 y; memcpy(&y, b.p + at, 8); back = be ? betoh_64(y) : letoh_64(y); }
        for (unsigned i = 0; i < w; i++) e[at + i] = (uint8_t)(v >> 8 * (be ? w - 1 - i : i));
        if (back != v) { c.fail("bits-readback", "a %u byte %s-endian word %llx reads back as %llx", w, be ? "big" : "little", (unsigned long long)v, (unsigned long long)back); return; }
        c.ev("word %u %d", w, be); writes++;
      } else if (o.name == "shl") {
        uint32_t sh = (uint32_t)o.arg(0), n = (uint32_t)((U64)o.arg(1) % (bytes + 1));
        if (n == 0) continue;
        about_to("shift %u bytes left by %u", n, sh);
        bitshl(b.p, n, sh);
        std::vector<uint8_t> old(e);
        for (U64 i = 0; i < n * 8ull; i++) { U64 from = i + sh; unsigned bit = from < n * 8ull ? (unsigned)bits_at(old.data(), from, 1) : 0; put_bits(e, i, 1, bit); }
        c.ev("shift %u by %u", n, sh); writes++;
      } else if (o.name == "copy") {
        U64 cnt = (U64)o.arg(2) % (bytes * 8 + 1), dst = (U64)o.arg(0) % (bytes * 8), src = (U64)o.arg(1) % 70000;
        if (dst + cnt > bytes * 8) cnt = bytes * 8 - dst;
        Buf x((size_t)((src + cnt + 7) / 8), (U64)o.arg(3)); std::vector<uint8_t> xs(x.p, x.p + x.n);
        about_to("copy %llu bits from %llu to %llu", (unsigned long long)cnt, (unsigned long long)src, (unsigned long long)dst);
        bitcopy(b.p, (u32)dst, x.p, (u32)src, (u32)cnt);
        for (U64 i = 0; i < cnt; i++) put_bits(e, dst + i, 1, bits_at(xs.data(), src + i, 1));
        if (!x.intact() || (x.n && memcmp(x.p, xs.data(), x.n))) { c.fail("bits-source-touched", "a bit copy changed its source"); return; }
        c.ev("copy %llu", (unsigned long long)cnt); writes++;
      } else continue;
      if (memcmp(e.data(), b.p, bytes)) {
        size_t i = 0; while (e[i] == b.p[i]) i++;
        c.fail("bits-content", "after %s(%lld,%lld,%lld) byte %zu of %zu is %02x, expected %02x", o.name.c_str(), (long long)o.arg(0), (long long)o.arg(1), (long long)o.arg(2), i, bytes, b.p[i], e[i]); return;
      }
      if (!b.intact()) { c.fail("bits-overrun", "memory outside the buffer was written"); return; }
      U64 want = total > used ? total - used : 0; uint32_t rem = shim_obs_remaining(st);
      if (rem != want) { c.fail("stream-remaining", "%u reported remaining, %llu of %llu consumed", rem, (unsigned long long)used, (unsigned long long)total); return; }
      c.state(hash_bytes(b.p, bytes));
    }
    c.nontrivial = writes > 1;
  });
}
// =========================================================================== C12
static uint32_t crc_model(const std::vector<uint8_t> &m, uint32_t crc) {   // polynomial division, bit by bit
  for (uint8_t x : m) { crc ^= (uint32_t)x << 16; for (int i = 0; i < 8; i++) { crc <<= 1; if (crc & 0x1000000) crc ^= 0x1864CFB; } }
  return crc & 0xffffff;
}
static void gen_c12(Rng &r, Scenario &s, U64) {
  i64 n = r.chance(1, 8) ? r.range(200, 1000) : r.range(0, 60);
  if (r.chance(1, 400)) n = r.chance(1, 2) ? r.range(8150, 8300) : r.range(65500, 65600);
  s.op("msg", {n, (i64)(r.next() >> 1), r.chance(1, 3) ? (i64)r.below(1u << 24) : 0});
  int k = (int)r.below(5);
  for (int i = 0; i < k; i++) s.op("cut", {r.range(0, n)});
  k = (int)r.range(1, 4);
  for (int i = 0; i < k; i++) switch (r.below(4)) {
    case 0: s.op("burst", {(i64)r.below((U64)(n + 3) * 8), r.range(1, 24), (i64)(r.next() & 0xffffff)}); break;
    case 1: s.op("two", {(i64)r.below((U64)(n + 3) * 8), (i64)r.below((U64)(n + 3) * 8)}); break;
    case 2: s.op("odd", {(i64)(r.next() >> 1), 2 * r.range(0, 20) + 1}); break;
    default: s.op("bitcrc", {r.chance(1, 3) ? std::max<i64>(0, n * 8 - (i64)r.below(40)) : r.range(0, n * 8), (i64)r.below(2)}); break;
  }
}
static void run_c12(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    const Op *m = nullptr; std::vector<size_t> cuts;
    for (auto &o : s.ops) if (o.name == "msg" && !m) m = &o;
    if (!m) return;
    size_t n = (size_t)((U64)m->arg(0) % 70000); uint32_t init = (uint32_t)m->arg(2) & 0xffffff;
    Buf b(n, (U64)m->arg(1)); std::vector<uint8_t> msg(b.p, b.p + n);
    for (auto &o : s.ops) if (o.name == "cut") cuts.push_back((size_t)((U64)o.arg(0) % (n + 1)));
    cuts.push_back(n); std::sort(cuts.begin(), cuts.end());
    uint32_t want = crc_model(msg, init), whole = crc24q(b.p, (u32)n, init), chain = init;
    size_t at = 0;
    for (size_t x : cuts) { Buf f(x - at, 1); if (x > at) memcpy(f.p, b.p + at, x - at); chain = crc24q(f.p, (u32)(x - at), chain); at = x; }
    if (cuts.size() > 1) c.fault("fragmented", cuts.size() - 1);
    c.ev("crc of %zu: %06x chain %06x", n, whole, chain);
    if (whole != want) { c.fail("crc-polynomial", "CRC of %zu bytes is %06x, the polynomial gives %06x", n, whole, want); return; }
    if (chain != want) { c.fail("crc-fragments", "CRC over %zu fragments is %06x, whole %06x", cuts.size(), chain, want); return; }
    if (memcmp(b.p, msg.data(), n) || !b.intact()) { c.fail("crc-overrun", "the message was modified"); return; }
    U64 nontriv = cuts.size() > 1;
    // the frame as transmitted: message followed by its CRC
    std::vector<uint8_t> frame(msg); frame.push_back((uint8_t)(want >> 16)); frame.push_back((uint8_t)(want >> 8)); frame.push_back((uint8_t)want);
    U64 nb = frame.size() * 8;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      std::vector<uint8_t> err(frame.size(), 0); const char *kind = nullptr;
      auto flip = [&](U64 p) { err[p / 8] ^= (uint8_t)(0x80 >> p % 8); };
      if (o.name == "burst") {
        U64 len = 1 + (U64)(o.arg(1) - 1) % 24; if (len > nb) continue;
        U64 p = (U64)o.arg(0) % (nb - len + 1), pat = (U64)o.arg(2) | 1 | 1ull << (len - 1);
        for (U64 i = 0; i < len; i++) if (pat >> i & 1) flip(p + i);
        kind = "burst_error";
      } else if (o.name == "two") { U64 p = (U64)o.arg(0) % nb, q = (U64)o.arg(1) % nb; flip(p); if (q != p) flip(q); kind = "double_bit_error"; }
      else if (o.name == "odd") {
        Rng r((U64)o.arg(0)); std::set<U64> pos; U64 k = std::min<U64>((U64)o.arg(1) | 1, nb | 1); if (k > nb) k -= 2;
        while (pos.size() < k) pos.insert(r.below(nb));
        for (U64 p : pos) flip(p);
        kind = "odd_bit_errors";
      } else if (o.name == "bitcrc") {
        U64 bits = (U64)o.arg(0) % (n * 8 + 1); bool inv = o.arg(1) & 1;
        Buf t((size_t)((bits + 7) / 8), 1); if (t.n) memcpy(t.p, b.p, t.n);
        if (bits % 8 && (o.arg(0) & 256)) t.p[t.n - 1] ^= (uint8_t)(0xff >> bits % 8);   // bits after the end do not matter
        about_to("bit-wise CRC of %llu bits%s", (unsigned long long)bits, inv ? " inverted" : "");
        uint32_t g = crc24q_bits(0, t.p, (u32)bits, inv);
        U64 pad = (8 - bits % 8) % 8; std::vector<uint8_t> e((size_t)((bits + pad) / 8), 0);
        for (U64 i = 0; i < bits; i++) put_bits(e, pad + i, 1, bits_at(msg.data(), i, 1) ^ (inv ? 1 : 0));
        uint32_t w = crc_model(e, 0);
        c.ev("bit crc of %llu bits: %06x", (unsigned long long)bits, g);
        if (g != w) { c.fail("crc-bits", "bit-wise CRC of %llu bits%s is %06x, expected %06x", (unsigned long long)bits, inv ? " inverted" : "", g, w); return; }
        c.probe(bits % 8 ? "bitwise_partial_byte" : "bitwise_whole_bytes"); nontriv++;
        continue;
      } else continue;
      c.fault(kind);
      std::vector<uint8_t> rx(frame); for (size_t i = 0; i < rx.size(); i++) rx[i] ^= err[i];
      if (init) continue;
      uint32_t got = crc24q(rx.data(), (u32)n, 0), sent = (uint32_t)rx[n] << 16 | (uint32_t)rx[n + 1] << 8 | rx[n + 2];
      c.ev("%s -> %06x vs %06x", kind, got, sent);
      if (got == sent) { c.fail("crc-missed", "%s in a frame of %zu bytes went undetected", kind, frame.size()); return; }
      nontriv++;
    }
    c.state(mix(want, n)); c.nontrivial = nontriv > 0;
  });
}
// =========================================================================== C13
static void gen_c13(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 10);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 400)) {   // sizes beyond 8 and 16 bits
      i64 top = r.pick({(i64)300, (i64)66000}), ds = top - r.range(0, 70), ct = r.chance(2, 3) ? ds - r.range(0, 4) : ds + r.range(1, 300), off = r.chance(1, 2) ? (r.chance(1, 2) ? 1 : -1) * r.range(top - 80, 70000) : 80000;
      if (r.chance(1, 4)) s.op("str", {ds, ct, (i64)(r.next() >> 1)}); else s.op("cpy", {2, ds, ct, off, (i64)(r.next() >> 1), 1});
      continue;
    }
    if (r.chance(1, 4)) { s.op("str", {r.range(0, 30), r.chance(1, 2) ? r.range(0, 34) : r.range(0, 4), (i64)(r.next() >> 1)}); continue; }
    i64 ds = r.chance(1, 6) ? 0 : r.range(1, 40), ct = r.chance(1, 8) ? 0 : r.chance(1, 5) ? ds : r.chance(1, 5) ? ds + r.range(1, 9) : r.range(1, 40);
    i64 mode = (i64)r.below(8);   // 0 dest NULL, 1 src NULL, 2.. placed in one arena
    i64 off = r.chance(1, 3) ? 200 : r.range(-45, 45);
    if (r.chance(1, 10)) ct = r.pick({(i64)0x100000000, (i64)0xffffffff, (i64)0x100000001, (i64)-1});
    s.op("cpy", {mode, ds, ct, off, (i64)(r.next() >> 1)});
  }
}
static void run_c13(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    U64 ok = 0, bad = 0;
    shim_quiet_logging();
    for (auto &o : s.ops) {
      if (c.failed()) return;
      if (o.name == "cpy") {
        size_t L = o.arg(5) ? 70000 : 64, arena = 4 * L + 144;
        size_t ds = (size_t)((U64)o.arg(1) % L), ct = (size_t)o.arg(2);
        if (ct > L && ct < 0xffffffffull) ct %= L;
        i64 off = o.arg(3), far = (i64)L + 136; if (off < -(i64)L || off > (i64)L) off = far;
        Buf a(arena, (U64)o.arg(4)); std::vector<uint8_t> e(a.p, a.p + arena);
        uint8_t *d = o.arg(0) == 0 ? nullptr : a.p + L + 36, *sr = o.arg(0) == 1 ? nullptr : a.p + L + 36 + off;
#ifdef SIM_ASAN
        uint8_t *own_d = nullptr, *own_s = nullptr;   // far apart: exact-size blocks of their own
        if (off == far) {
          if (d) d = own_d = (uint8_t *)malloc(ds + (ds == 0));
          if (sr && ct <= L) { sr = own_s = (uint8_t *)malloc(ct + (ct == 0)); memcpy(sr, a.p, ct); }
          if (d) memset(d, 9, ds + (ds == 0));
        }
#endif
        std::vector<uint8_t> src; if (sr && ct <= L) src.assign(sr, sr + ct);
        about_to("memcpy_s dest %s size %zu src %s count %zu offset %lld", d ? "set" : "NULL", ds, sr ? "set" : "NULL", ct, (long long)off);
        int r = (int)memcpy_s(d, ds, sr, ct);
        std::set<int> may;
        if (!d) may.insert(MEMCPY_S_DEST_NULL);
        if (!sr) may.insert(MEMCPY_S_SRC_NULL);
        if (ds == 0) may.insert(MEMCPY_S_DEST_SIZE_ZERO);
        if (ct == 0) may.insert(MEMCPY_S_SRC_SIZE_ZERO);
        if (ds < ct) may.insert(MEMCPY_S_OVERSIZED);
        bool same = d && d == sr;
        if (d && sr && !same && ct && ds && ((U64)(uintptr_t)sr < (U64)(uintptr_t)d + ds && (unsigned __int128)(uintptr_t)d < (unsigned __int128)(uintptr_t)sr + ct)) may.insert(MEMCPY_S_OVERLAP);
        if (may.empty()) { may.insert(MEMCPY_S_OK); if (same) may.insert(MEMCPY_S_OVERLAP); }
        c.ev("memcpy_s %zu into %zu -> %d", ct, ds, r);
        if (!may.count(r)) { c.fail("copy-result", "copying %zu bytes into %zu at offset %lld (dest %s, src %s) returned %d", ct, ds, (long long)off, d ? "set" : "NULL", sr ? "set" : "NULL", r); return; }
        if (r == MEMCPY_S_OK) { ok++; if (memcmp(d, src.data(), ct)) { c.fail("copy-content", "copied bytes differ from the source"); return; } if (d >= a.p && d < a.p + arena) memcpy(&e[(size_t)(d - a.p)], src.data(), ct); }
        else { bad++; c.fault("bad_arguments"); }
        if (memcmp(a.p, e.data(), arena) || !a.intact()) { c.fail("copy-overrun", "memory outside the requested bytes changed"); return; }
#ifdef SIM_ASAN
        if (own_d) { for (size_t i = r == MEMCPY_S_OK ? ct : 0; i < ds; i++) if (own_d[i] != 9) c.fail("copy-overrun", "memory outside the requested bytes changed"); }
        free(own_d); free(own_s);
#endif
        c.state(mix((U64)r * 4096 + ds * 64 + std::min<size_t>(ct, 63), (U64)off));
      } else if (o.name == "str") {
        size_t len = (size_t)((U64)o.arg(0) % 70000), max = (size_t)((U64)o.arg(1) % 70000);
        Buf b(std::min(len + 1, std::max<size_t>(max, 0)), (U64)o.arg(2));     // only the first max bytes exist
        for (size_t i = 0; i < b.n; i++) { if (i < len) { if (!b.p[i]) b.p[i] = 7; } else b.p[i] = 0; }
        about_to("strnlen of %zu bounded by %zu", len, max);
        size_t r = shim_strnlen((const char *)b.p, max);
        c.ev("strnlen %zu %zu -> %zu", len, max, r);
        if (r != std::min(len, max)) { c.fail("strnlen", "length of a %zu character string bounded by %zu given as %zu", len, max, r); return; }
        ok++;
      }
    }
    c.nontrivial = ok > 0 || bad > 0;
  });
}
Prop g_props[] = {
  {"C10", gen_c10, run_c10, 1000000, 6000000,
   "a run = one message of 0..40 (rarely up to 8230) bytes, possibly truncated, and 2..20 reads/consumptions at positions and lengths inside, at the edge, outside and near 2^32; non-trivial when some reads succeeded and some were refused",
   "include/swiftnav/bitstream.h, include/swiftnav/bytestream.h, src/bits.c", "channel that truncates messages", "hash of the event log"},
  {"C11", gen_c11, run_c11, 800000, 5000000,
   "a run = 2..16 field writes, words in either byte order, stream writes, shifts and bit copies on one buffer, whole buffer compared with a bit model after each; non-trivial with two writes",
   "src/bits.c, include/swiftnav/bitstream.h", "none", "hash of the event log"},
  {"C12", gen_c12, run_c12, 360000, 2000000,
   "a run = a message of 0..1000 (rarely up to 65600) bytes cut into up to 6 fragments and 1..4 channel errors or bit-wise CRCs; non-trivial when fragmented, corrupted or bit-wise",
   "src/edc.c", "channel that fragments and corrupts frames", "hash of the event log"},
  {"C13", gen_c13, run_c13, 1000000, 6000000,
   "a run = 1..10 checked copies (NULLs, sizes, overlaps, counts near 2^32 and 2^64) and bounded lengths; always non-trivial",
   "src/memcpy_s.c, include/swiftnav/swift_strnlen.h", "log sink", "hash of the event log"},
};
const int g_nprops = 4;
