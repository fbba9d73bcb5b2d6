// C08, C09: signal-identifier sets and generic sorted sets.
#include <algorithm>
#include <cstdlib>
#include "sim.h"
extern "C" {
#include <swiftnav/array_tools.h>
#include <swiftnav/set.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/signal.h>
}
// =========================================================================== C08
static gnss_signal_t sid_of(i64 code, i64 k) {   // k-th satellite of the code's constellation
  gnss_signal_t s; s.code = (code_t)((U64)code % CODE_COUNT);
  u16 n = code_to_sig_count(s.code);
  s.sat = 0;
  if (n) s = sid_from_code_index(s.code, (u16)((U64)k % n));
  return s;
}
// documented signal order: constellation, then code, then satellite
static U64 order(gnss_signal_t s) { return ((U64)code_to_constellation(s.code) << 32) | ((U64)s.code << 16) | s.sat; }
static void gen_c08(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(2, 50);
  bool narrow = r.chance(1, 2);
  i64 c0 = (i64)r.below(CODE_COUNT), k0 = (i64)r.below(64);
  for (int i = 0; i < n; i++) {
    i64 code = narrow && r.chance(3, 4) ? c0 + (i64)r.below(3) : (i64)r.below(CODE_COUNT), k = narrow && r.chance(3, 4) ? k0 + (i64)r.below(2) : r.chance(1, 6) ? 63 - (i64)r.below(3) : (i64)r.below(64);
    s.op(r.chance(1, 6) ? "delx" : r.chance(1, 6) ? "del" : r.chance(1, 40) ? "init" : r.chance(1, 30) ? "copy" : "add", {code, k, (i64)r.below(2)});
  }
}
static void run_c08(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    gnss_sid_set_t st[2]; memset(st, 0xA7, sizeof st);
    std::set<std::pair<int, int>> m[2];
    for (auto &x : st) sid_set_init(&x);
    U64 adds = 0, dels = 0;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      int w = (int)(o.arg(2) & 1); gnss_signal_t sid = sid_of(o.arg(0), o.arg(1));
      if (o.name == "delx" && !m[w].empty()) { auto it = m[w].begin(); std::advance(it, (size_t)((U64)(o.arg(0) * 7 + o.arg(1)) % m[w].size())); sid.code = (code_t)it->first; sid.sat = (u16)it->second; }
      if (!sid_valid(sid)) continue;
      std::pair<int, int> key(sid.code, sid.sat);
      if (o.name == "add") { if (m[w].count(key)) c.probe("added_twice"); sid_set_add(&st[w], sid); m[w].insert(key); adds++; }
      else if (o.name == "del" || o.name == "delx") { if (!m[w].count(key)) c.probe("removed_absent"); else dels++; sid_set_remove(&st[w], sid); m[w].erase(key); }
      else if (o.name == "init") { sid_set_init(&st[w]); m[w].clear(); }
      else if (o.name == "copy") { st[w] = st[!w]; m[w] = m[!w]; }
      for (int q = 0; q < 2 && !c.failed(); q++) {
        std::set<std::pair<int, int>> sats;
        for (auto &x : m[q]) sats.insert({(int)code_to_constellation((code_t)x.first), x.second});
        u32 a = sid_set_get_sig_count(&st[q]), b = sid_set_get_sat_count(&st[q]);
        if (a != m[q].size()) c.fail("sidset-signals", "set of %zu signals reports %u", m[q].size(), a);
        else if (b != sats.size()) c.fail("sidset-satellites", "set of %zu satellites reports %u", sats.size(), b);
        c.ev("set %d: %u signals %u satellites", q, a, b);
        c.state(mix(a * 64 + b, m[q].empty() ? 0 : (U64)m[q].begin()->first));
      }
      // membership of the touched signal, its neighbours, and everything at the end
      for (int d = -1; d <= 1 && !c.failed(); d++) for (int e = -1; e <= 1; e++) {
        gnss_signal_t x = {(u16)(sid.sat + d), (code_t)(sid.code + e)};
        if (x.code < 0 || x.code >= CODE_COUNT || !sid_valid(x)) continue;
        for (int q = 0; q < 2; q++)
          if (sid_set_contains(&st[q], x) != (m[q].count({x.code, x.sat}) != 0)) { c.fail("sidset-member", "signal %d/%u membership is wrong after %s of %d/%u", (int)x.code, x.sat, o.name.c_str(), (int)sid.code, sid.sat); return; }
      }
    }
    for (int code = 0; code < CODE_COUNT && !c.failed(); code++) if (((U64)code + s.seed) % 4 == 0)
      for (u16 k = 0; k < code_to_sig_count((code_t)code); k++) {
        gnss_signal_t x = sid_from_code_index((code_t)code, k);
        for (int q = 0; q < 2; q++)
          if (sid_set_contains(&st[q], x) != (m[q].count({x.code, x.sat}) != 0)) { c.fail("sidset-member", "signal %d/%u membership is wrong at the end", code, x.sat); return; }
      }
    c.nontrivial = adds > 1 && dels > 0;
  });
}

// =========================================================================== C09
// An element is a 32-bit key followed by payload derived from (key, owner).
static const int ESZ[4] = {4, 8, 12, 20};
static void elem(uint8_t *p, int sz, int32_t key, int owner) {
  memcpy(p, &key, 4);
  for (int i = 4; i < sz; i++) p[i] = (uint8_t)(mix((U64)(uint32_t)key, (U64)owner * 32 + (U64)i) >> 9);
}
static int cmp_key(const void *a, const void *b) { int32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
static int cmp_big(const void *a, const void *b) { return cmp_key(a, b) * 1000003; }   // only the sign may matter
struct Arr {   // exact-size array with guards (the address checker guards it in variant A)
  uint8_t *raw, *p; size_t n;
#ifdef SIM_ASAN
  static const size_t G = 0;
#else
  static const size_t G = 64;
#endif
  explicit Arr(size_t bytes) : n(bytes) { raw = (uint8_t *)malloc(bytes + 2 * G + (bytes == 0)); memset(raw, 0xC3, bytes + 2 * G + (bytes == 0)); p = raw + G; }
  ~Arr() { free(raw); }
  Arr(const Arr &) = delete; Arr &operator=(const Arr &) = delete;
  bool intact() { for (size_t i = 0; i < G; i++) if (raw[i] != 0xC3 || p[n + i] != 0xC3) return false; return true; }
};
static int32_t key_of(Rng &r, int style) {
  switch (style) {
    case 0: return (int32_t)r.range(0, 8);
    case 1: return (int32_t)r.range(-30, 30);
    case 2: return r.pick({(int32_t)0, INT32_MIN, INT32_MAX, INT32_MIN + 1, INT32_MAX - 1, -1, 1, (int32_t)r.next()});
    default: return (int32_t)r.next();
  }
}
static void gen_c09(Rng &r, Scenario &s, U64) {
  int style = (int)r.below(4);
  s.op("cfg", {(i64)r.below(4), (i64)r.below(4), (i64)r.below(3)});
  if (r.chance(1, 250)) {   // sizes beyond 8 and 16 bit counts
    bool huge = r.chance(1, 8); i64 n0 = huge ? r.range(65520, 65600) : r.range(200, 300), n1 = r.chance(1, 3) ? r.range(0, 20) : huge ? r.range(65520, 65600) : r.range(200, 300);
    s.op("fill", {0, n0, (i64)(r.next() >> 1)}); s.op("fill", {1, n1, (i64)(r.next() >> 1)});
    for (int i = 0, n = (int)r.range(2, 10); i < n; i++) switch (r.below(5)) {
      case 0: s.op("rem", {(i64)r.below(2), r.range(-1000, 400000)}); break;
      case 1: if (r.chance(1, 4)) s.op("mem", {(i64)r.below(2), r.range(-1000, 400000)}); else s.op("remx", {(i64)r.below(2), (i64)r.below(70000)}); break;
      case 2: s.op("isect", {(i64)r.below(4)}); break;
      default: s.op("ins", {(i64)r.below(2), r.range(-1000, 400000)}); break;
    }
    s.op("isect", {(i64)r.below(4)});
    return;
  }
  bool large = r.chance(1, 5);
  int n = (int)r.range(2, large ? 150 : 40);
  unsigned grow = (unsigned)(large ? r.range(4, 12) : r.range(1, 3));
  if (large && style == 0) style = 1;
  for (int i = 0; i < n; i++) {
    i64 w = (i64)r.below(2), k = key_of(r, style);
    switch (r.below(4 + grow)) {
      case 0: s.op("rem", {w, k}); break;
      case 1: if (r.chance(1, 2)) s.op("remx", {w, k}); else s.op("ins", {w, k}); break;   // remove an element that is there
      case 2: s.op("isect", {(i64)r.below(4)}); break;
      case 3: if (r.chance(1, 4)) s.op("mem", {w, k}); else if (r.chance(1, 3)) s.op("isset", {w, (i64)(r.next() >> 1)}); else s.op("ins", {w, k}); break;
      default: s.op("ins", {w, k}); if (r.chance(1, 3)) s.op("ins", {!w, k}); break;
    }
  }
  s.op("isect", {(i64)r.below(4)});
}
struct MapCtx { Ctx *c; std::vector<std::pair<const uint8_t *, const uint8_t *>> got; bool order = true; };
static void on_pair(void *ctx, u32 n, const void *a, const void *b) {
  MapCtx *m = (MapCtx *)ctx;
  if (n != m->got.size()) m->order = false;
  m->got.push_back({(const uint8_t *)a, (const uint8_t *)b});
}
static void run_c09(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    int sz[2] = {4, 8}, cf = 0;
    for (auto &o : s.ops) if (o.name == "cfg") { sz[0] = ESZ[(U64)o.arg(0) % 4]; sz[1] = ESZ[(U64)o.arg(1) % 4]; cf = (int)((U64)o.arg(2) % 3); }
    cmp_fn cmp = cf == 0 ? cmp_s32_s32 : cf == 1 ? cmp_key : cmp_big;
    std::vector<int32_t> m[2];           // the model: sorted keys
    std::vector<uint8_t> mem[2];         // the sets as the library produced them
    U64 changes = 0, common = 0;
    auto same = [&](int w) {
      if (mem[w].size() != m[w].size() * (size_t)sz[w]) return false;
      std::vector<uint8_t> e((size_t)sz[w]);
      for (size_t i = 0; i < m[w].size(); i++) { elem(e.data(), sz[w], m[w][i], w); if (memcmp(e.data(), &mem[w][i * (size_t)sz[w]], (size_t)sz[w])) return false; }
      return true;
    };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      int w = (int)(o.arg(0) & 1); int32_t k = (int32_t)o.arg(1);
      size_t S = (size_t)sz[w], n = m[w].size();
      if (o.name == "fill") {   // a set built by inserting in ascending order
        if (n) continue;
        U64 cnt = (U64)o.arg(1) % 66000; Rng fr((U64)o.arg(2)); int32_t v = (int32_t)fr.range(-1000, 0);
        mem[w].resize(cnt * S);
        for (U64 i = 0; i < cnt; i++, v += (int32_t)fr.range(1, 6)) { m[w].push_back(v); elem(&mem[w][i * S], sz[w], v, w); }
        c.ev("fill %d with %llu", w, (unsigned long long)cnt); c.probe(cnt > 65535 ? "more_than_65535" : cnt > 255 ? "more_than_255" : "filled");
      } else if (o.name == "ins") {
        if (std::binary_search(m[w].begin(), m[w].end(), k) || (n >= 40 && n < 200) || n >= 66000) continue;
        Arr in(n * S), out((n + 1) * S), b(S);
        if (n) memcpy(in.p, mem[w].data(), n * S);
        elem(b.p, sz[w], k, w);
        u32 want = (u32)(std::lower_bound(m[w].begin(), m[w].end(), k) - m[w].begin());
        u32 ix = insertion_index((u32)n, S, in.p, b.p, cmp), got = insert_element((u32)n, S, in.p, out.p, b.p, cmp);
        c.ev("insert %d into %zu at %u", k, n, got);
        if (ix != want || got != want) { c.fail("set-position", "insertion of %d among %zu reported at %u (index query %u), belongs at %u", k, n, got, ix, want); return; }
        m[w].insert(m[w].begin() + want, k);
        mem[w].assign(out.p, out.p + (n + 1) * S);
        if (!same(w)) { c.fail("set-content", "set is wrong after inserting %d at %u of %zu", k, want, n); return; }
        if (!in.intact() || !out.intact()) { c.fail("set-overrun", "insertion wrote outside the result"); return; }
        changes++;
      } else if (o.name == "rem" || o.name == "remx") {
        if (n == 0) continue;
        if (o.name == "remx") k = m[w][(U64)(uint32_t)k % n];
        Arr in(n * S), out((n - 1) * S), b(S);
        memcpy(in.p, mem[w].data(), n * S);
        elem(b.p, sz[w], k, w);
        u32 want = (u32)(std::lower_bound(m[w].begin(), m[w].end(), k) - m[w].begin());
        if (want == n) { want = (u32)n - 1; c.probe("remove_beyond_the_end"); }
        u32 got = remove_element((u32)n, S, in.p, out.p, b.p, cmp);
        c.ev("remove %d from %zu at %u", k, n, got);
        if (got != want) { c.fail("set-position", "removal by %d from %zu reported index %u, expected %u", k, n, got, want); return; }
        m[w].erase(m[w].begin() + want);
        mem[w].assign(out.p, out.p + (n - 1) * S);
        if (!same(w)) { c.fail("set-content", "set is wrong after removing index %u of %zu", want, n); return; }
        if (!in.intact() || !out.intact()) { c.fail("set-overrun", "removal wrote outside the result"); return; }
        changes++;
      } else if (o.name == "mem") {   // membership of a short list, kept in an array of exactly its size
        size_t cnt = std::min(n, (size_t)255);
        Arr a8(cnt), a16(2 * cnt); bool w8 = false, w16 = false;
        for (size_t i = 0; i < cnt; i++) {
          uint8_t x = (uint8_t)m[w][i]; uint16_t y = (uint16_t)m[w][i];
          a8.p[i] = x; memcpy(a16.p + 2 * i, &y, 2);
          w8 |= x == (uint8_t)k; w16 |= y == (uint16_t)k;
        }
        bool g8 = is_value_in_array(a8.p, (u8)cnt, (u8)k), g16 = is_value_in_array_u16((const u16 *)(const void *)a16.p, (u8)cnt, (u16)k);
        c.ev("member %d of %zu: %d %d", k, cnt, g8, g16); c.probe(w8 || w16 ? "member_of_list" : "not_member_of_list");
        if (g8 != w8 || g16 != w16) { c.fail("list-member", "looking up %u / %u in a list of %zu gives %d / %d, not %d / %d", (unsigned)(u8)k, (unsigned)(u16)k, cnt, g8, g16, w8, w16); return; }
      } else if (o.name == "isect") {
        size_t A = (size_t)sz[0], B = (size_t)sz[1];
        Arr a(m[0].size() * A), b(m[1].size() * B);
        if (m[0].size()) memcpy(a.p, mem[0].data(), a.n);
        if (m[1].size()) memcpy(b.p, mem[1].data(), b.n);
        std::vector<int32_t> want;
        std::set_intersection(m[0].begin(), m[0].end(), m[1].begin(), m[1].end(), std::back_inserter(want));
        MapCtx mc; mc.c = &c;
        s32 r1 = intersection_map((u32)m[0].size(), A, a.p, (u32)m[1].size(), B, b.p, cmp, &mc, on_pair);
        c.ev("intersection of %zu and %zu: %d", m[0].size(), m[1].size(), r1);
        if (r1 != (s32)want.size() || mc.got.size() != want.size() || !mc.order) { c.fail("set-intersection", "intersection of %zu and %zu elements visits %zu and returns %d, %zu are common", m[0].size(), m[1].size(), mc.got.size(), r1, want.size()); return; }
        for (size_t i = 0; i < want.size(); i++)
          if (mc.got[i].first < a.p || mc.got[i].first >= a.p + a.n || mc.got[i].second < b.p || mc.got[i].second >= b.p + b.n ||
              cmp_key(mc.got[i].first, &want[i]) || cmp_key(mc.got[i].second, &want[i])) { c.fail("set-intersection", "intersection visits the wrong pair at %zu", i); return; }
        bool na = o.arg(0) & 1, nb = o.arg(0) & 2;
        Arr oa(want.size() * A), ob(want.size() * B);
        s32 r2 = intersection((u32)m[0].size(), A, a.p, na ? nullptr : oa.p, (u32)m[1].size(), B, b.p, nb ? nullptr : ob.p, cmp);
        std::vector<uint8_t> e(32);
        bool ok = r2 == (s32)want.size();
        for (size_t i = 0; i < want.size() && ok; i++) {
          elem(e.data(), sz[0], want[i], 0); if (!na && memcmp(e.data(), oa.p + i * A, A)) ok = false;
          elem(e.data(), sz[1], want[i], 1); if (!nb && memcmp(e.data(), ob.p + i * B, B)) ok = false;
        }
        if (!ok) { c.fail("set-intersection", "intersection of %zu and %zu elements is wrong (returned %d of %zu)", m[0].size(), m[1].size(), r2, want.size()); return; }
        if (!oa.intact() || !ob.intact() || !a.intact() || !b.intact()) { c.fail("set-overrun", "intersection wrote outside its results"); return; }
        common += want.size(); if (want.size() > 8) c.probe("many_common"); if (m[0].size() >= 30) c.probe("large_set");
      } else if (o.name == "isset") {
        if (n > 255) continue;   // the set test counts in eight bits
        Rng r((U64)o.arg(1));
        // the current set is one; a copy with two elements exchanged or duplicated is not
        Arr x(n * S); if (n) memcpy(x.p, mem[w].data(), n * S);
        if (!is_set((u8)n, S, x.p, cmp)) { c.fail("set-recognition", "a strictly ascending array of %zu is not recognised as a set", n); return; }
        if (n >= 2) {
          size_t i = r.below(n - 1), j = i + 1 + r.below(n - i - 1);
          if (r.chance(1, 2)) memcpy(x.p + j * S, x.p + i * S, S);
          else { memcpy(x.p + i * S, &mem[w][j * S], S); memcpy(x.p + j * S, &mem[w][i * S], S); }
          if (is_set((u8)n, S, x.p, cmp)) { c.fail("set-recognition", "an array of %zu with elements %zu and %zu out of order or equal is taken for a set", n, i, j); return; }
          c.fault("unsorted_array");
        }
        if (r.chance(1, 4)) {   // up to the largest length the set test can be given
          size_t big = (size_t)r.range(100, 255), at = r.below(big); bool bad = r.chance(1, 2) && at > 0;
          Arr y(big * 4); int32_t v = (int32_t)r.range(-100000, 0);
          for (size_t i = 0; i < big; i++) { if (i == at && bad) v -= (int32_t)r.below(2); else v += (int32_t)r.range(1, 500); memcpy(y.p + i * 4, &v, 4); }
          if (is_set((u8)big, 4, y.p, cmp) == bad) { c.fail("set-recognition", "an array of %zu that is %sstrictly ascending is taken for the opposite", big, bad ? "not " : ""); return; }
        }
        int ns = (int)r.below(12); std::vector<gnss_signal_t> sv;
        for (int i = 0; i < ns; i++) sv.push_back(sid_of((i64)r.below(CODE_COUNT), (i64)r.below(40)));
        std::sort(sv.begin(), sv.end(), [](const gnss_signal_t &p, const gnss_signal_t &q) { return order(p) < order(q); });
        if (ns > 1 && r.chance(1, 3)) std::swap(sv[0], sv[r.below((U64)ns)]);
        bool want = true;
        for (int i = 1; i < ns; i++) want &= order(sv[i - 1]) < order(sv[i]);
        gnss_signal_t none;
        if (is_sid_set((u8)ns, ns ? sv.data() : &none) != want) { c.fail("set-recognition", "signal array of %d: set test gives %d", ns, !want); return; }
      }
      c.state(mix(m[0].size() * 32 + m[1].size(), hash_bytes(m[0].data(), m[0].size() * 4)));
    }
    c.nontrivial = changes > 1 && common > 0;
  });
}
Prop g_props[] = {
  {"C08", gen_c08, run_c08, 120000, 1000000,
   "a run = 2..50 additions/removals/copies over two signal sets with counts and membership compared with the model after each; non-trivial with two additions and one effective removal",
   "src/sid_set.c, src/bits.c, src/signal.c", "none", "hash of the event log"},
  {"C09", gen_c09, run_c09, 300000, 6000000,
   "a run = 2..150 insert/remove/intersection/set-test operations over two generic sets of different element size (rarely starting with up to 65600 elements); non-trivial with two changes and a non-empty intersection",
   "src/set.c, src/signal.c, include/swiftnav/array_tools.h", "comparison and visiting callbacks", "hash of the event log"},
};
const int g_nprops = 2;
