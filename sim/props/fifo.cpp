// C01/C02: the single-producer single-consumer byte FIFO.
#include <algorithm>
#include <cstdlib>
#include "sim.h"
extern "C" {
#include <swiftnav/fifo_byte.h>
}

static inline uint8_t pat(U64 pos, U64 salt) { return (uint8_t)(mix(pos, salt) >> 13); }

static void gen_ops(Rng &r, Scenario &s, bool seq) {
  unsigned lg = (unsigned)r.pick({0, 1, 2, 3, 3, 4, 4, 5, 6, 8});
  if (r.chance(1, 300)) lg = (unsigned)r.range(9, seq ? 17 : 11);   // beyond 8 and 16 bit counts
  U64 cap = 1ull << lg;
  i64 start = r.chance(1, 2) ? 0 : r.chance(2, 3) ? (i64)(0x100000000ull - r.below(2 * cap + 3)) : (i64)(r.next() & 0xffffffffu);
  s.op("cfg", {(i64)lg, start & 0xffffffff, (i64)(r.next() & 0xffff)});
  int n = (int)r.range(2, seq ? 40 : 18);
  auto len = [&]() -> i64 {
    if (r.chance(1, 40)) return r.pick({(i64)0xffffffff, (i64)0x80000000, (i64)0x7fffffff, (i64)(0x100000000ull - cap), (i64)(0xffffffffull - r.below(2 * cap)), (i64)(0x10000 + r.below(cap + 1)), (i64)(0x100 + r.below(cap + 1)), (i64)(uint32_t)r.next()});
    switch (r.below(6)) {
      case 0: return (i64)cap;
      case 1: return (i64)(cap + r.below(cap + 4));
      case 2: return 0;
      case 3: return 1;
      default: return (i64)r.range(1, (i64)cap);
    }
  };
  unsigned bias = (unsigned)r.range(1, 3);
  for (int i = 0; i < n; i++) {
    switch (r.below(5 + bias)) {
      case 0: s.op("r", {len()}); break;
      case 1: s.op("p", {len()}); break;
      case 2: s.op("d", {len()}); break;
      case 3: s.op(r.chance(1, 2) ? "lp" : "lc"); break;
      case 4: s.op(r.chance(1, 2) ? "sp" : "sc"); break;
      default: s.op("w", {len()}); break;
    }
  }
}

struct FifoRun {
  Ctx &c; const Scenario &s;
  fifo_t f; U64 cap = 1, salt = 0; uint8_t *mem = nullptr, *buf = nullptr;
  bool data, account;            // which property's oracle is on
  U64 accepted = 0, consumed = 0;
  // operation in flight on each side (visible to the other side's bounds)
  U64 w_pend = 0, r_pend = 0;    // most it may publish
  bool w_in = false, r_in = false;
  U64 w_lo = 0, r_lo = 0; fifo_size_t w_idx0 = 0, r_idx0 = 0;
  std::vector<const Op *> P, C; size_t pi = 0, ci = 0;
  static const int G = 32;
  FifoRun(Ctx &c_, const Scenario &s_, bool d, bool a) : c(c_), s(s_), data(d), account(a) { memset(&f, 0, sizeof f); }
  ~FifoRun() { free(mem); }

  bool setup() {
    for (auto &o : s.ops) if (o.name == "cfg") {
      cap = 1ull << ((U64)o.arg(0) % 18); salt = (U64)o.arg(2);
      mem = (uint8_t *)malloc(cap + 2 * G); memset(mem, 0xA5, cap + 2 * G); buf = mem + G;
#ifdef SIM_ASAN
      free(mem); mem = (uint8_t *)malloc(cap); buf = mem; memset(buf, 0xA5, cap);
#endif
      fifo_init(&f, buf, (fifo_size_t)cap);
      f.read_index = f.write_index = (fifo_size_t)o.arg(1);
      if ((U64)(uint32_t)o.arg(1) + 64 * cap >= 0x100000000ull) c.fault("index_wraparound");
      break;
    }
    if (!mem) return false;
    for (auto &o : s.ops) {
      const std::string &n = o.name;
      if (n == "w" || n == "lp" || n == "sp") P.push_back(&o);
      if (n == "r" || n == "p" || n == "d" || n == "lc" || n == "sc") C.push_back(&o);
    }
    return true;
  }
  void storage_intact() {
#ifndef SIM_ASAN
    for (int i = 0; i < G; i++)
      if (mem[i] != 0xA5 || mem[G + cap + i] != 0xA5) { c.fail("fifo-outside-write", "memory outside the FIFO's storage was modified"); return; }
#endif
  }
  U64 len_hi() { return accepted + (w_in ? w_pend : 0) - consumed; }            // most that can be readable now
  U64 len_lo() { U64 g = consumed + (r_in ? r_pend : 0); return accepted > g ? accepted - g : 0; }
  U64 avail_lo() { return accepted - consumed; }                                 // consumer's view
  // producer operations -------------------------------------------------
  void producer(const Op &o) {
    if (o.name == "w") {
      U64 len = (U64)o.arg(0) & 0xffffffff, have = std::min<U64>(len, 2 * cap + 8);   // no more than this can be looked at
      if (len > have) c.probe("huge_request");
      uint8_t *src = (uint8_t *)malloc(have ? have : 1);
      for (U64 i = 0; i < have; i++) src[i] = pat(accepted + i, salt);
      U64 used_hi0 = accepted - consumed;                         // producer's upper bound at invocation
      U64 lo = std::min<U64>(len, cap - used_hi0);
      w_lo = lo; w_pend = len < cap ? len : cap; w_idx0 = f.write_index; w_in = true;
      fifo_size_t n = fifo_write(&f, src, (fifo_size_t)len);
      w_in = false;
      U64 used_lo1 = accepted - std::min(accepted, consumed + (r_in ? r_pend : 0));
      U64 hi = std::min<U64>(len, cap - used_lo1);
      c.ev("write %llu -> %u", (unsigned long long)len, n);
      if (n > len) c.fail("fifo-write-count", "write of %llu bytes reports %u accepted", (unsigned long long)len, n);
      if (account && (n < lo || n > hi)) c.fail("fifo-write-count", "write of %llu bytes accepted %u, free space allowed %llu..%llu", (unsigned long long)len, n, (unsigned long long)lo, (unsigned long long)hi);
      if (account) for (U64 i = 0; i < have; i++) if (src[i] != pat(accepted + i, salt)) c.fail("fifo-source-modified", "write changed its source buffer");
      if (n == 0 && len) c.probe("write_full"); else if (n < len) c.probe("write_partial");
      if (((f.write_index - n) & (cap - 1)) + n > cap) c.probe("write_split");
      accepted += n;
      free(src);
    } else if (o.name == "lp" || o.name == "sp") {
      U64 hi = accepted - consumed;
      fifo_size_t n = o.name == "lp" ? fifo_length(&f) : fifo_space(&f);
      U64 L = o.name == "lp" ? n : cap - n;
      U64 lo = accepted - std::min(accepted, consumed + (r_in ? r_pend : 0));
      c.ev("producer %s -> %u", o.name.c_str(), n);
      if (n > cap) { c.fail("fifo-length", "%s reports %u on a FIFO of %llu", o.name == "lp" ? "length" : "space", n, (unsigned long long)cap); return; }
      if (account && (L < lo || L > hi)) c.fail("fifo-length", "producer sees %llu bytes used, true value was within %llu..%llu", (unsigned long long)L, (unsigned long long)lo, (unsigned long long)hi);
    }
    c.state(mix(mix(accepted - consumed, cap), f.write_index & (cap - 1)));
  }
  // consumer operations -------------------------------------------------
  void check_bytes(const uint8_t *b, U64 n, const char *what) {
    if (consumed + n > accepted + (w_in ? w_pend : 0)) { c.fail("fifo-phantom", "%s returned %llu bytes, more than were ever written", what, (unsigned long long)n); return; }
    if (!data) return;
    for (U64 i = 0; i < n; i++)
      if (b[i] != pat(consumed + i, salt)) {
        c.fail("fifo-data", "%s returned byte %02x at stream position %llu, %02x was written there", what, b[i], (unsigned long long)(consumed + i), pat(consumed + i, salt));
        return;
      }
  }
  void consumer(const Op &o) {
    if (o.name == "r" || o.name == "p") {
      U64 len = (U64)o.arg(0) & 0xffffffff, room = std::min<U64>(len, 2 * cap + 8); const int T = 16;
#ifdef SIM_ASAN
      const int t = 0;
#else
      const int t = T;
#endif
      (void)T;
      uint8_t *dst = (uint8_t *)malloc(room + t + 1); memset(dst, 0x5A, room + t + 1);
      U64 lo = std::min<U64>(len, accepted - consumed);
      bool rd = o.name == "r";
      r_lo = lo; r_pend = rd ? std::min<U64>(len, cap) : 0; r_idx0 = f.read_index; r_in = true;
      fifo_size_t n = rd ? fifo_read(&f, dst, (fifo_size_t)len) : fifo_peek(&f, dst, (fifo_size_t)len);
      r_in = false;
      U64 hi = std::min<U64>(len, accepted + (w_in ? w_pend : 0) - consumed);
      c.ev("%s %llu -> %u %016llx", rd ? "read" : "peek", (unsigned long long)len, n, (unsigned long long)hash_bytes(dst, std::min<U64>(n, room)));
      if (n > len) { c.fail("fifo-read-count", "%s of %llu bytes reports %u", rd ? "read" : "peek", (unsigned long long)len, n); free(dst); return; }
      if (account && (n < lo || n > hi)) c.fail("fifo-read-count", "%s of %llu bytes returned %u, %llu..%llu were available", rd ? "read" : "peek", (unsigned long long)len, n, (unsigned long long)lo, (unsigned long long)hi);
      if (n > room) { c.fail("fifo-read-count", "%s of %llu bytes from a FIFO of %llu reports %u", rd ? "read" : "peek", (unsigned long long)len, (unsigned long long)cap, n); free(dst); return; }
      check_bytes(dst, n, rd ? "read" : "peek");
      for (int i = 0; i < t; i++) if (dst[room + (U64)i] != 0x5A) c.fail("fifo-outside-write", "read wrote past the caller's buffer");
      if (n && w_in) c.probe("read_during_write");
      if (rd) consumed += n;
      if (((f.read_index - (rd ? n : 0)) & (cap - 1)) + n > cap) c.probe("read_split");
      free(dst);
    } else if (o.name == "d") {
      U64 len = (U64)o.arg(0) & 0xffffffff;
      U64 lo = std::min<U64>(len, accepted - consumed);
      r_lo = lo; r_pend = std::min<U64>(len, cap); r_idx0 = f.read_index; r_in = true;
      fifo_size_t n = fifo_remove(&f, (fifo_size_t)len);
      r_in = false;
      U64 hi = std::min<U64>(len, accepted + (w_in ? w_pend : 0) - consumed);
      c.ev("remove %llu -> %u", (unsigned long long)len, n);
      if (n > len || consumed + n > accepted + (w_in ? w_pend : 0)) { c.fail("fifo-read-count", "remove of %llu bytes reports %u removed", (unsigned long long)len, n); return; }
      if (account && (n < lo || n > hi)) c.fail("fifo-read-count", "remove of %llu bytes removed %u, %llu..%llu were available", (unsigned long long)len, n, (unsigned long long)lo, (unsigned long long)hi);
      consumed += n;
    } else {
      U64 lo = accepted - consumed;
      fifo_size_t n = o.name == "lc" ? fifo_length(&f) : fifo_space(&f);
      U64 L = o.name == "lc" ? n : cap - n;
      U64 hi = accepted + (w_in ? w_pend : 0) - consumed;
      c.ev("consumer %s -> %u", o.name.c_str(), n);
      if (n > cap) { c.fail("fifo-length", "%s reports %u on a FIFO of %llu", o.name == "lc" ? "length" : "space", n, (unsigned long long)cap); return; }
      if (account && (L < lo || L > hi)) c.fail("fifo-length", "consumer sees %llu bytes used, true value was within %llu..%llu", (unsigned long long)L, (unsigned long long)lo, (unsigned long long)hi);
    }
  }
  void finish() {   // quiescent: everything accepted and not yet consumed comes out, then full capacity is usable
    if (c.failed()) return;
    U64 left = accepted - consumed;
    fifo_size_t L = fifo_length(&f), S = fifo_space(&f);
    c.ev("quiescent length %u space %u", L, S);
    if (account && (L != left || (U64)L + S != cap)) { c.fail("fifo-length", "at rest length %u space %u, expected %llu of %llu", L, S, (unsigned long long)left, (unsigned long long)cap); return; }
    Op r{"r", {(i64)(cap + 3)}};
    consumer(r);
    if (c.failed()) return;
    if (consumed != accepted) { c.fail("fifo-lost", "%llu accepted bytes never came out", (unsigned long long)(accepted - consumed)); return; }
    Op w{"w", {(i64)cap}}; producer(w);
    if (c.failed()) return;
    if (accepted - consumed != cap) { c.fail("fifo-write-count", "an empty FIFO of %llu accepted %llu bytes", (unsigned long long)cap, (unsigned long long)(accepted - consumed)); return; }
    consumer(r);
    if (!c.failed() && accepted != consumed) c.fail("fifo-lost", "bytes left after a full read");
    storage_intact();
  }
};

static void run_conc(Ctx &c, const Scenario &s) {
  FifoRun R(c, s, true, true);
  if (!R.setup()) return;
  Sched sc(c, s);
  auto prod = [&] { while (R.pi < R.P.size() && !c.failed()) { const Op &o = *R.P[R.pi++]; sc.yield(); R.producer(o); } };
  auto cons = [&] { while (R.ci < R.C.size() && !c.failed()) { const Op &o = *R.C[R.ci++]; sc.yield(); R.consumer(o); } };
  sc.spawn(prod, s.seed | 1); sc.spawn(cons, s.seed | 1);
  bool kills = false;
  for (auto &o : s.ops) if (o.name == "killok") kills = true;
  if (kills) { sc.kill_ok = {0, 1}; sc.kill_den = 12; sc.kill_max = 2; }
  sc.on_kill = [&](int a) {
    // the context died at this exact point: its operation happened entirely or not at all
    if (a == 0) {
      c.fault(R.w_in ? "kill_producer_mid_write" : "kill_producer_between");
      U64 d = (fifo_size_t)(R.f.write_index - R.w_idx0);
      if (R.w_in) {
        c.ev("producer killed mid-write, published %llu", (unsigned long long)d);
        if (d != 0 && (d < R.w_lo || d > R.w_pend)) c.fail("fifo-torn-write", "a write killed half-way published %llu bytes", (unsigned long long)d);
        if (d) R.accepted += d;
        R.w_in = false;
      }
      sc.spawn(prod, 7);
    } else {
      c.fault(R.r_in ? "kill_consumer_mid_read" : "kill_consumer_between");
      if (R.r_in) {
        U64 d = (fifo_size_t)(R.f.read_index - R.r_idx0);
        c.ev("consumer killed mid-read, released %llu", (unsigned long long)d);
        if (d != 0 && (d < R.r_lo || d > R.r_pend)) c.fail("fifo-torn-read", "a read killed half-way released %llu bytes", (unsigned long long)d);
        R.consumed += d;
        R.r_in = false;
      }
      sc.spawn(cons, 7);
    }
  };
  sc.run();
  if (sc.deadlocked) c.fail("fifo-stuck", "an operation never returned");
  c.nontrivial = c.switches > 2 && R.accepted > 0 && R.consumed > 0;
  R.finish();
}
static void gen_c01(Rng &r, Scenario &s, U64) {
  gen_ops(r, s, false);
  if (r.chance(2, 5)) s.op("killok");
}
static void gen_c02(Rng &r, Scenario &s, U64 idx) { gen_ops(r, s, true); if (r.chance(1, 2)) s.op("seq"); }
static void run_c02(Ctx &c, const Scenario &s) {
  bool seq = false;
  for (auto &o : s.ops) if (o.name == "seq") seq = true;
#ifdef SIM_ASAN
  seq = true;
#endif
  FifoRun R(c, s, true, true);
  if (!R.setup()) return;
  if (seq) {   // one context does both sides: results are exact
    on_painted_stack(s.seed, [&] {
      for (auto &o : s.ops) {
        if (c.failed()) break;
        const std::string &n = o.name;
        if (n == "w" || n == "lp" || n == "sp") R.producer(o);
        else if (n == "r" || n == "p" || n == "d" || n == "lc" || n == "sc") R.consumer(o);
      }
      c.nontrivial = R.accepted > 0;
      R.finish();
    });
    return;
  }
  Sched sc(c, s);
  sc.spawn([&] { while (R.pi < R.P.size() && !c.failed()) { const Op &o = *R.P[R.pi++]; sc.yield(); R.producer(o); } }, s.seed | 1);
  sc.spawn([&] { while (R.ci < R.C.size() && !c.failed()) { const Op &o = *R.C[R.ci++]; sc.yield(); R.consumer(o); } }, s.seed | 1);
  sc.run();
  if (sc.deadlocked) c.fail("fifo-stuck", "an operation never returned");
  c.nontrivial = R.accepted > 0;
  R.finish();
}

Prop g_props[] = {
  {"C01", gen_c01, run_conc, 1200000, 8000000,
   "a run = FIFO size 1..256 (rarely up to 2048, 131072 single-context), request lengths up to 2^32-1, start index (0, near 2^32, random), 2..18 producer/consumer calls, a seeded schedule at every memory access and up to two context kills; non-trivial when both sides moved data and at least three context switches happened",
   "src/fifo_byte.c", "producer and consumer threads (coroutines), crash/restart of either", "hash of the sequence of (actor, access number, next actor) context switches"},
  {"C02", gen_c02, run_c02, 1200000, 8000000,
   "as C01 without kills, half of the runs single-context where counts must be exact; non-trivial when some bytes were accepted",
   "src/fifo_byte.c", "producer and consumer threads (coroutines)", "hash of the sequence of context switches"},
};
const int g_nprops = 2;
