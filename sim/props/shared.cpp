// C03..C07: the parts of the library with shared mutable state: the GLONASS slot map, the status report list,
// the logger's function pointers and the rate limiter.
#include <algorithm>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
extern "C" {
#include <swiftnav/glo_map.h>
#include <swiftnav/logging.h>
#include <swiftnav/subsystem_status_report.h>
}
static const int NSLOT = 28, NFCN = 14;

// =========================================================================== C03
struct MapEvent {          // one per-slot event of the recorded history
  bool write; int val;     // write: value stored;  read: see pred
  int pred;                // 0: value == val, 1: value != val
  U64 inv, res;
};
static std::string describe(const std::vector<MapEvent> &h) {
  std::string s;
  char b[96];
  for (auto &e : h) {
    snprintf(b, sizeof b, " [%llu..%llu %s%s%d]", (unsigned long long)e.inv, (unsigned long long)e.res, e.write ? "set " : "saw ", !e.write && e.pred ? "not " : "", e.val);
    s += b;
  }
  return s;
}
// Wing & Gong search with memoisation on (set of linearised events, value)
struct Lin {
  std::vector<MapEvent> h; std::set<std::pair<U64, int>> seen; U64 steps = 0;
  bool go(U64 done, int val) {
    if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
    if (++steps > 200000) return true;   // undecided: never an alarm
    if (!seen.insert({done, val}).second) return false;
    U64 minres = ~0ull;
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minres = std::min(minres, h[i].res);
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].inv > minres) continue;
      if (h[i].write) { if (go(done | 1ull << i, h[i].val)) return true; }
      else if ((h[i].pred ? val != h[i].val : val == h[i].val) && go(done | 1ull << i, val)) return true;
    }
    return false;
  }
};

struct MapSim {
  Ctx &c; const Scenario &s; Sched *sc = nullptr;
  bool callbacks = true, observing = false, slow = false;
  int holder = -1; std::vector<int> waiters;
  U64 clock = 0, lockcalls = 0;
  int snap[NSLOT + 1] = {0};
  bool have_snap = false;
  std::vector<MapEvent> hist[NSLOT + 1];
  int init[NSLOT + 1] = {0};
  bool cleared[NSLOT + 1] = {false};
  MapSim(Ctx &c_, const Scenario &s_) : c(c_), s(s_) {}
  U64 tick() { return ++clock; }
  void read_all(int *out) {
    bool pre = true;
    if (sc) { pre = sc->preempt; sc->preempt = false; }
    bool o = observing; observing = true;
    for (int i = 1; i <= NSLOT; i++) {
      gnss_signal_t sid = {(u16)i, CODE_GLO_L1OF};
      out[i] = glo_map_valid(sid) ? glo_map_get_fcn(sid) : 0;
    }
    observing = o;
    if (sc) sc->preempt = pre;
  }
  void unchanged(const char *when) {
    int now[NSLOT + 1]; read_all(now);
    if (have_snap)
      for (int i = 1; i <= NSLOT; i++)
        if (now[i] != snap[i]) { c.fail("glo-unlocked-change", "slot %d changed from %d to %d while nobody held the lock (noticed %s)", i, snap[i], now[i], when); break; }
    memcpy(snap, now, sizeof snap); have_snap = true;
  }
  void lock() {
    if (observing) return;
    int me = sc ? sc->current() : 0;
    lockcalls++;
    if (holder == me) { c.fail("glo-nested-lock", "the lock was taken again by its holder"); return; }
    while (holder >= 0) {
      c.fault("lock_contended");
      if (!sc) { c.fail("glo-nested-lock", "the lock is still held"); return; }
      waiters.push_back(me); sc->block();
    }
    holder = me;
    unchanged("when the lock was taken");
    if (slow && sc) { c.fault("slow_lock_holder"); sc->yield(); sc->yield(); }
  }
  void unlock() {
    if (observing) return;
    int me = sc ? sc->current() : 0;
    if (holder != me) { c.fail("glo-unlock", "unlock called without holding the lock"); return; }
    if (slow && sc) sc->yield();
    int now[NSLOT + 1]; read_all(now);
    memcpy(snap, now, sizeof snap); have_snap = true;
    holder = -1;
    std::vector<int> w; w.swap(waiters);
    for (int x : w) sc->wake(x);
  }
  void call_done(const char *what) {
    if (callbacks && holder == (sc ? sc->current() : 0)) c.fail("glo-lock-leak", "%s returned with the lock held", what);
  }
  static bool fok(i64 f) { return f >= 1 && f <= NFCN; }
  static bool sok(i64 x) { return x >= 1 && x <= NSLOT; }
  void exec(const Op &o) {
    if (o.name == "set") {
      u16 f = (u16)o.arg(0), sl = (u16)o.arg(1);
      U64 i = tick();
      glo_map_set_slot_id(f, sl);
      U64 r = tick();
      call_done("set");
      c.ev("%llu set slot %u fcn %u", (unsigned long long)r, sl, f);
      if (fok(f) && sok(sl)) hist[sl].push_back({true, f, 0, i, r});
      else c.probe("invalid_set");
    } else if (o.name == "clr") {
      u16 sl = (u16)o.arg(0); if (!sok(sl)) return;
      U64 i = tick(); glo_map_clear_slot_id(sl); U64 r = tick();
      call_done("clear");
      c.ev("%llu clear slot %u", (unsigned long long)r, sl);
      hist[sl].push_back({true, 0, 0, i, r});
    } else if (o.name == "all") {
      U64 i = tick(); glo_map_clear_all(); U64 r = tick();
      call_done("clear all");
      c.ev("%llu clear all", (unsigned long long)r);
      for (int k = 1; k <= NSLOT; k++) hist[k].push_back({true, 0, 0, i, r});
    } else if (o.name == "val") {
      u16 sl = (u16)o.arg(0); if (!sok(sl)) return;
      gnss_signal_t sid = {sl, o.arg(1) & 1 ? CODE_GLO_L2OF : CODE_GLO_L1OF};
      U64 i = tick(); bool v = glo_map_valid(sid); U64 r = tick();
      call_done("valid");
      c.ev("%llu valid slot %u -> %d", (unsigned long long)r, sl, v);
      hist[sl].push_back({false, 0, v ? 1 : 0, i, r});
    } else if (o.name == "get") {
      u16 sl = (u16)o.arg(0); if (!sok(sl) || cleared[sl] || !init[sl]) return;   // precondition: mapped
      gnss_signal_t sid = {sl, o.arg(1) & 1 ? CODE_GLO_L2OF : CODE_GLO_L1OF};
      U64 i = tick(); u16 f = glo_map_get_fcn(sid); U64 r = tick();
      call_done("get");
      c.ev("%llu get slot %u -> %u", (unsigned long long)r, sl, f);
      hist[sl].push_back({false, f, 0, i, r});
    } else if (o.name == "rev") {
      u16 f = (u16)o.arg(0), a = 7777, b = 7777;
      if (!fok(f)) return;
      U64 i = tick(); u8 n = glo_map_get_slot_id(f, &a, &b); U64 r = tick();
      call_done("reverse lookup");
      c.ev("%llu reverse %u -> %u (%u %u)", (unsigned long long)r, f, n, a, b);
      bool ok = n <= 2 && (n >= 1 ? sok(a) : a == 0) && (n == 2 ? sok(b) && b > a : b == 0);
      if (!ok) { c.fail("glo-reverse", "reverse lookup of %u returned %u slots %u %u", f, n, a, b); return; }
      int last = n == 2 ? b : NSLOT;
      for (int k = 1; k <= last; k++) hist[k].push_back({false, f, (n >= 1 && k == a) || (n == 2 && k == b) ? 0 : 1, i, r});
      if (n == 2) c.probe("two_slots_found");
    }
    c.state(mix(mix((U64)snap[1] * 15 + (U64)snap[2], (U64)snap[3] * 15 + (U64)snap[4]), (U64)snap[5] * 15 + (U64)snap[28]));
  }
  void decide() {
    for (int k = 1; k <= NSLOT && !c.failed(); k++) {
      if (hist[k].empty() || hist[k].size() > 60) continue;
      Lin l; l.h = hist[k];
      if (!l.go(0, init[k])) {
        c.fail("glo-not-linearizable", "slot %d (initially %d): no order of the calls explains%s", k, init[k], describe(hist[k]).c_str());
      } else if (l.steps > 200000) c.probe("linearizability_undecided");
    }
  }
};
static MapSim *g_map;
static void map_lock() { if (g_map) g_map->lock(); }
static void map_unlock() { if (g_map) g_map->unlock(); }
static int g_stale;
static void stale_lock() { g_stale++; }
static void stale_unlock() { g_stale++; }

static i64 bad16(Rng &r, i64 hi) { return r.pick({(i64)0, hi + 1, (i64)255, (i64)256 + 1 + (i64)r.below((U64)hi), (i64)65535, (i64)0x100 * (1 + (i64)r.below(255)) + 1 + (i64)r.below((U64)hi)}); }
static void gen_c03(Rng &r, Scenario &s, U64) {
  int threads = (int)r.range(2, 4);
  s.op("cfg", {r.chance(1, 8) ? 0 : 1, r.chance(1, 3), r.chance(1, 3)});
  // a few slots get the traffic so that calls really collide
  std::vector<i64> hot, fc;
  int nh = (int)r.range(1, 4);
  for (int i = 0; i < nh; i++) hot.push_back(r.pick({(i64)1, (i64)2, (i64)3, (i64)28, r.range(1, NSLOT)}));
  int nf = (int)r.range(1, 3);
  for (int i = 0; i < nf; i++) fc.push_back(r.pick({(i64)1, (i64)14, r.range(1, NFCN)}));
  bool noclear = r.chance(1, 3);
  for (i64 h : hot) if (noclear || r.chance(1, 2)) s.op("init", {fc[r.below(fc.size())], h});
  int n = (int)r.range(3, 14);
  for (int i = 0; i < n; i++) {
    i64 t = (i64)r.below((U64)threads), h = r.chance(1, 12) ? r.range(1, NSLOT) : hot[r.below(hot.size())], f = r.chance(1, 8) ? r.range(1, NFCN) : fc[r.below(fc.size())];
    auto o = [&](const char *nm, std::vector<i64> a) { s.op(nm, a); s.ops.back().a.push_back(t); };
    // the thread number is always the last argument
    switch (r.below(9)) {
      case 0: case 1: case 2: o("set", {f, h}); break;
      case 3: if (!noclear) o("clr", {h}); else o("set", {f, h}); break;
      case 4: if (!noclear && r.chance(1, 2)) o("all", {}); else o("val", {h, (i64)r.below(2)}); break;
      case 5: o("val", {h, (i64)r.below(2)}); break;
      case 6: o("get", {h, (i64)r.below(2)}); break;
      case 7: o("rev", {f}); break;
      default: if (r.chance(1, 2)) o("set", {bad16(r, NFCN), h}); else o("set", {f, bad16(r, NSLOT)}); break;
    }
  }
}
static void run_c03(Ctx &c, const Scenario &s) {
  MapSim M(c, s);
  for (auto &o : s.ops) {
    if (o.name == "cfg") { M.callbacks = o.arg(0) != 0; M.slow = o.arg(1) != 0; }
    if (o.name == "clr" && MapSim::sok(o.arg(0))) M.cleared[o.arg(0)] = true;
    if (o.name == "all") for (int k = 1; k <= NSLOT; k++) M.cleared[k] = true;
  }
  g_map = &M; g_stale = 0;
  for (auto &o : s.ops) if (o.name == "cfg" && o.arg(2)) { glo_map_init(stale_lock, stale_unlock); c.probe("initialised_again"); }   // superseded by the next initialisation
  if (M.callbacks) glo_map_init(map_lock, map_unlock); else { glo_map_init(nullptr, nullptr); c.probe("no_lock_callbacks"); }
  for (auto &o : s.ops) if (o.name == "init" && MapSim::fok(o.arg(0)) && MapSim::sok(o.arg(1))) {
    glo_map_set_slot_id((u16)o.arg(0), (u16)o.arg(1)); M.init[o.arg(1)] = (int)o.arg(0);
  }
  { int now[NSLOT + 1]; M.read_all(now);
    for (int k = 1; k <= NSLOT; k++) if (now[k] != M.init[k]) { c.fail("glo-map", "slot %d holds %d after being set to %d", k, now[k], M.init[k]); g_map = nullptr; return; } }
  M.have_snap = false;
  std::vector<const Op *> T[5];
  for (auto &o : s.ops) if (o.name != "cfg" && o.name != "init" && !o.a.empty()) T[(U64)o.a.back() % 5].push_back(&o);
  {
    Sched sc(c, s); M.sc = &sc;
    M.unchanged("");
    for (int t = 0; t < 5; t++) if (!T[t].empty())
      sc.spawn([&, t] { for (auto *o : T[t]) { if (c.failed()) break; sc.yield(); M.exec(*o); } }, s.seed | 1);
    sc.run();
    if (sc.deadlocked && !c.failed()) c.fail("glo-deadlock", "threads wait forever for the lock");
    if (!c.failed() && M.holder >= 0) c.fail("glo-lock-leak", "the lock is held at the end");
    M.sc = nullptr;
    c.nontrivial = c.switches > 2 && (!M.callbacks || M.lockcalls > 0);
  }
  if (!c.failed() && g_stale) c.fail("glo-stale-lock", "lock functions replaced by a later initialisation were called %d times", g_stale);
  if (!c.failed() && M.callbacks) M.unchanged("at the end");
  if (!c.failed()) {   // at rest the map holds a final value consistent with the history
    int now[NSLOT + 1]; M.read_all(now);
    for (int k = 1; k <= NSLOT; k++) { U64 i = M.tick(), r = M.tick(); if (!M.hist[k].empty() || now[k] != M.init[k]) M.hist[k].push_back({false, now[k], 0, i, r}); }
    M.decide();
  }
  g_map = nullptr;
}

// =========================================================================== C04
static void gen_c04(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(2, 60);
  std::vector<i64> fc;
  for (int i = 0; i < 3; i++) fc.push_back(r.range(1, NFCN));
  bool dense = r.chance(1, 3);
  for (int i = 0; i < n; i++) {
    i64 f = r.chance(1, 3) ? r.range(1, NFCN) : fc[r.below(3)], sl = dense ? r.range(1, NSLOT) : r.pick({(i64)1, (i64)2, (i64)27, (i64)28, r.range(1, NSLOT)});
    switch (r.below(10)) {
      case 0: s.op("clr", {sl}); break;
      case 1: if (r.chance(1, 6)) s.op("all"); else s.op("set", {f, sl}); break;
      case 2: s.op("set", {bad16(r, NFCN), sl}); break;
      case 3: s.op("set", {f, bad16(r, NSLOT)}); break;
      case 4: case 5: s.op("rev", {r.chance(1, 10) ? bad16(r, NFCN) : f}); break;
      default: s.op("set", {f, sl}); break;
    }
  }
}
static int g_locks;
static void cnt_lock() { g_locks++; }
static void cnt_unlock() { g_locks--; }
static void run_c04(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    int m[NSLOT + 1] = {0}; U64 sets = 0;
    g_locks = 0;
    glo_map_init(cnt_lock, cnt_unlock);
    auto reverse = [&](u16 f) {
      int e[3] = {0, 0, 0}; int n = 0;
      for (int k = 1; k <= NSLOT && n < 2; k++) if (m[k] == f) e[++n] = k;
      u16 a = 0xabcd, b = 0x1234;
      u8 got = glo_map_get_slot_id(f, &a, &b);
      c.ev("reverse %u -> %u (%u,%u)", f, got, a, b);
      if (f == 0) return;    // frequency "unknown" is not a frequency: only no overrun is required
      if (got != n || a != e[1] || b != e[2]) c.fail("glo-reverse", "reverse lookup of %u returned %u slots (%u,%u), %d (%d,%d) hold it", f, got, a, b, n, e[1], e[2]);
      if (n == 2) c.probe("two_slots_found");
    };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      if (o.name == "set") {
        u16 f = (u16)o.arg(0), sl = (u16)o.arg(1);
        glo_map_set_slot_id(f, sl);
        if (f >= 1 && f <= NFCN && sl >= 1 && sl <= NSLOT) { if (m[sl] && m[sl] != f) c.probe("remapped"); m[sl] = f; sets++; } else c.fault("invalid_argument");
      } else if (o.name == "clr") { if (o.arg(0) < 1 || o.arg(0) > NSLOT) continue; glo_map_clear_slot_id((u16)o.arg(0)); m[o.arg(0)] = 0; }
      else if (o.name == "all") { glo_map_clear_all(); memset(m, 0, sizeof m); }
      else if (o.name == "rev") reverse((u16)o.arg(0));
      U64 h = 0;
      for (int k = 1; k <= NSLOT; k++) {
        gnss_signal_t sid = {(u16)k, k & 1 ? CODE_GLO_L1OF : CODE_GLO_L2OF};
        bool v = glo_map_valid(sid); int f = v ? glo_map_get_fcn(sid) : 0;
        if (f != m[k] || (v && f == 0)) { c.fail("glo-map", "slot %d is %d after this history, expected %d", k, f, m[k]); return; }
        h = mix(h, (U64)f);
      }
      if (g_locks != 0) { c.fail("glo-lock-leak", "lock and unlock calls do not balance"); return; }
      c.ev("%s %lld %lld map %016llx", o.name.c_str(), (long long)o.arg(0), (long long)o.arg(1), (unsigned long long)h);
      c.state(h);
    }
    for (int f = 1; f <= NFCN && !c.failed(); f++) reverse((u16)f);
    c.nontrivial = sets > 1;
  });
}

// =========================================================================== C05
// Nodes 0..6 (many more in a crowd), each with a context; callbacks may act on the list according to "in" ops, each used once.
static const int NN = 300, NFEW = 7, NCTX = NN * 9;
struct RepSim {
  Ctx &c;
  swiftnav_subsystem_status_report_callback_node_t node[NN];
  struct Reg { int node; int ctx; int cb; };
  std::vector<Reg> list;                   // model: registration order
  std::vector<std::vector<const Op *>> acts;   // pending actions per node
  int ctxs[NCTX];
  struct Disp { uint16_t comp; uint8_t g, sp; std::vector<Reg> start; std::vector<bool> gone; std::vector<Reg> calls; std::map<int, int> reregs; bool changed = false; };
  std::vector<Disp> stack;
  U64 delivered = 0; int depth = 0;
  explicit RepSim(Ctx &c_) : c(c_), acts(NN) { memset(node, 0xEE, sizeof node); for (int i = 0; i < NCTX; i++) ctxs[i] = i; }
  int find(int n) { for (size_t i = 0; i < list.size(); i++) if (list[i].node == n) return (int)i; return -1; }
  void model_remove(int n) {
    int i = find(n); if (i >= 0) list.erase(list.begin() + i);
    for (auto &d : stack) { for (size_t k = 0; k < d.start.size(); k++) if (d.start[k].node == n) d.gone[k] = true; d.changed = true; }
  }
  bool in_start(int n) { for (auto &d : stack) for (auto &r : d.start) if (r.node == n) return true; return false; }
  void reg(int n, int ctx, int cb);
  void dereg(int n) { model_remove(n); swiftnav_subsystem_status_report_callback_deregister(&node[n]); c.ev("deregister %d", n); }
  void reset() {
    list.clear();
    for (auto &d : stack) { d.gone.assign(d.start.size(), true); d.changed = true; }
    swiftnav_subsystem_status_report_callback_reset(); c.ev("reset");
  }
  void send(uint16_t comp, uint8_t g, uint8_t sp) {
    if (depth >= 3) return;
    depth++;
    Disp d; d.comp = comp; d.g = g; d.sp = sp; d.start = list; d.gone.assign(list.size(), false);
    stack.push_back(d);
    c.ev("send %u %u %u to %zu", comp, g, sp, list.size());
    swiftnav_send_subsystem_status_report(comp, g, sp);
    d = stack.back(); stack.pop_back(); depth--;
    if (c.failed()) return;
    // every callback registered throughout: exactly once, in order
    std::vector<int> want, got;
    for (size_t k = 0; k < d.start.size(); k++) if (!d.gone[k]) want.push_back(d.start[k].node);
    for (auto &r : d.calls) {
      bool stayed = false, was = false;
      for (size_t k = 0; k < d.start.size(); k++) if (d.start[k].node == r.node) { was = true; stayed = !d.gone[k]; }
      if (stayed) got.push_back(r.node);
      int n = 0; for (auto &q : d.calls) n += q.node == r.node;
      int most = (was ? 1 : 0) + (d.reregs.count(r.node) ? d.reregs[r.node] : 0);
      if (n > most) { c.fail("report-duplicate", "callback of node %d invoked %d times by one report", r.node, n); return; }
    }
    if (want != got) {
      std::string w, g2; for (int x : want) w += " " + std::to_string(x); for (int x : got) g2 += " " + std::to_string(x);
      c.fail(got.size() < want.size() ? "report-lost" : "report-order", "report should reach nodes%s, reached%s", w.c_str(), g2.c_str());
    }
    delivered += got.size();
  }
  void act(const Op &o) {
    if (o.name == "reg" || o.name == "ireg") {
      int n = (int)((U64)o.arg(0) % NN);
      int cb = (int)o.arg(2);
      if (!stack.empty() && cb >= 0 && in_start(n)) return;   // re-entrant registration only of nodes not registered when the report began
      reg(n, (int)((U64)o.arg(1) % 9), cb);
    } else if (o.name == "dereg" || o.name == "idereg") dereg((int)((U64)o.arg(0) % NN));
    else if (o.name == "reset" || o.name == "ireset") reset();
    else if (o.name == "send" || o.name == "isend") send((uint16_t)o.arg(0), (uint8_t)o.arg(1), (uint8_t)o.arg(2));
  }
  void called(int cb, uint16_t comp, uint8_t g, uint8_t sp, void *ctx) {
    if (c.failed()) return;
    if (stack.empty()) { c.fail("report-phantom", "a callback was invoked outside any report"); return; }
    Disp &d = stack.back();
    int ci = (int)((int *)ctx - ctxs);
    if (!ctx || ci < 0 || ci >= NCTX) { c.fail("report-context", "callback invoked with a foreign context"); return; }
    // which registration is this?  contexts identify nodes: ctx = node + NN*k
    int n = ci % NN;
    c.ev("callback node %d ctx %d cb %d (%u,%u,%u)", n, ci, cb, comp, g, sp);
    if (comp != d.comp || g != d.g || sp != d.sp) { c.fail("report-content", "callback got (%u,%u,%u) for report (%u,%u,%u)", comp, g, sp, d.comp, d.g, d.sp); return; }
    // it must be the node's registration at the start of the report or one made during it
    bool ok = false;
    for (auto &r : d.start) ok |= r.node == n && r.ctx == ci && r.cb == cb;
    for (auto &r : list) ok |= d.reregs.count(n) && r.node == n && r.ctx == ci && r.cb == cb;
    for (auto &r : d.calls) (void)r;
    if (!ok && !d.reregs.count(n)) { c.fail("report-stale", "callback %d of node %d with context %d is not registered", cb, n, ci); return; }
    d.calls.push_back({n, ci, cb});
    if (d.calls.size() > 3 * NN) { c.fail("report-endless", "one report invoked %d callbacks", 3 * NN); return; }
    if (!acts[n].empty()) {
      auto a = acts[n]; acts[n].clear();
      c.fault("reentrant_change");
      for (auto *o : a) if (!c.failed()) act(*o);
    }
  }
};
static RepSim *g_rep;
template <int K> static void rep_cb(uint16_t comp, uint8_t g, uint8_t sp, void *ctx) { if (g_rep) g_rep->called(K, comp, g, sp, ctx); }
static const pfn_subsystem_status_report rep_cbs[3] = {rep_cb<0>, rep_cb<1>, rep_cb<2>};
void RepSim::reg(int n, int ctx, int cb) {
  ctx = n + NN * (ctx % 9);
  if (find(n) >= 0) c.probe(cb < 0 ? "null_callback_on_registered" : "reregistered");
  model_remove(n);
  if (cb >= 0) { list.push_back({n, ctx, cb % 3}); for (auto &d : stack) { d.reregs[n]++; d.changed = true; } }
  else c.fault("null_callback");
  c.ev("register %d ctx %d cb %d", n, ctx, cb);
  swiftnav_subsystem_status_report_callback_register(&node[n], cb < 0 ? nullptr : rep_cbs[cb % 3], &ctxs[ctx]);
}
// Nodes that share callbacks and contexts (or have none): only the sequence of (callback, context) can be told apart.
struct AnonSim { Ctx &c; std::vector<std::pair<int, const void *>> calls; uint16_t comp = 0; uint8_t g = 0, sp = 0; };
static AnonSim *g_anon;
template <int K> static void anon_cb(uint16_t comp, uint8_t g, uint8_t sp, void *ctx) {
  if (!g_anon) return;
  if (comp != g_anon->comp || g != g_anon->g || sp != g_anon->sp) g_anon->c.fail("report-content", "callback got (%u,%u,%u) for report (%u,%u,%u)", comp, g, sp, g_anon->comp, g_anon->g, g_anon->sp);
  g_anon->calls.push_back({K, ctx});
}
static const pfn_subsystem_status_report anon_cbs[2] = {anon_cb<0>, anon_cb<1>};
static void run_anon(Ctx &c, const Scenario &s) {
  static const int AN = 6;
  AnonSim A{c, {}}; g_anon = &A;
  swiftnav_subsystem_status_report_callback_node_t node[AN]; memset(node, 0xEE, sizeof node);
  int shared[2] = {1, 2}; void *ctxs[3] = {nullptr, &shared[0], &shared[1]};
  struct R { int node, cb, ctx; }; std::vector<R> list; U64 delivered = 0;
  swiftnav_subsystem_status_report_callback_reset();
  auto send = [&](const Op &o) {
    A.calls.clear(); A.comp = (uint16_t)o.arg(0); A.g = (uint8_t)o.arg(1); A.sp = (uint8_t)o.arg(2);
    swiftnav_send_subsystem_status_report(A.comp, A.g, A.sp);
    c.ev("send to %zu reached %zu", list.size(), A.calls.size());
    bool same = A.calls.size() == list.size();
    for (size_t i = 0; same && i < list.size(); i++) {
      if (A.calls[i].first != list[i].cb) same = false;
      else if (A.calls[i].second != ctxs[list[i].ctx]) { c.fail("report-context", "callback %d of node %d invoked with another context than its own", list[i].cb, list[i].node); return; }
    }
    if (!same) c.fail(A.calls.size() < list.size() ? "report-lost" : A.calls.size() > list.size() ? "report-duplicate" : "report-order", "a report reached %zu callbacks, %zu are registered", A.calls.size(), list.size());
    delivered += A.calls.size();
    for (size_t i = 1; i < list.size(); i++) if (list[i].cb == list[i - 1].cb && list[i].ctx == list[i - 1].ctx) c.probe("identical_registrations");
    for (auto &x : list) if (!x.ctx) c.probe("null_context");
  };
  for (auto &o : s.ops) {
    if (c.failed()) break;
    int n = (int)((U64)o.arg(0) % AN);
    auto drop = [&] { for (size_t i = 0; i < list.size(); i++) if (list[i].node == n) { list.erase(list.begin() + (long)i); break; } };
    if (o.name == "reg") {
      int cb = o.arg(2) < 0 ? -1 : (int)(o.arg(2) % 2), cx = (int)((U64)o.arg(1) % 3);
      drop(); if (cb >= 0) list.push_back({n, cb, cx});
      swiftnav_subsystem_status_report_callback_register(&node[n], cb < 0 ? nullptr : anon_cbs[cb], ctxs[cx]);
      c.ev("register %d cb %d ctx %d", n, cb, cx);
    } else if (o.name == "dereg") { drop(); swiftnav_subsystem_status_report_callback_deregister(&node[n]); c.ev("deregister %d", n); }
    else if (o.name == "reset") { list.clear(); swiftnav_subsystem_status_report_callback_reset(); c.ev("reset"); }
    else if (o.name == "send") send(o);
    U64 h = 2; for (auto &x : list) h = mix(h, (U64)(x.node * 10 + x.ctx * 2 + x.cb));
    c.state(h);
  }
  if (!c.failed()) send(Op{"send", {9, 8, 7}});
  c.nontrivial = delivered > 1;
  swiftnav_subsystem_status_report_callback_reset();
  g_anon = nullptr;
}
static void gen_c05(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(3, 26);
  if (r.chance(1, 4)) {   // shared callbacks and contexts, or none
    s.op("anon");
    for (int i = 0; i < n; i++) {
      i64 nd = (i64)r.below(6);
      switch (r.below(10)) {
        case 0: s.op("dereg", {nd}); break;
        case 1: if (r.chance(1, 4)) s.op("reset"); else s.op("dereg", {nd}); break;
        case 2: case 3: case 4: s.op("send", {(i64)r.below(65536), (i64)r.below(256), (i64)r.below(256)}); break;
        default: s.op("reg", {nd, (i64)r.below(3), r.chance(1, 8) ? -1 : (i64)r.below(2)}); break;
      }
    }
    return;
  }
  bool re = r.chance(1, 2);
  i64 crowd = r.chance(1, 60) ? r.pick({(i64)20, (i64)40, (i64)70, (i64)140, (i64)NN}) : 0;
  if (crowd) for (i64 k = 0; k < crowd; k++) s.op("reg", {k, (i64)r.below(9), (i64)r.below(3)});
  for (int i = 0; i < n; i++) {
    i64 nd = (i64)r.below(crowd && r.chance(1, 2) ? (U64)crowd : (U64)NFEW);
    switch (r.below(re ? 12 : 9)) {
      case 0: case 1: case 2: case 3: s.op("reg", {nd, (i64)r.below(9), r.chance(1, 8) ? -1 : (i64)r.below(3)}); break;
      case 4: s.op("dereg", {nd}); break;
      case 5: if (r.chance(1, 5)) s.op("reset"); else s.op("dereg", {nd}); break;
      case 6: case 7: case 8: s.op("send", {(i64)r.below(65536), (i64)r.below(256), (i64)r.below(256)}); break;
      default: {   // action taken inside the callback of a node (last argument)
        i64 who = (i64)r.below(crowd && r.chance(1, 2) ? (U64)crowd : (U64)NFEW);
        switch (r.below(6)) {
          case 0: s.op("idereg", {who}); break;
          case 1: case 2: s.op("idereg", {nd}); break;
          case 3: s.op("ireg", {nd, (i64)r.below(9), r.chance(1, 8) ? -1 : (i64)r.below(3)}); break;
          case 4: if (r.chance(1, 3)) s.op("ireset"); else s.op("idereg", {nd}); break;
          default: s.op("isend", {(i64)r.below(65536), (i64)r.below(256), (i64)r.below(256)}); break;
        }
        s.ops.back().a.push_back(who);
      }
    }
  }
  s.op("send", {1, 2, 3});
}
static void run_c05(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    for (auto &o : s.ops) if (o.name == "anon") { run_anon(c, s); return; }
    RepSim R(c); g_rep = &R;
    swiftnav_subsystem_status_report_callback_reset();
    for (auto &o : s.ops) {
      if (c.failed()) break;
      if (o.name[0] == 'i' && !o.a.empty()) { R.acts[(U64)o.a.back() % NN].push_back(&o); continue; }
      R.act(o);
      U64 h = 1; for (auto &x : R.list) h = mix(h, (U64)(x.node * 100 + x.ctx));
      c.state(h);
    }
    if (!c.failed()) { for (auto &a : R.acts) a.clear(); R.send(9, 8, 7); }
    c.nontrivial = R.delivered > 1;
    swiftnav_subsystem_status_report_callback_reset();
    g_rep = nullptr;
  });
}

// =========================================================================== C06
struct Rec { int impl; bool detailed; int level; std::string file; int line; std::string text; int actor; U64 t; };
struct LogSim {
  Ctx &c; Sched *sc = nullptr; U64 clock = 0; bool slow = false;
  std::vector<Rec> recs;
  std::string err[8];                    // what each thread wrote to the error stream
  struct Swap { int impl; U64 inv, res; };
  std::vector<Swap> swaps;
  std::map<int, int> inner;              // actor -> implementation to install from inside the next delivered message
  explicit LogSim(Ctx &c_) : c(c_) {}
  int me() { return sc && sc->current() >= 0 ? sc->current() : 7; }
  void install(int impl);
  void got(int impl, bool det, int level, const char *file, int line, const char *text) {
    recs.push_back({impl, det, level, file ? file : "", line, text, me(), ++clock});
    c.ev("impl %d got level %d %s:%d %s", impl, level, file ? file : "-", line, text);
    auto it = inner.find(me());
    if (it != inner.end()) { int k = it->second; inner.erase(it); c.fault("swap_inside_callback"); install(k); }
    if (slow && sc && sc->current() >= 0) { c.fault("slow_log_sink"); sc->yield(); sc->yield(); }
  }
};
static LogSim *g_log;
template <int K> static void impl_log(int level, const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (g_log) g_log->got(K, false, level, nullptr, 0, b);
}
template <int K> static void impl_det(int level, const char *file, const int line, const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (g_log) g_log->got(K, true, level, file, line, b);
}
static const pfn_log LOGS[3] = {impl_log<1>, impl_log<2>, impl_log<3>};
static const pfn_detailed_log DETS[3] = {impl_det<1>, impl_det<2>, impl_det<3>};
void LogSim::install(int impl) {
  U64 i = ++clock;
  c.ev("install %d", impl);
  swaps.push_back({impl, i, ~0ull}); size_t k = swaps.size() - 1;
  if (impl == 0) logging_set_implementation(nullptr, nullptr);
  else logging_set_implementation(LOGS[impl - 1], DETS[impl - 1]);
  swaps[k].res = ++clock;
}
static ssize_t err_write(void *, const char *b, size_t n) { if (g_log) g_log->err[g_log->me()].append(b, n); return (ssize_t)n; }
static std::string log_text(U64 k) {
  std::string t; U64 n = k % 101 == 0 ? k % 5003 : k % 7 == 0 ? k % 400 : k % 30;
  for (U64 i = 0; i < n; i++) { U64 x = mix(k, i); t += "abcdefghijklmnopqrstuvwxyz0123456789 %%%snd\\{}:;/"[x % 49]; }
  return t;
}
static const char *LEVELS[8] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"};
static U64 count_of(const std::string &h, const std::string &n) { U64 k = 0; for (size_t p = h.find(n); p != std::string::npos; p = h.find(n, p + 1)) k++; return k; }
static void gen_c06(Rng &r, Scenario &s, U64) {
  s.op("cfg", {r.chance(1, 3)});
  int threads = (int)r.range(1, 3), n = (int)r.range(2, 14);
  if (r.chance(1, 2)) s.op("swap", {(i64)r.below(4), -1});
  for (int i = 0; i < n; i++) {
    switch (r.below(6)) {
      case 0: case 1: s.op("swap", {(i64)r.below(4), r.chance(1, 6) ? 4 : 3}); break;   // thread 3 or 4 swap
      case 2: if (r.chance(1, 3)) { s.op("inner", {(i64)r.below(4), (i64)r.below((U64)threads)}); break; } [[fallthrough]];
      default: s.op("log", {(i64)r.below(8), r.chance(1, 2), (i64)r.below(1u << 20), (i64)r.below((U64)threads)}); if (r.chance(1, 4)) s.ops.back().a.push_back(1 + (i64)r.below(16));
    }
  }
  if (r.chance(1, 4)) {
    s.op("path", {(i64)(r.next() >> 1)});
    if (r.chance(1, 2)) s.op("path", {(i64)(r.next() >> 1)});
  }
}
static void run_c06(Ctx &c, const Scenario &s) {
  LogSim L(c); g_log = &L;
  FILE *real = stderr;
  cookie_io_functions_t io = {nullptr, err_write, nullptr, nullptr};
  FILE *cap = fopencookie(nullptr, "w", io);
  setvbuf(cap, nullptr, _IONBF, 0);
  stderr = cap;
  // statements that name a signal: the message starts with the signal's name
  static const struct { int code; u16 sat; const char *name; } SIGS[8] = {{CODE_GPS_L1CA, 3, "GPS L1CA 3"}, {CODE_GLO_L2OF, 28, "GLO L2OF 28"}, {CODE_GAL_E5X, 36, "GAL E5a 36"}, {CODE_BDS3_B1CQ, 64, "BDS3 B1CQ 64"},
    {CODE_SBAS_L1CA, 131, "SBAS L1 131"}, {CODE_QZS_L1CX, 202, "QZS L1CX 202"}, {CODE_INVALID, 65535, "? 65535"}, {CODE_GAL_E7I, 1, "GAL E5bI 1"}};
  struct Call { int level; bool det; unsigned id; std::string text, body; int line; U64 inv, res; int actor; size_t rec0; std::string err; std::vector<Rec> recs; };
  std::vector<Call> calls;
  std::vector<const Op *> T[5];
  unsigned id = 0; std::map<const Op *, unsigned> ids;
  for (auto &o : s.ops) {
    if (o.name == "cfg") L.slow = o.arg(0) != 0;
    if (o.name == "log") { ids[&o] = ++id; T[(U64)o.arg(3) % 3].push_back(&o); }
    if (o.name == "inner") T[(U64)o.arg(1) % 3].push_back(&o);
    if (o.name == "swap" && o.arg(1) >= 0) T[o.arg(1) == 4 ? 4 : 3].push_back(&o);
  }
  L.install(0);
  for (auto &o : s.ops) if (o.name == "swap" && o.arg(1) < 0) L.install((int)((U64)o.arg(0) % 4));
  auto body = [&](int t) {
    for (auto *o : T[t]) {
      if (c.failed()) break;
      if (L.sc) L.sc->yield();
      if (o->name == "swap") { L.install((int)((U64)o->arg(0) % 4)); continue; }
      if (o->name == "inner") { L.inner[L.me()] = (int)((U64)o->arg(0) % 4); continue; }
      Call k; k.level = (int)((U64)o->arg(0) % 8); k.det = o->arg(1) != 0; k.id = ids[o]; k.text = log_text((U64)o->arg(2)); k.body = "<<" + std::to_string(k.id) + "|" + k.text + ">>";
      int sg = (int)((U64)o->arg(4) % 17); if (sg) { k.level = (const int[]){3, 4, 6, 7}[k.level % 4]; k.body = std::string(SIGS[(sg - 1) % 8].name) + " " + (sg > 8 ? "<<plain>>" : k.body); c.probe("names_a_signal"); }
      k.actor = L.me(); L.err[k.actor].clear();
      size_t r0 = L.recs.size();
      k.inv = ++L.clock;
      k.line = sg ? shim_log_sid(k.level, k.det, sg > 8, SIGS[(sg - 1) % 8].sat, SIGS[(sg - 1) % 8].code, k.id, k.text.c_str()) : shim_log(k.level, k.det, k.id, k.text.c_str());
      k.res = ++L.clock;
      k.err = L.err[k.actor];
      for (size_t i = r0; i < L.recs.size(); i++) if (L.recs[i].actor == k.actor) k.recs.push_back(L.recs[i]);
      calls.push_back(k);
      c.ev("log %d%s -> %zu recs, err [%s]", k.level, k.det ? " detailed" : "", k.recs.size(), k.err.c_str());
    }
  };
#ifdef SIM_ASAN
  for (int t = 0; t < 5; t++) body(t);
#else
  {
    Sched sc(c, s); L.sc = &sc;
    for (int t = 0; t < 5; t++) if (!T[t].empty()) sc.spawn([&, t] { body(t); }, s.seed | 1);
    sc.run(); L.sc = nullptr;
    if (sc.deadlocked) c.fail("log-stuck", "a thread never returned");
  }
#endif
  stderr = real; fclose(cap);
  U64 through = 0;
  for (auto &k : calls) {
    if (c.failed()) break;
    const std::string &body = k.body;
    U64 e = count_of(k.err, body), n = k.recs.size() + e;
    if (k.level == LOG_DEBUG) { if (k.recs.size() || !k.err.empty()) c.fail("log-debug", "a debug message was delivered"); continue; }
    if (n == 0) { c.fail("log-lost", "message %u (level %d%s) reached no implementation; error stream: [%s]", k.id, k.level, k.det ? ", detailed" : "", k.err.c_str()); continue; }
    if (n > 1) { c.fail("log-duplicate", "message %u was delivered %llu times", k.id, (unsigned long long)n); continue; }
    int impl = 0;
    if (e) {
      // text around the message: level name, and place for detailed messages
      std::string rest = k.err; rest.erase(rest.find(body), body.size());
      if (rest.find(LEVELS[k.level]) == std::string::npos) c.fail("log-level", "default logger printed [%s] for level %s", k.err.c_str(), LEVELS[k.level]);
      if (k.det && (rest.find("shims.c:" + std::to_string(k.line)) == std::string::npos || rest.find("/shims.c") != std::string::npos))
        c.fail("log-place", "default logger printed [%s], the statement is at shims.c:%d", k.err.c_str(), k.line);
      c.probe("default_logger");
    } else {
      Rec &r = k.recs[0]; impl = r.impl;
      if (!k.err.empty()) c.fail("log-duplicate", "message %u also reached the error stream: [%s]", k.id, k.err.c_str());
      if (r.level != k.level) c.fail("log-level", "message %u logged at level %d arrived at level %d", k.id, k.level, r.level);
      if (r.detailed != k.det) c.fail("log-kind", "message %u arrived at the wrong function", k.id);
      if (r.text != body) c.fail("log-text", "message [%s] arrived as [%s]", body.c_str(), r.text.c_str());
      if (k.det && (r.file != "shims.c" || r.line != k.line)) c.fail("log-place", "message at shims.c:%d arrived as %s:%d", k.line, r.file.c_str(), r.line);
    }
    bool ok = false;
    for (auto &x : L.swaps) {
      if (x.impl != impl || x.inv > k.res) continue;
      bool over = false;
      for (auto &y : L.swaps) over |= x.res < y.inv && y.res < k.inv;
      ok |= !over;
    }
    if (!ok) c.fail("log-misdirected", "message %u reached implementation %d, which was not installed during the call", k.id, impl);
    through++;
  }
  if (!c.failed()) for (auto &r : L.recs) {   // nothing is delivered that nobody logged
    bool found = false;
    for (auto &k : calls) for (auto &q : k.recs) found |= q.t == r.t;
    if (!found) { c.fail("log-phantom", "implementation %d got a message outside any log call", r.impl); break; }
  }
  for (auto &o : s.ops) {
    if (o.name != "path" || c.failed()) continue;
    Rng r((U64)o.arg(0));
    std::string p; int n = (int)r.below(r.chance(1, 12) ? 600 : 24);
    for (int i = 0; i < n; i++) p += r.chance(1, 3) ? '/' : (char)('a' + r.below(3));
    if (r.chance(1, 6)) p += ".c";
    std::string want = p; while (!want.empty() && want.back() == '/') want.pop_back();
    if (want.empty()) want = p.empty() ? "" : "/";
    else { size_t q = want.rfind('/'); if (q != std::string::npos) want = want.substr(q + 1); }
    std::vector<char> b(p.begin(), p.end()); b.push_back(0);
    std::string got = truncate_path_(b.data());
    c.ev("path %s -> %s", p.c_str(), got.c_str());
    if (got != want) c.fail("log-basename", "base name of %s given as %s, expected %s", p.c_str(), got.c_str(), want.c_str());
  }
  logging_set_implementation(nullptr, nullptr);
  g_log = nullptr;
  c.nontrivial = through > 0;
}

// =========================================================================== C07
static void gen_c07(Rng &r, Scenario &s, U64) {
  U64 n = (U64)r.range(2, 60);
  uint32_t t = r.chance(1, 2) ? (uint32_t)r.next() : r.chance(1, 2) ? 0u : 604800000u - (uint32_t)r.below(3000);
  i64 every[3]; for (i64 &e : every) e = r.chance(1, 8) ? 0 : r.chance(1, 3) ? r.range(1, 3) : r.range(1, 9);
  for (U64 i = 0; i < n; i++) {
    switch (r.below(12)) {
      case 0: t += 1000; break;
      case 1: t += 999; break;
      case 2: t += 1001; break;
      case 3: t -= (uint32_t)r.range(1, 3000); break;
      case 4: t = (uint32_t)r.below(2000); break;              // week rollover
      case 5: t = 0xffffffffu - (uint32_t)(r.chance(1, 3) ? 0 : r.below(1500)); break;
      case 6: t = (uint32_t)r.next(); break;
      case 7: break;
      default: t += (uint32_t)r.below(700); break;
    }
    s.op("use", {(i64)r.below(r.chance(1, 4) ? 4 : 2), (i64)t});
    if (r.chance(1, 6)) { i64 w = (i64)r.below(3); for (i64 j = r.range(1, 12); j > 0; j--) s.op("every", {w, every[w]}); }
  }
}
static void run_c07(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    uint32_t last[4]; bool used[4] = {false, false, false, false}; U64 em = 0, sup = 0;
    uint32_t prev = 0; bool first = true;
    uint32_t uses[3] = {0, 0, 0};
    for (auto &o : s.ops) {
      if (o.name == "every" && !c.failed()) {   // runs at its first use and at every n-th after it
        int w = (int)((U64)o.arg(0) % 3); uint32_t n = (uint32_t)o.arg(1); int want = n && uses[w] % n == 0, got = shim_every(w, n);
        c.ev("every %u: use %u of %d -> %d", n, uses[w], w, got);
        if (got != want) { c.fail("every-nth", "a statement for every %u uses ran %d times at its use number %u, expected %d", n, got, uses[w] + 1, want); return; }
        uses[w]++;
      }
      if (o.name != "use" || c.failed()) continue;
      int w = (int)((U64)o.arg(0) % 4); uint32_t t = (uint32_t)o.arg(1);
      if (!first) { if (t < prev) c.fault("clock_step_back"); else { c.time((t - prev) / 1000.0); if (t - prev > 100000) c.fault("clock_jump_forward"); } }
      prev = t; first = false;
      bool want = !used[w] || (uint32_t)(t - last[w]) >= 1000u;
      int got = shim_rate(w, t);
      c.ev("statement %d at %u -> %d", w, t, got);
      if (got != (want ? 1 : 0)) {
        c.fail(got ? "rate-early" : "rate-suppressed", "statement %d used at %u (last emission %s%u) emitted %d times, expected %d", w, t, used[w] ? "" : "none ", used[w] ? last[w] : 0, got, want);
        return;
      }
      if (want) { last[w] = t; used[w] = true; em++; } else sup++;
      c.state(mix(mix(used[0] ? last[0] % 5000 : 1, used[1] ? last[1] % 5000 : 1), t % 5000));
    }
    c.nontrivial = em > 1 && sup > 0;
  });
}

Prop g_props[] = {
  {"C03", gen_c03, run_c03, 450000, 4000000,
   "a run = 2..4 threads making 3..14 set/clear/clear-all/valid/get/reverse calls on a few hot slots under a seeded schedule at every memory access, lock supplied by the simulator; non-trivial when threads interleaved",
   "src/glo_map.c, src/signal.c", "threads (coroutines) and the user's lock", "hash of the sequence of (actor, access number, next actor) context switches"},
  {"C04", gen_c04, run_c04, 450000, 4000000,
   "a run = 2..60 map operations, every slot compared with the model after each; non-trivial when at least two mappings were set",
   "src/glo_map.c, src/signal.c", "none", "hash of the operation results"},
  {"C05", gen_c05, run_c05, 800000, 6000000,
   "a run = 3..26 register/deregister/reset/report operations over 7 nodes (in one run of sixty a crowd of 20 to 300), half of the runs with changes made inside callbacks; non-trivial when at least two callbacks were delivered",
   "src/subsystem_status_report.c", "callbacks", "hash of the event log"},
  {"C06", gen_c06, run_c06, 320000, 2000000,
   "a run = 1..3 logging threads and up to two threads swapping implementations, seeded schedule at every memory access; non-trivial when a message at INFO or above was logged",
   "src/logging.c, src/logging_common.c, logging macros of include/swiftnav/logging.h", "log implementations, the error stream", "hash of the sequence of context switches"},
  {"C07", gen_c07, run_c07, 600000, 4000000,
   "a run = 2..60 uses of up to four rate-limited statements under a simulated 32-bit clock with steps, jumps and wrap; non-trivial when some use emitted again and some was suppressed",
   "LOG_RATE_LIMIT of include/swiftnav/logging.h", "clock", "hash of the event log"},
};
const int g_nprops = 5;
