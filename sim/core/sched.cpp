#include "sim.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <memory>
#ifdef SIM_ASAN
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#endif

void record_switch(const Switch &); void record_kill(const Kill &);
Ctx *g_ctx = nullptr;
Sched *g_sched = nullptr;

// ------------------------------------------------------------ stacks, switching
static const size_t STK = 1u << 21;       // 2 MiB per actor
static const size_t PAINT = 1u << 15;     // painted region below the frame
static const int MAXSTK = 16;
static char *stack_base(int i) {
  static char *region = nullptr;
  if (!region) {
    // fixed address: what uninitialised reads see must not depend on ASLR
    region = (char *)mmap((void *)0x5a0000000000ULL, (STK + 65536) * MAXSTK, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (region == MAP_FAILED) { fprintf(stderr, "sim: cannot map stacks\n"); _exit(97); }
    for (int k = 0; k < MAXSTK; k++) mprotect(region + (STK + 65536) * k, 65536, PROT_NONE);
  }
  return region + (STK + 65536) * i + 65536;
}
static void paint(char *base, U64 seed) {
  U64 *p = (U64 *)(base + STK - PAINT), *e = (U64 *)(base + STK);
  if (seed == 0) { memset((void *)p, 0, PAINT); return; }
  // Patterns that look like plausible leftovers: small ints, doubles, bytes.
  U64 x = mix(seed, 77);
  unsigned style = seed % 4;
  for (; p < e; p++) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    switch (style) {
      case 0: *p = x; break;
      case 1: { double d = (double)(i64)(x >> 40) / 7.0; memcpy(p, &d, 8); break; }
      case 2: *p = 0x0101010101010101ULL * (1 + (x >> 61)); break;
      default: *p = 0xFEFEFEFEFEFEFEFEULL; break;
    }
  }
}

extern "C" void sim_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.section .note.GNU-stack,"",@progbits
.text
)");

typedef void (*EntryFn)();
static void *make_stack(char *base, EntryFn f) {
  U64 *sp = (U64 *)(base + STK);
  *--sp = 0;            // alignment / fake return
  *--sp = (U64)f;
  for (int i = 0; i < 6; i++) *--sp = 0;
  return sp;
}

struct Sched::Actor {
  std::function<void()> f;
  void *sp = nullptr;
  char *stack = nullptr;
  i64 count = 0;
  bool done = false, blocked = false, dead = false;
};
struct Sched::Impl {
  Ctx &c; const Scenario &s;
  std::vector<std::unique_ptr<Sched::Actor>> actors;
  void *main_sp = nullptr;
  int cur = -1, nextstk = 0, kills = 0;
  bool rec; Rng rng;
  int strategy = 0; unsigned den = 4;
  std::vector<U64> prio; std::set<i64> change; i64 total = 0;
  std::map<std::pair<int, i64>, int> sw;
  std::set<std::pair<int, i64>> kl;
  std::vector<std::set<i64>> keys;          // replay: decision points per actor
  Impl(Ctx &c_, const Scenario &s_) : c(c_), s(s_), rec(s_.schedseed != 0), rng(s_.schedseed) {}
  // accesses the actor may make before the next decision
  i64 draw(int a) {
    if (!rec) {
      if (a >= (int)keys.size()) return INT64_MAX;
      auto it = keys[a].upper_bound(actors[a]->count);
      return it == keys[a].end() ? INT64_MAX : *it - actors[a]->count;
    }
    if (strategy == 2) {
      auto it = change.upper_bound(total);
      return it == change.end() ? INT64_MAX : *it - total;
    }
    return 1 + (i64)rng.below(2 * den - 1);
  }
};
static Sched::Actor *g_me = nullptr;
static i64 g_skip = INT64_MAX, g_skip0 = 0;  // countdown to the next decision

static void actor_entry() {
  g_me->f();
  extern void sched_finish();
  sched_finish();
}

Sched::Sched(Ctx &c, const Scenario &s) : m(new Impl(c, s)) {
  g_sched = this;
  g_me = nullptr;
  if (m->rec) {
    m->strategy = (int)m->rng.below(3);
    m->den = m->rng.pick({1u, 2u, 3u, 5u, 9u, 17u, 40u});
    for (int i = 0; i < MAXSTK; i++) m->prio.push_back(m->rng.next());
    int d = 1 + (int)m->rng.below(6);
    i64 span = (i64)m->rng.pick({40, 150, 600, 3000});
    for (int i = 0; i < d; i++) m->change.insert(m->rng.range(0, span));
  } else {
    m->keys.resize(MAXSTK);
    for (auto &x : s.sw) {
      m->sw[{x.actor, x.count}] = x.target;
      if (x.actor >= 0 && x.actor < MAXSTK) m->keys[x.actor].insert(x.count);
    }
    for (auto &x : s.kills) {
      m->kl.insert({x.actor, x.count});
      if (x.actor >= 0 && x.actor < MAXSTK) m->keys[x.actor].insert(x.count);
    }
  }
}
Sched::~Sched() { g_sched = nullptr; g_me = nullptr; delete m; }
void Sched::set_coarse(unsigned f) {
  if (m->rec && m->strategy == 2) {
    std::set<i64> n; for (i64 x : m->change) n.insert(x * (i64)f); m->change = n;
  } else if (m->rec) m->den = m->den * (1 + (unsigned)m->rng.below(f));
}
int Sched::current() const { return m->cur; }
bool Sched::killed(int a) const { return m->actors[a]->dead; }

int Sched::spawn(std::function<void()> f, U64 pt) {
  if (m->nextstk >= MAXSTK) { fprintf(stderr, "sim: too many actors\n"); _exit(97); }
  auto a = std::make_unique<Actor>();
  a->f = std::move(f);
  a->stack = stack_base(m->nextstk++);
#ifdef SIM_ASAN
  __asan_unpoison_memory_region(a->stack, STK);
#endif
  paint(a->stack, pt);
  a->sp = make_stack(a->stack, actor_entry);
  m->actors.push_back(std::move(a));
  return (int)m->actors.size() - 1;
}

// All scheduling decisions are made on the main stack, in run().
void Sched::run() {
  Impl *m = this->m;
  auto pick = [&](bool at_point) -> int {
    int r[MAXSTK], n = 0;
    for (size_t i = 0; i < m->actors.size(); i++) {
      Actor &a = *m->actors[i];
      if (!a.done && !a.dead && !a.blocked) r[n++] = (int)i;
    }
    if (!n) return -1;
    int cur = m->cur;
    bool cur_ok = false;
    for (int i = 0; i < n; i++) cur_ok |= (r[i] == cur);
    int dflt = (at_point && cur_ok) ? cur : r[0];
    int choice = dflt;
    i64 cnt = cur >= 0 ? m->actors[cur]->count : 0;
    if (m->rec) {
      if (m->strategy == 2) {
        if (at_point && cur >= 0 && m->change.count(m->total)) m->prio[cur] = m->rng.next() >> 20;
        choice = r[0];
        for (int i = 0; i < n; i++) if (m->prio[r[i]] > m->prio[choice]) choice = r[i];
      } else {
        choice = r[m->rng.below((U64)n)];
      }
      if (choice != dflt) { m->c.rec_sw.push_back({cur, cnt, choice}); record_switch(m->c.rec_sw.back()); }
    } else {
      auto it = m->sw.find({cur, cnt});
      if (it != m->sw.end()) for (int i = 0; i < n; i++) if (r[i] == it->second) choice = it->second;
    }
    if (choice != cur) {
      m->c.switches++;
      m->c.simhash = mix(m->c.simhash, (U64)(cur + 2) * 1000003 + (U64)cnt * 64 + (U64)choice);
    }
    return choice;
  };
  m->cur = -1;
  bool at_point = false;
  for (;;) {
    if (at_point && m->cur >= 0) {   // a kill lands on the actor that just reached a point
      Actor &a = *m->actors[m->cur];
      bool k = false, ok = !a.done && kill_ok.count(m->cur);
      if (m->rec) {
        if (ok && kill_den && m->kills < kill_max && m->rng.chance(1, kill_den)) {
          k = true;
          m->c.rec_kill.push_back({m->cur, a.count}); record_kill(m->c.rec_kill.back());
        }
      } else k = ok && m->kl.count({m->cur, a.count}) != 0;
      if (k) {
        m->kills++; a.dead = true;
        int who = m->cur;
        if (on_kill) on_kill(who);
      }
    }
    int n = pick(at_point);
    if (n < 0) {
      for (auto &a : m->actors) if (!a->done && !a->dead) deadlocked = true;
      break;
    }
    m->cur = n;
    g_me = m->actors[n].get();
    g_skip0 = g_skip = m->draw(n);
    sim_switch(&m->main_sp, g_me->sp);
    i64 used = g_skip0 - g_skip;
    m->total += used;
    m->c.yields += (U64)used;
    at_point = !g_me->done;
  }
  m->cur = -1;
  g_me = nullptr;
}
void Sched::point() {
  if (!g_me) return;
  g_me->count++;
  if (--g_skip > 0) return;
  sim_switch(&g_me->sp, m->main_sp);
}
void Sched::decide() {   // unconditional return to the scheduler
  if (!g_me) return;
  g_me->count++; g_skip--;
  sim_switch(&g_me->sp, m->main_sp);
}
void Sched::yield() { decide(); }
void Sched::block() { if (!g_me) return; g_me->blocked = true; decide(); }
void Sched::wake(int a) { m->actors[a]->blocked = false; }
void sched_finish() {
  g_me->done = true;
  g_sched->decide();
  abort();
}

extern "C" void sim_access() {
  if (g_me && g_sched->preempt) g_sched->point();
}

// ------------------------------------------------------------ painted calls
static const std::function<void()> *pf; static void *pf_main, *pf_sp;
static void painted_entry() {
  (*pf)();
  sim_switch(&pf_sp, pf_main);
  abort();
}
void on_painted_stack(U64 seed, const std::function<void()> &f) {
#ifdef SIM_ASAN
  (void)seed; f();
#else
  if (g_sched || pf) { f(); return; }
  char *b = stack_base(MAXSTK - 1);
  paint(b, seed);
  pf = &f;
  pf_sp = make_stack(b, painted_entry);
  sim_switch(&pf_main, pf_sp);
  pf = nullptr;
#endif
}
