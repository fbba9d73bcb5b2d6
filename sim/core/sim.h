// Deterministic simulation core: one PRNG, a coroutine scheduler whose every
// decision is recorded, a fault/event log, and a scenario text format that is
// both the generator's output and the replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::int64_t i64;
typedef std::uint64_t U64;

// ---------------------------------------------------------------- PRNG
struct Rng {
  U64 s;
  explicit Rng(U64 seed = 1) : s(seed) { next(); next(); }
  U64 next() {  // splitmix64
    U64 z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  U64 below(U64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((U64)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  double gauss() {  // sum of 12 uniforms: deterministic, no libm
    double t = 0;
    for (int i = 0; i < 12; i++) t += unit();
    return t - 6.0;
  }
  template <class T> T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
};
U64 mix(U64 a, U64 b);

// ---------------------------------------------------------------- scenario
struct Op {
  std::string name;
  std::vector<i64> a;
  i64 arg(size_t i, i64 dflt = 0) const { return i < a.size() ? a[i] : dflt; }
};
struct Switch { int actor; i64 count; int target; };
struct Kill { int actor; i64 count; };
struct Scenario {
  std::string prop;
  U64 seed = 0;        // seed of the run that produced it (information only)
  U64 schedseed = 0;   // nonzero: schedule still to be drawn from this seed
  std::vector<Op> ops;
  std::vector<Switch> sw;   // explicit schedule when schedseed == 0
  std::vector<Kill> kills;
  void op(const std::string &n, std::vector<i64> a = {}) { ops.push_back({n, std::move(a)}); }
  std::string text() const;
  bool parse(const std::string &t);
};
static inline i64 d2i(double d) { i64 r; memcpy(&r, &d, 8); return r; }
static inline double i2d(i64 i) { double r; memcpy(&r, &i, 8); return r; }

// ---------------------------------------------------------------- context
struct Violation { bool set = false; std::string kind, msg; };

struct Ctx;
struct Sched;

struct Ctx {
  bool verbose = false;
  U64 hash = 0xcbf29ce484222325ULL;
  U64 events = 0;
  std::string logtext;
  Violation v;
  std::map<std::string, U64> faults, probes;
  std::unordered_set<U64> states;
  bool nontrivial = false;
  double simtime = 0;          // simulated seconds elapsed
  U64 switches = 0, yields = 0;
  U64 simhash = 0;             // hash of the interleaving actually executed
  // recorded schedule (filled while a schedseed is in force)
  std::vector<Switch> rec_sw;
  std::vector<Kill> rec_kill;

  void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void evbytes(const void *p, size_t n);
  bool fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  bool failed() const { return v.set; }
  void fault(const char *k, U64 n = 1) { faults[k] += n; }
  void probe(const char *k, U64 n = 1) { probes[k] += n; }
  void state(U64 h) { if (states.size() < 4096) states.insert(h); }
  void time(double dt) { simtime += dt; }
};
extern Ctx *g_ctx;   // context of the run being executed in this process

// ---------------------------------------------------------------- scheduler
// Actors are coroutines on their own painted stacks.  Every instrumented
// memory access of the code under test is a yield point.
struct Sched {
  struct Actor;
  Sched(Ctx &c, const Scenario &s);
  ~Sched();
  int spawn(std::function<void()> f, U64 paint = 0);   // returns actor id
  void run();                              // until all actors finish or deadlock
  void yield();                            // explicit yield point
  void block();                            // current actor waits
  void wake(int actor);
  int current() const;
  bool killed(int actor) const;
  bool deadlocked = false;
  bool preempt = true;                     // false: accesses are not yield points
  // kill policy while recording: probability 1/kill_den per yield point for actors in kill_ok
  unsigned kill_den = 0; int kill_max = 0; std::set<int> kill_ok;
  std::function<void(int)> on_kill;        // called on the scheduler stack
  void point();                            // called from the access callbacks
  void decide();                           // unconditional return to the scheduler
  void set_coarse(unsigned f);             // long actors: stretch decision distances
 private:
  struct Impl; Impl *m;
};
extern Sched *g_sched;

// Runs f on a fresh simulator-owned stack painted with a pattern derived from
// paint, so that anything the code under test reads uninitialised is decided by
// the simulator.  (Plain call in the memory-checking variant.)
void on_painted_stack(U64 paint, const std::function<void()> &f);

// Hang budget: the code under test has executed too many basic blocks.
void budget_reset(U64 budget = 20000000ULL);
U64 budget_used();

// Puts the library's static data back to what a process that has just started finds.
void restore_statics();

// A statement of what is about to be called, reported if the process dies.
void about_to(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- properties
struct Prop {
  const char *id;
  void (*gen)(Rng &, Scenario &, U64 idx);   // build the scenario of run idx
  void (*run)(Ctx &, const Scenario &);      // execute it
  U64 quick_runs, thorough_runs;             // split over variants by the driver
  const char *rule;
  const char *real_components;
  const char *stub_components;
  const char *interleaving_measure;
};
extern Prop g_props[];
extern const int g_nprops;

U64 hash_bytes(const void *p, size_t n, U64 seed = 0xcbf29ce484222325ULL);
