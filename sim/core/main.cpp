// Batch runner: seeded search over simulated runs, gating, minimisation, replay.
#include "sim.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <sstream>

// ------------------------------------------------------------ small things
U64 mix(U64 a, U64 b) {
  U64 z = a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
U64 hash_bytes(const void *p, size_t n, U64 h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; }
  return h;
}
std::string Scenario::text() const {
  std::ostringstream o;
  o << "prop " << prop << "\n" << "seed " << seed << "\n";
  if (schedseed) o << "schedseed " << schedseed << "\n";
  for (auto &x : ops) { o << "op " << x.name; for (i64 v : x.a) o << " " << v; o << "\n"; }
  for (auto &x : kills) o << "kill " << x.actor << " " << x.count << "\n";
  for (auto &x : sw) o << "switch " << x.actor << " " << x.count << " " << x.target << "\n";
  return o.str();
}
bool Scenario::parse(const std::string &t) {
  std::istringstream in(t); std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k;
    if (!(l >> k) || k[0] == '#') continue;
    if (k == "prop") l >> prop;
    else if (k == "seed") l >> seed;
    else if (k == "schedseed") l >> schedseed;
    else if (k == "op") { Op o; l >> o.name; i64 v; while (l >> v) o.a.push_back(v); ops.push_back(o); }
    else if (k == "kill") { Kill x; l >> x.actor >> x.count; kills.push_back(x); }
    else if (k == "switch") { Switch x; l >> x.actor >> x.count >> x.target; sw.push_back(x); }
    else return false;
  }
  return !prop.empty();
}

// ------------------------------------------------------------ shared page
static const int RECMAX = 200000;
struct Shared {
  volatile i64 progress;       // run index being executed, -1 if idle
  volatile int state;          // 0 running, 1 finished with result, 2 assert, 3 hang, 4 memory error
  volatile int vset;
  char kind[64]; char msg[1024]; char about[512];
  U64 hash; volatile i64 worker_done;
  int nsw, nkill;
  Switch sw[RECMAX]; Kill kill[2000];
  unsigned char cov[1 << 16];
};
static Shared *g_sh = nullptr;
static Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
  return (Shared *)p;
}
static std::atomic<i64> *g_min = nullptr;

void about_to(const char *fmt, ...) {
  if (!g_sh) return;
  va_list ap; va_start(ap, fmt); vsnprintf(g_sh->about, sizeof g_sh->about, fmt, ap); va_end(ap);
}
extern "C" void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/');
  if (g_sh) {
    snprintf(g_sh->msg, sizeof g_sh->msg, "assertion '%s' failed at %s:%u (%s)", e, b ? b + 1 : file, line, fn ? fn : "?");
    g_sh->state = 2;
  }
  _exit(95);
}
// hang budget and reach
static U64 g_budget = 20000000ULL, g_used = 0;
void budget_reset(U64 b) { g_budget = b; g_used = 0; }
U64 budget_used() { return g_used; }
extern "C" void __sanitizer_cov_trace_pc(void) {
  U64 pc = (U64)__builtin_return_address(0);
  if (g_sh) g_sh->cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
  if (++g_used > g_budget) {
    if (g_sh) { g_sh->state = 3; snprintf(g_sh->msg, sizeof g_sh->msg, "no return after %llu basic blocks", (unsigned long long)g_budget); }
    _exit(94);
  }
}
#ifdef SIM_ASAN
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=93:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:log_path=/dev/null"; }
extern "C" const char *__asan_get_report_description(void);
extern "C" int __asan_get_report_access_type(void);
extern "C" size_t __asan_get_report_access_size(void);
extern "C" void __asan_on_error(void) {
  if (g_sh) {
    g_sh->state = 4;
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s on %s of %zu bytes", __asan_get_report_description(),
             __asan_get_report_access_type() ? "write" : "read", (size_t)__asan_get_report_access_size());
  }
}
#endif

// ------------------------------------------------------------ library statics
extern "C" {
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
}
static std::vector<char> g_snap_data, g_snap_bss;
#ifdef SIM_ASAN
#define RAWMEM __attribute__((no_sanitize("address"), noinline))
#else
#define RAWMEM __attribute__((noinline))
#endif
RAWMEM static void raw_copy(volatile char *d, const volatile char *s, size_t n) { for (size_t i = 0; i < n; i++) if (d[i] != s[i]) d[i] = s[i]; }
RAWMEM static void snapshot_statics() {
  if (__start_libdata) { g_snap_data.resize((size_t)(__stop_libdata - __start_libdata)); raw_copy(g_snap_data.data(), __start_libdata, g_snap_data.size()); }
  if (__start_libbss) { g_snap_bss.resize((size_t)(__stop_libbss - __start_libbss)); raw_copy(g_snap_bss.data(), __start_libbss, g_snap_bss.size()); }
}
void restore_statics() {
  if (g_snap_data.size()) raw_copy(__start_libdata, g_snap_data.data(), g_snap_data.size());
  if (g_snap_bss.size()) raw_copy(__start_libbss, g_snap_bss.data(), g_snap_bss.size());
}

// ------------------------------------------------------------ context
void Ctx::ev(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  hash = hash_bytes(b, (size_t)n, hash); events++;
  if (verbose) { printf("  %6llu  %s\n", (unsigned long long)events, b); fflush(stdout); }
}
void Ctx::evbytes(const void *p, size_t n) { hash = hash_bytes(p, n, hash); }
bool Ctx::fail(const char *kind, const char *fmt, ...) {
  if (v.set) return false;
  char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char *p = b; *p; p++) if ((unsigned char)*p < 32 || *p == 127) *p = 0x20;
  v.set = true; v.kind = kind; v.msg = b;
  ev("VIOLATED %s: %s", kind, b);
  return false;
}

static const Prop *find_prop(const std::string &id) {
  for (int i = 0; i < g_nprops; i++) if (id == g_props[i].id) return &g_props[i];
  return nullptr;
}
static Scenario generate(const Prop *p, U64 seed, U64 idx) {
  Scenario s; s.prop = p->id; s.seed = seed;
  Rng r(mix(mix(seed, hash_bytes(p->id, strlen(p->id))), idx));
  p->gen(r, s, idx);
  s.seed = seed * 1000003 + idx;
  if (s.sw.empty() && s.kills.empty()) s.schedseed = r.next() | 1;
  return s;
}
static void execute(const Prop *p, const Scenario &s, Ctx &c) {
  g_ctx = &c;
  if (g_sh) { g_sh->nsw = g_sh->nkill = 0; g_sh->about[0] = 0; }
  restore_statics();
  budget_reset();
  p->run(c, s);
  g_ctx = nullptr;
}

// ------------------------------------------------------------ one run in a child
struct Outcome { bool viol = false; std::string kind, msg; U64 hash = 0; std::vector<Switch> sw; std::vector<Kill> kills; };
static const char *state_kind(int st, int status) {
  if (st == 2) return "abort";
  if (st == 3) return "hang";
  if (st == 4) return "memory";
  return WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? "hang" : "crash";
}
static void crash_outcome(Shared *sh, int status, Outcome &o) {
  o.viol = true; o.kind = state_kind(sh->state, status);
  std::string m = sh->state >= 2 ? sh->msg : WIFSIGNALED(status) ? std::string("signal ") + strsignal(WTERMSIG(status))
                                                                  : "process exited with " + std::to_string(WEXITSTATUS(status));
  o.msg = m + (sh->about[0] ? std::string(" during ") + sh->about : "");
  o.hash = hash_bytes(o.msg.data(), o.msg.size());
}
static void rec_to_shared(const Ctx &c) {
  g_sh->nsw = (int)std::min<size_t>(c.rec_sw.size(), RECMAX);
  for (int i = 0; i < g_sh->nsw; i++) g_sh->sw[i] = c.rec_sw[(size_t)i];
  g_sh->nkill = (int)std::min<size_t>(c.rec_kill.size(), 2000);
  for (int i = 0; i < g_sh->nkill; i++) g_sh->kill[i] = c.rec_kill[(size_t)i];
}
void record_switch(const Switch &s) { if (g_sh && g_sh->nsw < RECMAX) g_sh->sw[g_sh->nsw++] = s; }
void record_kill(const Kill &k) { if (g_sh && g_sh->nkill < 2000) g_sh->kill[g_sh->nkill++] = k; }

static Outcome run_child(const Prop *p, const Scenario &s) {
  static Shared *sh = new_shared();
  sh->state = 0; sh->vset = 0; sh->nsw = sh->nkill = 0; sh->about[0] = 0; sh->msg[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    g_sh = sh; alarm(60);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    Ctx c; execute(p, s, c);
    sh->vset = c.v.set; snprintf(sh->kind, sizeof sh->kind, "%s", c.v.kind.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", c.v.msg.c_str());
    sh->hash = c.hash; rec_to_shared(c);
    sh->state = 1;
    _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  Outcome o;
  if (sh->state == 1) { o.viol = sh->vset; o.kind = sh->kind; o.msg = sh->msg; o.hash = sh->hash; }
  else crash_outcome(sh, st, o);
  o.sw.assign(sh->sw, sh->sw + sh->nsw); o.kills.assign(sh->kill, sh->kill + sh->nkill);
  return o;
}

// ------------------------------------------------------------ minimiser
static Scenario minimise(const Prop *p, Scenario s, const std::string &kind, U64 &tried) {
  time_t t0 = time(nullptr);
  auto bad = [&](const Scenario &c) {
    if (tried >= 4000 || time(nullptr) - t0 > 60) return false;
    tried++;
    Outcome o = run_child(p, c);
    return o.viol && o.kind == kind;
  };
  auto ddmin = [&](auto member) {
    size_t chunk = std::max<size_t>(1, (s.*member).size() / 2);
    while (!(s.*member).empty()) {
      bool any = false;
      for (size_t i = 0; i < (s.*member).size();) {
        Scenario c = s; auto &v = c.*member;
        size_t e = std::min(v.size(), i + chunk);
        v.erase(v.begin() + (long)i, v.begin() + (long)e);
        if (bad(c)) { s = c; any = true; } else i += chunk;
      }
      if (chunk == 1) { if (!any) break; }
      else chunk = std::max<size_t>(1, chunk / 2);
      if (tried >= 4000 || time(nullptr) - t0 > 60) break;
    }
  };
  for (int round = 0; round < 2; round++) {
    U64 before = s.ops.size() + s.sw.size() + s.kills.size();
    ddmin(&Scenario::sw); ddmin(&Scenario::ops); ddmin(&Scenario::kills);
    if (s.ops.size() + s.sw.size() + s.kills.size() == before) break;
  }
  for (size_t i = 0; i < s.ops.size(); i++)
    for (size_t j = 0; j < s.ops[i].a.size(); j++)
      for (i64 nv : {(i64)0, (i64)1, s.ops[i].a[j] / 2}) {
        if (s.ops[i].a[j] == nv || (nv != 0 && llabs(s.ops[i].a[j]) <= llabs(nv))) continue;
        Scenario c = s; c.ops[i].a[j] = nv;
        if (bad(c)) { s = c; break; }
      }
  return s;
}

// ------------------------------------------------------------ batch
struct Tot {
  U64 runs = 0, nontrivial = 0, switches = 0, yields = 0, events = 0; double simtime = 0;
  std::map<std::string, U64> faults, probes;
  std::unordered_set<U64> hashes, inter, states;
  std::vector<std::pair<U64, std::string>> samples;
};
static void put_str(FILE *f, const std::string &s) { U64 n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static std::string get_str(FILE *f) { U64 n = 0; if (fread(&n, 8, 1, f) != 1) return ""; std::string s(n, 0); if (fread(&s[0], 1, n, f) != n) return ""; return s; }
static void put_set(FILE *f, const std::unordered_set<U64> &s) { U64 n = s.size(); fwrite(&n, 8, 1, f); for (U64 x : s) fwrite(&x, 8, 1, f); }
static void get_set(FILE *f, std::unordered_set<U64> &s) { U64 n = 0, x; if (fread(&n, 8, 1, f) != 1) return; while (n--) if (fread(&x, 8, 1, f) == 1) s.insert(x); }
static void save(const Tot &t, const std::string &fn) {
  FILE *f = fopen(fn.c_str(), "wb"); if (!f) _exit(97);
  fwrite(&t.runs, 8, 1, f); fwrite(&t.nontrivial, 8, 1, f); fwrite(&t.switches, 8, 1, f); fwrite(&t.yields, 8, 1, f); fwrite(&t.events, 8, 1, f); fwrite(&t.simtime, 8, 1, f);
  for (auto *m : {&t.faults, &t.probes}) { U64 n = m->size(); fwrite(&n, 8, 1, f); for (auto &x : *m) { put_str(f, x.first); fwrite(&x.second, 8, 1, f); } }
  put_set(f, t.hashes); put_set(f, t.inter); put_set(f, t.states);
  U64 n = t.samples.size(); fwrite(&n, 8, 1, f); for (auto &s : t.samples) { fwrite(&s.first, 8, 1, f); put_str(f, s.second); }
  fclose(f);
}
static void load(Tot &t, const std::string &fn) {
  FILE *f = fopen(fn.c_str(), "rb"); if (!f) return;
  U64 x; double d; auto rd = [&](U64 &y) { if (fread(&y, 8, 1, f) != 1) y = 0; };
  rd(x); t.runs += x; rd(x); t.nontrivial += x; rd(x); t.switches += x; rd(x); t.yields += x; rd(x); t.events += x;
  if (fread(&d, 8, 1, f) == 1) t.simtime += d;
  for (auto *m : {&t.faults, &t.probes}) { U64 n; rd(n); while (n--) { std::string k = get_str(f); rd(x); (*m)[k] += x; } }
  get_set(f, t.hashes); get_set(f, t.inter); get_set(f, t.states);
  U64 n; rd(n); while (n--) { rd(x); t.samples.push_back({x, get_str(f)}); }
  fclose(f);
}
static std::string jesc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; }
  return o;
}

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s ID run|replay|hash|gen ...\n", argv[0]); return 2; }
  signal(SIGPIPE, SIG_IGN);
  std::string id = argv[1], mode = argv[2];
  const Prop *p = find_prop(id);
  if (!p) { fprintf(stderr, "no property %s in this binary\n", id.c_str()); return 2; }
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 3; i < argc; i++) {
    if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { o[argv[i] + 2] = argv[i + 1]; i++; }
    else pos.push_back(argv[i]);
  }
  auto num = [&](const char *k, U64 d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
  U64 seed = num("seed", 1);
  snapshot_statics();
  if (mode == "gen") { printf("%s", generate(p, seed, num("idx", 0)).text().c_str()); return 0; }
  if (mode == "info") { printf("%llu %llu\n", (unsigned long long)p->quick_runs, (unsigned long long)p->thorough_runs); return 0; }
  if (mode == "replay") {
    // replay FILE: executes the scenario; exit 1 and the violation if it occurs
    std::ifstream in(pos.at(0)); std::stringstream b; b << in.rdbuf();
    Scenario s; if (!in || !s.parse(b.str())) { fprintf(stderr, "cannot read %s\n", pos[0].c_str()); return 2; }
    if (num("quiet", 0)) {
      Outcome r = run_child(p, s);
      printf("OUTCOME %d %s %llu %s\n", (int)r.viol, r.viol ? r.kind.c_str() : "-", (unsigned long long)r.hash, r.msg.c_str());
      return r.viol ? 1 : 0;
    }
    printf("replaying %s (property %s, %zu ops, %zu context switches, %zu kills)\n", pos[0].c_str(), p->id, s.ops.size(), s.sw.size(), s.kills.size());
    fflush(stdout);
    static Shared *sh = new_shared();
    pid_t pid = fork();
    if (pid == 0) {
      g_sh = sh; alarm(120);
      Ctx c; c.verbose = true; execute(p, s, c);
      if (c.v.set) printf("violation kind=%s: %s\n", c.v.kind.c_str(), c.v.msg.c_str());
      printf("event-log hash %016llx\n", (unsigned long long)c.hash);
      fflush(stdout); sh->state = 1; _exit(c.v.set ? 1 : 0);
    }
    int st; waitpid(pid, &st, 0);
    bool viol = sh->state != 1 || (WIFEXITED(st) && WEXITSTATUS(st) == 1);
    if (sh->state != 1) { Outcome r; crash_outcome(sh, st, r); printf("violation kind=%s: %s\n", r.kind.c_str(), r.msg.c_str()); }
    if (viol) printf("VIOLATION property=%s replay=%s\n", p->id, pos[0].c_str());
    return viol ? 1 : 0;
  }
  if (mode == "hash") {
    U64 a = num("from", 0), b = num("to", 100);
    for (U64 i = a; i < b; i++) {
      Outcome r = run_child(p, generate(p, seed, i));
      printf("%llu %d %s %016llx\n", (unsigned long long)i, (int)r.viol, r.kind.c_str(), (unsigned long long)r.hash);
    }
    return 0;
  }
  if (mode != "run") return 2;

  U64 runs = num("runs", p->quick_runs), jobs = num("jobs", 8), first = num("first", 0);
  std::string dir = o.count("tmp") ? o["tmp"] : ".", rdir = o.count("replaydir") ? o["replaydir"] : ".";
  U64 wall = num("wall", 600);
  std::vector<std::string> known;   // "kind|substring" of recorded findings
  if (o.count("known")) { std::ifstream in(o["known"]); std::string l; while (std::getline(in, l)) if (l.size() > 1) known.push_back(l); }
  g_min = (std::atomic<i64> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto now = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec); };
  std::vector<U64> cands; std::vector<std::string> known_hits;
  U64 from = first, nondet = 0; Tot tot; std::vector<unsigned char> cov(1 << 16, 0);
  int status = 0; std::string vkind, vmsg, vreplay; U64 vidx = 0, min_tried = 0, vops0 = 0, vsw0 = 0, vops1 = 0, vsw1 = 0;
  bool truncated = false;
  auto is_known = [&](const std::string &kind, const std::string &msg) {
    for (auto &k : known) { size_t b = k.find('|'); if (b != std::string::npos && kind == k.substr(0, b) && msg.find(k.substr(b + 1)) != std::string::npos) return true; }
    return false;
  };
  // A batch: workers take indices round-robin; the smallest violating index wins,
  // so the result does not depend on the number of workers.
  for (int attempt = 0; attempt < 6; attempt++) {
    g_min->store(INT64_MAX);
    struct W { pid_t pid; Shared *sh; U64 next; int gen; bool over; std::string file; };
    std::vector<W> ws(jobs);
    auto start = [&](U64 w, U64 from_idx) {
      W &x = ws[w];
      if (!x.sh) x.sh = new_shared();
      x.sh->state = 0; x.sh->progress = -1; x.sh->about[0] = 0; x.sh->msg[0] = 0; x.sh->worker_done = 0;
      x.file = dir + "/w" + std::to_string(w) + "." + std::to_string(attempt) + "." + std::to_string(x.gen++) + ".bin";
      fflush(stdout);
      x.pid = fork();
      if (x.pid) return;
      g_sh = x.sh;
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      Tot t;
      for (U64 i = from_idx; i < first + runs; i += jobs) {
        if ((i64)i > g_min->load()) break;
        if (now() > (double)wall) { x.sh->worker_done = 2; break; }
        x.sh->progress = (i64)i;
        alarm(60);
        Scenario s = generate(p, seed, i);
        Ctx c; execute(p, s, c);
        t.runs++; t.switches += c.switches; t.yields += c.yields; t.events += c.events; t.simtime += c.simtime;
        for (auto &f : c.faults) t.faults[f.first] += f.second;
        for (auto &f : c.probes) t.probes[f.first] += f.second;
        if (c.nontrivial) {
          t.nontrivial++; t.hashes.insert(mix(c.hash, c.simhash));
          if (t.samples.size() < 2 && t.samples.size() <= t.nontrivial / 50) { std::string tx = s.text(); if (tx.size() > 1500) tx = tx.substr(0, 1500) + "..."; t.samples.push_back({i, tx}); }
        }
        if (c.simhash) t.inter.insert(c.simhash);
        for (U64 h : c.states) if (t.states.size() < 2000000) t.states.insert(h);
        if (c.v.set && !is_known(c.v.kind, c.v.msg)) {
          i64 m = g_min->load();
          while ((i64)i < m && !g_min->compare_exchange_weak(m, (i64)i)) {}
          break;
        }
      }
      alarm(0);
      x.sh->progress = -1;
      save(t, x.file);
      if (!x.sh->worker_done) x.sh->worker_done = 1;
      _exit(0);
    };
    for (U64 w = 0; w < jobs; w++) {
      ws[w] = W{0, nullptr, 0, 0, false, ""};
      U64 f = first + ((w + jobs - first % jobs) % jobs);
      while (f < from) f += jobs;
      start(w, f);
    }
    U64 live = jobs;
    while (live) {
      int st; pid_t pid = waitpid(-1, &st, 0);
      if (pid < 0) break;
      for (U64 w = 0; w < jobs; w++) if (ws[w].pid == pid && !ws[w].over) {
        W &x = ws[w];
        for (int i = 0; i < (1 << 16); i++) cov[(size_t)i] |= x.sh->cov[i];
        if (x.sh->worker_done) { if (x.sh->worker_done == 2) truncated = true; load(tot, x.file); x.over = true; live--; unlink(x.file.c_str()); break; }
        i64 i = x.sh->progress;
        Outcome oc; crash_outcome(x.sh, st, oc);
        if (i < 0) { fprintf(stderr, "worker died outside a run: %s\n", oc.msg.c_str()); return 2; }
        if (is_known(oc.kind, oc.msg)) { start(w, (U64)i + jobs); break; }
        i64 m = g_min->load();
        while (i < m && !g_min->compare_exchange_weak(m, i)) {}
        x.over = true; live--; break;
      }
    }
    for (auto &x : ws) if (x.sh) munmap(x.sh, sizeof(Shared));
    i64 v = g_min->load();
    if (v == INT64_MAX) break;
    // ---- gate: same run twice, explicit schedule, fresh process
    Scenario s = generate(p, seed, (U64)v);
    Outcome a = run_child(p, s), b = run_child(p, s);
    bool ok = a.viol && b.viol && a.kind == b.kind && a.hash == b.hash;
    Scenario e = s; e.schedseed = 0; e.sw = a.sw; e.kills = a.kills;
    if (ok) { Outcome c = run_child(p, e); if (!(c.viol && c.kind == a.kind)) { e = s; } }
    if (ok) {
      vops0 = e.ops.size(); vsw0 = e.sw.size();
      Scenario mn = minimise(p, e, a.kind, min_tried);
      Outcome c1 = run_child(p, mn), c2 = run_child(p, mn);
      if (!(c1.viol && c2.viol && c1.hash == c2.hash)) { mn = e; c1 = run_child(p, mn); }
      vops1 = mn.ops.size(); vsw1 = mn.sw.size();
      char name[64]; snprintf(name, sizeof name, "/%s-%llu-%llu.scn", p->id, (unsigned long long)seed, (unsigned long long)v);
      vreplay = rdir + name;
      { std::ofstream f(vreplay); f << "# property " << p->id << " violated: " << c1.kind << ": " << c1.msg << "\n" << mn.text(); }
      // fresh process
      std::string cmd = std::string("'") + argv[0] + "' " + p->id + " replay '" + vreplay + "' --quiet 1";
      auto fresh = [&] { FILE *f = popen(cmd.c_str(), "r"); char buf[4096]; std::string out; size_t n; while (f && (n = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n); if (f) pclose(f); return out; };
      std::string r1 = fresh(), r2 = fresh();
      ok = r1 == r2 && r1.rfind("OUTCOME 1 ", 0) == 0;
      if (ok) { status = 1; vkind = c1.kind; vmsg = c1.msg; vidx = (U64)v; break; }
    }
    nondet++; from = (U64)v + 1;
    fprintf(stderr, "run %lld: violation did not reproduce (%s / %s: %s), searching on\n", (long long)v, a.viol ? a.kind.c_str() : "-", b.viol ? b.kind.c_str() : "-", a.msg.c_str());
    if (from >= first + runs) break;
  }
  if (!status && nondet) status = 2;
  // ---- determinism sample: regenerate and re-execute some runs in fresh children
  U64 dchk = 0, dbad = 0;
  if (!status) {
    U64 n = std::min<U64>(runs, num("dsample", 24));
    for (U64 k = 0; k < n; k++) {
      U64 i = first + k * (runs / n);
      Scenario s = generate(p, seed, i);
      Outcome a = run_child(p, s);
      Scenario e = s; e.schedseed = 0; e.sw = a.sw; e.kills = a.kills;
      Outcome b = run_child(p, e);   // same run from its recorded schedule
      dchk++; if (a.hash != b.hash) { dbad++; fprintf(stderr, "run %llu: replay from the recorded schedule diverged\n", (unsigned long long)i); }
    }
    if (dbad) status = 2;
  }
  double el = now();
  U64 pcs = 0; for (auto c : cov) pcs += c;
  std::sort(tot.samples.begin(), tot.samples.end());
  if (tot.samples.size() > 3) tot.samples.resize(3);
  std::ofstream f(o["out"]);
  f << "{\"status\":" << status << ",\"runs\":" << tot.runs << ",\"nontrivial\":" << tot.nontrivial << ",\"distinct\":" << tot.hashes.size()
    << ",\"interleavings\":" << tot.inter.size() << ",\"states\":" << tot.states.size() << ",\"switches\":" << tot.switches << ",\"yields\":" << tot.yields
    << ",\"events\":" << tot.events << ",\"simtime\":" << tot.simtime << ",\"wall\":" << el << ",\"blocks\":" << pcs << ",\"truncated\":" << (truncated ? "true" : "false")
    << ",\"det_checked\":" << dchk << ",\"det_bad\":" << dbad << ",\"nonrepro\":" << nondet;
  for (auto pr : {std::make_pair("faults", &tot.faults), std::make_pair("probes", &tot.probes)}) {
    f << ",\"" << pr.first << "\":{"; bool c = false;
    for (auto &x : *pr.second) { f << (c ? "," : "") << "\"" << jesc(x.first) << "\":" << x.second; c = true; }
    f << "}";
  }
  f << ",\"samples\":["; { bool c = false; for (auto &x : tot.samples) { f << (c ? "," : "") << "\"run " << x.first << "\\n" << jesc(x.second) << "\""; c = true; } }
  f << "],\"rule\":\"" << jesc(p->rule) << "\",\"real\":\"" << jesc(p->real_components) << "\",\"stub\":\"" << jesc(p->stub_components) << "\",\"measure\":\"" << jesc(p->interleaving_measure) << "\"";
  if (status == 1) f << ",\"violation\":{\"run\":" << vidx << ",\"kind\":\"" << jesc(vkind) << "\",\"msg\":\"" << jesc(vmsg) << "\",\"replay\":\"" << jesc(vreplay)
                     << "\",\"ops_before\":" << vops0 << ",\"ops_after\":" << vops1 << ",\"switches_before\":" << vsw0 << ",\"switches_after\":" << vsw1 << ",\"executions\":" << min_tried << "}";
  f << "}\n"; f.close();
  if (status == 1) {
    printf("property %s violated in run %llu: %s: %s\n", p->id, (unsigned long long)vidx, vkind.c_str(), vmsg.c_str());
    printf("minimised from %llu ops/%llu switches to %llu ops/%llu switches in %llu executions\n", (unsigned long long)vops0, (unsigned long long)vsw0, (unsigned long long)vops1, (unsigned long long)vsw1, (unsigned long long)min_tried);
  }
  return status;
}
