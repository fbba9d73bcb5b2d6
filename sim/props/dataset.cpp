// C48: a network of stations relays satellites' ephemerides and almanacs; every station keeps the last set of each satellite and asks the library whether an arriving set is one it already has.
// Messages are lost, repeated, overtaken by older ones, altered in single fields, rebuilt in storage with other contents, and stations restart.
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <memory>
#include "shims.h"
#include "sim.h"
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/signal.h>
enum Kind { F64, F32, U8, U16, U32, S16 };
struct Field { const char *name; size_t off; Kind kind; double mag; int ignored; };   // mag: the size values are drawn from; ignored: the receivers do not agree on it
#define E(f) offsetof(ephemeris_t, f)
#define A(f) offsetof(almanac_t, f)
static const Field EPH_HEAD[] = {{"toe week", E(toe.wn), S16, 2900, 0}, {"toe", E(toe.tow), F64, 604800, 0}, {"ura", E(ura), F32, 10, 1}, {"fit interval", E(fit_interval), U32, 20000, 1}, {"valid", E(valid), U8, 1, 0}, {"health", E(health_bits), U8, 255, 0}, {"source", E(source), U8, 3, 1}};
static const Field KEP[] = {{"crc", E(data.kepler.crc), F64, 400, 0}, {"crs", E(data.kepler.crs), F64, 200, 0}, {"cuc", E(data.kepler.cuc), F64, 1e-5, 0}, {"cus", E(data.kepler.cus), F64, 1e-5, 0}, {"cic", E(data.kepler.cic), F64, 1e-7, 0}, {"cis", E(data.kepler.cis), F64, 1e-7, 0}, {"dn", E(data.kepler.dn), F64, 5e-9, 0},
  {"m0", E(data.kepler.m0), F64, 3, 0}, {"ecc", E(data.kepler.ecc), F64, 0.02, 0}, {"sqrta", E(data.kepler.sqrta), F64, 5500, 0}, {"omega0", E(data.kepler.omega0), F64, 3, 0}, {"omegadot", E(data.kepler.omegadot), F64, 8e-9, 0}, {"w", E(data.kepler.w), F64, 3, 0}, {"inc", E(data.kepler.inc), F64, 1, 0}, {"inc_dot", E(data.kepler.inc_dot), F64, 5e-10, 0},
  {"af0", E(data.kepler.af0), F64, 1e-3, 0}, {"af1", E(data.kepler.af1), F64, 1e-11, 0}, {"af2", E(data.kepler.af2), F64, 1e-11, 0}, {"toc week", E(data.kepler.toc.wn), S16, 2900, 0}, {"toc", E(data.kepler.toc.tow), F64, 604800, 0}, {"iodc", E(data.kepler.iodc), U16, 1023, 0}, {"iode", E(data.kepler.iode), U16, 255, 0},
  {"group delay 1", E(data.kepler.tgd) + 0, F32, 2e-8, 0}, {"group delay 2", E(data.kepler.tgd) + sizeof(float), F32, 2e-8, 0}};
#define V3(n, f, m) {n " x", E(f) + 0, F64, m, 0}, {n " y", E(f) + sizeof(double), F64, m, 0}, {n " z", E(f) + 2 * sizeof(double), F64, m, 0}
static const Field XYZ[] = {V3("position", data.xyz.pos, 4.2e7), V3("velocity", data.xyz.vel, 40), V3("acceleration", data.xyz.acc, 1e-3), {"a_gf0", E(data.xyz.a_gf0), F64, 1e-6, 0}, {"a_gf1", E(data.xyz.a_gf1), F64, 1e-10, 0}};
static const Field GLO[] = {V3("position", data.glo.pos, 2.5e7), V3("velocity", data.glo.vel, 3500), V3("acceleration", data.glo.acc, 1e-6), {"gamma", E(data.glo.gamma), F64, 1e-11, 0}, {"tau", E(data.glo.tau), F64, 1e-4, 0}, {"d_tau", E(data.glo.d_tau), F64, 1e-8, 0}, {"frequency slot", E(data.glo.fcn), U16, 14, 0}, {"iod", E(data.glo.iod), U8, 96, 0}};
static const Field ALM_HEAD[] = {{"toa week", A(toa.wn), S16, 2900, 0}, {"toa", A(toa.tow), F64, 604800, 0}, {"ura", A(ura), F32, 900, 0}, {"fit interval", A(fit_interval), U32, 500000, 0}, {"valid", A(valid), U8, 1, 0}, {"health", A(health_bits), U8, 255, 0}};
static const Field AKEP[] = {{"m0", A(data.kepler.m0), F64, 3, 0}, {"ecc", A(data.kepler.ecc), F64, 0.02, 0}, {"sqrta", A(data.kepler.sqrta), F64, 5500, 0}, {"omega0", A(data.kepler.omega0), F64, 3, 0}, {"omegadot", A(data.kepler.omegadot), F64, 8e-9, 0}, {"w", A(data.kepler.w), F64, 3, 0}, {"inc", A(data.kepler.inc), F64, 1, 0}, {"af0", A(data.kepler.af0), F64, 1e-3, 0}, {"af1", A(data.kepler.af1), F64, 1e-11, 0}};
#define W3(n, f, m) {n " x", A(f) + 0, F64, m, 0}, {n " y", A(f) + sizeof(double), F64, m, 0}, {n " z", A(f) + 2 * sizeof(double), F64, m, 0}
static const Field AXYZ[] = {W3("position", data.xyz.pos, 4.2e7), W3("velocity", data.xyz.vel, 40), W3("acceleration", data.xyz.acc, 1e-3)};
static const Field AGLO[] = {{"lambda", A(data.glo.lambda), F64, 3, 0}, {"t_lambda", A(data.glo.t_lambda), F64, 44000, 0}, {"i", A(data.glo.i), F64, 0.06, 0}, {"t", A(data.glo.t), F64, 3600, 0}, {"t_dot", A(data.glo.t_dot), F64, 3e-3, 0}, {"epsilon", A(data.glo.epsilon), F64, 0.03, 0}, {"omega", A(data.glo.omega), F64, 3, 0}};
#define N(x) (int)(sizeof(x) / sizeof *(x))
struct Layout { const char *name; bool alm; int code, first, count; const Field *body; int n; bool exact; };
static const Layout LAYS[] = {{"GPS ephemeris", 0, CODE_GPS_L1CA, 1, 32, KEP, N(KEP), 0}, {"QZSS ephemeris", 0, CODE_QZS_L1CA, 193, 10, KEP, N(KEP), 0}, {"Galileo ephemeris", 0, CODE_GAL_E1B, 1, 36, KEP, N(KEP), 0}, {"BeiDou ephemeris", 0, CODE_BDS2_B1, 1, 63, KEP, N(KEP), 0}, {"SBAS ephemeris", 0, CODE_SBAS_L1CA, 120, 19, XYZ, N(XYZ), 0}, {"GLONASS ephemeris", 0, CODE_GLO_L1OF, 1, 28, GLO, N(GLO), 0},
  {"GPS almanac", 1, CODE_GPS_L1CA, 1, 32, AKEP, N(AKEP), 0}, {"SBAS almanac", 1, CODE_SBAS_L1CA, 120, 19, AXYZ, N(AXYZ), 1}, {"GLONASS almanac", 1, CODE_GLO_L1OF, 1, 28, AGLO, N(AGLO), 0}};
static const int NL = N(LAYS);
typedef std::vector<double> Vals;   // one per field, header first
static int nhead(const Layout &l) { return l.alm ? N(ALM_HEAD) : N(EPH_HEAD); }
static const Field &field(const Layout &l, int i) { int h = nhead(l); return i < h ? (l.alm ? ALM_HEAD : EPH_HEAD)[i] : l.body[i - h]; }
static int nfields(const Layout &l) { return nhead(l) + l.n; }
static double hold(Kind k, double v) { return k == F64 ? v : k == F32 ? (double)(float)v : k == S16 ? (double)(i64)v : (double)(i64)std::fabs(v); }
static double draw(Rng &r, const Field &f) {
  double v = f.kind == F64 || f.kind == F32 ? r.uniform(-1, 1) * f.mag : (double)r.below((U64)f.mag + 1);
  if (f.kind <= F32 && r.chance(1, 12)) v = 0;
  if (!strcmp(f.name, "toe") || !strcmp(f.name, "toc") || !strcmp(f.name, "toa")) v = (double)(i64)std::fabs(v);
  if (!strcmp(f.name, "ura") || !strcmp(f.name, "fit interval")) v = std::fabs(v);
  return hold(f.kind, v);
}
struct Set { int lay; gnss_signal_t sid; Vals v; };
// a set as a message delivers it: the same values over other leftover contents
union Any { ephemeris_t e; almanac_t a; unsigned char raw[sizeof(ephemeris_t) > sizeof(almanac_t) ? sizeof(ephemeris_t) : sizeof(almanac_t)]; };
static void build(const Set &s, U64 dirt, Any &x) {
  Rng z(dirt); for (auto &b : x.raw) b = (unsigned char)z.next();
  const Layout &l = LAYS[s.lay];
  if (l.alm) { x.a.sid.code = s.sid.code; x.a.sid.sat = s.sid.sat; } else { x.e.sid.code = s.sid.code; x.e.sid.sat = s.sid.sat; }
  for (int i = 0; i < nfields(l); i++) {
    const Field &f = field(l, i); double v = s.v[(size_t)i]; unsigned char *p = x.raw + f.off;
    switch (f.kind) { case F64: memcpy(p, &v, 8); break; case F32: { float q = (float)v; memcpy(p, &q, 4); break; } case U8: *p = (unsigned char)v; break; case U16: { u16 q = (u16)v; memcpy(p, &q, 2); break; } case S16: { s16 q = (s16)v; memcpy(p, &q, 2); break; } case U32: { u32 q = (u32)v; memcpy(p, &q, 4); break; } }
  }
}
// changes value i; size selects how much
static bool alter(Set &s, int i, i64 size, i64 pick) {
  const Layout &l = LAYS[s.lay]; const Field &f = field(l, i); double &v = s.v[(size_t)i], old = v;
  if (f.kind == F64 || f.kind == F32) {
    double least = f.kind == F32 ? (f.mag < 1e-6 ? 1e-10 : 1e-3) : 3e-12, ulp = std::fabs(v) * (f.kind == F32 ? 2.4e-7 : 4.5e-16); if (least < 4 * ulp) least = 4 * ulp;
    double d; switch ((U64)size % 6) { case 0: d = least; break; case 1: d = least * (double)(1 + (U64)pick % 1000); break; case 2: d = std::fabs(v) * 2; break; case 3: d = f.mag; break; case 4: d = f.mag * 1e-3; break; default: d = 1; }
    if (d < least) d = least;
    v = hold(f.kind, (U64)size % 6 == 2 && std::fabs(v) > least ? -v : pick & 1 ? v + d : v - d);
    return std::fabs(v - old) > 2e-12;
  }
  i64 top = f.kind == U8 ? (!strcmp(f.name, "valid") ? 2 : 256) : f.kind == U16 ? 65536 : f.kind == S16 ? 32768 : 4294967296LL;
  i64 step = (U64)size % 3 == 0 ? 1 : (U64)size % 3 == 1 ? (i64)1 << ((U64)pick % 16) : 1 + (i64)((U64)pick % 255);
  v = (double)(((i64)old + step) % top); return v != old;
}
static void gen_c48(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 4), m = (int)r.range(8, 40);
  for (int i = 0; i < n; i++) s.op("set", {(i64)r.below((U64)NL), (i64)r.below(64), (i64)(r.next() >> 1)});
  for (int i = 0; i < m; i++) {
   switch (r.below(14)) {
    case 0: s.op("set", {(i64)r.below((U64)NL), (i64)r.below(64), (i64)(r.next() >> 1)}); break;
    case 1: s.op("restart", {(i64)r.below(3)}); break;
    case 2: s.op("replace", {(i64)r.below(6), (i64)(r.next() >> 1)}); break;
    case 3: s.op("round", {(i64)r.below(6), (i64)(r.next() >> 1)}); break;
    case 4: s.op("old", {(i64)r.below(6), (i64)r.below(8)}); break;
    case 5: case 6: case 7: s.op("alter", {(i64)r.below(6), (i64)r.below(64), (i64)r.below(6), (i64)(r.next() >> 1)}); break;
    case 8: s.op("two", {(i64)r.below(6), (i64)r.below(64), (i64)r.below(64), (i64)r.below(6), (i64)(r.next() >> 1)}); break;
    case 9: s.op("disagree", {(i64)r.below(6), (i64)(r.next() >> 1)}); break;
    case 10: s.op("rename", {(i64)r.below(6), (i64)r.below(8)}); break;
    default: break;
   }
   s.op("send", {(i64)r.below(8), (i64)(r.next() >> 1)});
  }
}
// what a comparison of the transmitted values has to say: 1 the same, 0 different, -1 closer than the library resolves but further than rounding
static int expected(const Set &a, const Set &b) {
  if (a.lay != b.lay || a.sid.code != b.sid.code || a.sid.sat != b.sid.sat) return 0;
  const Layout &l = LAYS[a.lay]; int r = 1;
  for (int i = 0; i < nfields(l); i++) {
    const Field &f = field(l, i); double d = std::fabs(a.v[(size_t)i] - b.v[(size_t)i]); if (f.ignored || d == 0) continue;
    if (d > 2e-12) return 0;
    if (l.exact || d > 2e-13) r = -1;
  }
  return r;
}
static bool same_on(const Layout &l, Any &x, Any &y) { return l.alm ? almanac_equal(&x.a, &y.a) : ephemeris_equal(&x.e, &y.e); }
static void run_c48(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    struct Sat { Set cur; std::vector<Set> older; };
    struct Held { bool have; Any x; Set as; };
    std::vector<Sat> S; const int ST = 3; std::vector<std::vector<Held>> store(ST);
    std::vector<std::pair<int, int>> changed(ST);   // updates the station counted, and those it should have
    auto push_old = [&](Sat &q) { q.older.push_back(q.cur); if (q.older.size() > 8) q.older.erase(q.older.begin()); };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "set") {
        Set q; q.lay = (int)((U64)o.arg(0) % NL); const Layout &l = LAYS[q.lay]; q.sid.code = (code_t)l.code; q.sid.sat = (u16)(l.first + (int)((U64)o.arg(1) % (U64)l.count));
        bool dup = false; for (auto &p : S) if (p.cur.lay == q.lay && p.cur.sid.code == q.sid.code && p.cur.sid.sat == q.sid.sat) dup = true;
        if (dup || S.size() >= 6) continue;
        Rng z((U64)o.arg(2)); for (int i = 0; i < nfields(l); i++) q.v.push_back(draw(z, field(l, i)));
        S.push_back({q, {}}); for (auto &t : store) t.push_back(Held());
        for (auto &t : store) t.back().have = false;
        continue;
      }
      if (o.name == "restart") { for (auto &h : store[(U64)o.arg(0) % ST]) h.have = false; c.fault("station_restart"); continue; }
      if (S.empty()) continue;
      if (o.name == "send") {   // the current set of every satellite goes to every station; some links lose or repeat it
        for (size_t k = 0; k < S.size(); k++) {
          Sat &q = S[k]; const Layout &l = LAYS[q.cur.lay];
          for (int t = 0; t < ST; t++) {
            U64 h = mix((U64)o.arg(1), (U64)t * 64 + k); int copies = h % 6 == 0 ? 0 : h % 6 == 1 ? 2 : 1; if (!copies) { c.fault("message_lost"); continue; } if (copies == 2) c.fault("message_repeated");
            for (int n = 0; n < copies; n++) {
              std::unique_ptr<Any> in(new Any); build(q.cur, mix(h, (U64)n + 7), *in); Held &hd = store[(size_t)t][k]; Any keep = *in;
              about_to("comparing a %s of satellite %d", l.name, q.cur.sid.sat);
              if (!same_on(l, *in, *in)) { c.fail("differs-from-itself", "a %s of satellite %d differs from itself", l.name, q.cur.sid.sat); return; }
              if (hd.have) {
                std::unique_ptr<Any> old(new Any(hd.x)); int want = expected(hd.as, q.cur); bool a = same_on(l, *old, *in), b = same_on(l, *in, *old);
                c.ev("station %d satellite %zu: %d, %d %d", t, k, want, a, b);
                if (want < 0) { c.probe("closer_than_resolved"); if (a != b) { c.fail("asymmetric", "%s of satellite %d: the answer depends on which set is named first", l.name, q.cur.sid.sat); return; } }
                else if (a != (want == 1) || b != (want == 1)) {
                  std::string d; const Layout &L = LAYS[q.cur.lay]; Any x = *in, y = hd.x; for (int i = 0; i < nfields(L); i++) { const Field &f = field(L, i); size_t w = f.kind == F64 ? 8 : f.kind == F32 || f.kind == U32 ? 4 : f.kind == U8 ? 1 : 2; if (memcmp(x.raw + f.off, y.raw + f.off, w)) d += std::string(d.empty() ? "" : ", ") + f.name; }
                  c.fail(want ? "repeat-not-recognised" : "update-missed", "%s of satellite %d: %s is taken as %s (asked the one way: %d, the other way: %d; differing: %s)", l.name, q.cur.sid.sat, want ? "a repeated set" : "an updated set", want ? "an update" : "a repeat", a, b, d.c_str()); return;
                }
                if (memcmp(old->raw, hd.x.raw, sizeof hd.x.raw) || memcmp(in->raw, keep.raw, sizeof keep.raw)) { c.fail("input-changed", "comparing data sets changed one"); return; }
                if (want >= 0) { changed[(size_t)t].first += !a; changed[(size_t)t].second += !want; c.probe(want ? "repeat" : "update"); } c.nontrivial = true; c.state(mix((U64)q.cur.lay, mix((U64)(want + 1), (U64)S.size())));
              }
              if (!hd.have || !same_on(l, hd.x, *in)) hd.x = *in, hd.have = true, hd.as = q.cur;
            }
            // no other satellite's set is taken for this one
            for (size_t j = 0; j < S.size(); j++) { Held &oh = store[(size_t)t][j], &hd = store[(size_t)t][k]; if (j == k || !oh.have || !hd.have || LAYS[S[j].cur.lay].alm != l.alm) continue; Any x = oh.x, y = hd.x; if (same_on(l, x, y)) { c.fail("satellites-confused", "the sets of satellites %d and %d are taken as the same", S[j].cur.sid.sat, q.cur.sid.sat); return; } }
          }
        }
        c.time(30);
        continue;
      }
      Sat &q = S[(U64)o.arg(0) % S.size()]; const Layout &l = LAYS[q.cur.lay]; int nf = nfields(l);
      if (o.name == "replace") { push_old(q); Rng z((U64)o.arg(1)); for (int i = 0; i < nf; i++) if (z.chance(3, 4)) q.cur.v[(size_t)i] = draw(z, field(l, i)); c.fault("set_replaced"); }
      else if (o.name == "alter") { int i = (int)((U64)o.arg(1) % (U64)nf); if (field(l, i).ignored) continue; Set was = q.cur; push_old(q); if (!alter(q.cur, i, o.arg(2), o.arg(3))) { q.cur = was; q.older.pop_back(); continue; } c.fault("field_altered"); }
      else if (o.name == "two") {   // two fields move in opposite directions
        int i = (int)((U64)o.arg(1) % (U64)nf), j = (int)((U64)o.arg(2) % (U64)nf); if (i == j || field(l, i).ignored || field(l, j).ignored) continue;
        Set was = q.cur; push_old(q); bool a = alter(q.cur, i, o.arg(3), o.arg(4)), b = alter(q.cur, j, o.arg(3), o.arg(4) ^ 1); if (!a && !b) { q.cur = was; q.older.pop_back(); continue; } c.fault("fields_altered"); }
      else if (o.name == "round") {   // the set went through other units on its way: small values come back rounded
        if (l.exact) continue; Rng z((U64)o.arg(1)); for (int i = 0; i < nf; i++) { const Field &f = field(l, i); if (f.kind == F64 && std::fabs(q.cur.v[(size_t)i]) < 0.1 && z.chance(1, 2)) { double &v = q.cur.v[(size_t)i]; if (f.ignored == 0) v += z.uniform(-2e-14, 2e-14); } } c.fault("rounding"); }
      else if (o.name == "disagree") { if (l.alm) continue; Rng z((U64)o.arg(1)); for (int i = 0; i < nf; i++) if (field(l, i).ignored && z.chance(1, 2)) q.cur.v[(size_t)i] = draw(z, field(l, i)); c.fault("receivers_disagree"); }
      else if (o.name == "old") { if (q.older.empty()) continue; size_t k = (U64)o.arg(1) % q.older.size(); Set x = q.older[k]; push_old(q); q.cur = x; c.fault("overtaken_by_older"); }
      else if (o.name == "rename") {   // the same numbers under another signal of the constellation
        push_old(q); if (o.arg(1) % 2 || l.alm || l.body != KEP || l.code != CODE_GPS_L1CA) { int sat = l.first + (q.cur.sid.sat - l.first + 1 + (int)((U64)o.arg(1) / 2)) % l.count; q.cur.sid.sat = (u16)sat; } else q.cur.sid.code = q.cur.sid.code == CODE_GPS_L1CA ? CODE_GPS_L2CM : CODE_GPS_L1CA;
        for (auto &p : S) if (&p != &q && p.cur.lay == q.cur.lay && p.cur.sid.code == q.cur.sid.code && p.cur.sid.sat == q.cur.sid.sat) { q.cur = q.older.back(); break; }
        if (q.cur.sid.sat == q.older.back().sid.sat && q.cur.sid.code == q.older.back().sid.code) { q.older.pop_back(); continue; }
        c.fault("set_under_other_signal"); }
    }
    for (int t = 0; t < ST; t++) if (changed[(size_t)t].first != changed[(size_t)t].second) { c.fail("updates", "station %d counted %d updates of %d", t, changed[(size_t)t].first, changed[(size_t)t].second); return; }
  });
}
Prop g_props[] = {
  {"C48", gen_c48, run_c48, 60000, 8000000, "repeat or update, asked both ways, against the values the simulated transmitter sent; the stations' update counts", "ephemeris.c ephemeris_equal, almanac.c almanac_equal, float_equality.h, signal.h sid_is_equal: all library code", "none (satellites, relays and stations are simulated)", "kind of set x repeat or update x satellites"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
