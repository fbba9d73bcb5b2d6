// C47: the whole chain.  Satellites of five systems fly long-double orbits and broadcast them in their own message formats; a receiver hears the messages over a lossy channel across
// issue changes, week rollovers, outages and restarts, decodes them, asks the library which data sets are usable, computes satellite states, and fixes its position, speed and time.
// Nothing between the transmitted bits and the solution is supplied by the simulator.
#include <cmath>
#include <cstdlib>
#include "bcast.h"
#include "leaps.h"
#include "orbit_ref.h"
#include "shims.h"
#include "sim.h"
#include <swiftnav/single_epoch_solver.h>
static const i64 SECW = 604800;
static const LD WEL = 7.2921151467e-5L;
static L3 spinz(L3 a, LD th) { LD c = cosl(th), s = sinl(th); return {a.x * c + a.y * s, -a.x * s + a.y * c, a.z}; }
enum { KGPS, KGAL, KBDS, KGLO, KQZS, NK };
static const int KSYS[NK] = {GPS, GAL, BDS, GLO, QZS}, KCODE[NK] = {CODE_GPS_L1CA, CODE_GAL_E1B, CODE_BDS2_B1, CODE_GLO_L1OF, CODE_QZS_L1CA}, KPIECES[NK] = {3, 5, 3, 5, 3};
static const int KN[NK] = {32, 36, 18, 24, 10}, KFIRST[NK] = {1, 1, 19, 1, 193};
static const i64 KSTEP[NK] = {7200, 600, 3600, 1800, 7200};   // how long an issue is broadcast
// a satellite: where it really is follows from the data set `ref` of reference time toe0, whatever it broadcasts
struct Bird {
  int k = 0, sat = 0; Sat ref; i64 toe0 = 0; U64 idx = 0; i64 issue = -1; bool ill = false; int fit = 0, ura = 0;   // idx counts the issues sent
  std::vector<std::pair<const char *, double>> own;
  LD extra() const { return ill ? 1e-4L : 0; }   // an ailing satellite's clock is 100 us off what it broadcasts
  void clock_of(LD t, L3 &p, LD &clk) const {   // at system time t (seconds since the reference time): position, and the clock's offset
    auto sv = [&](LD T, LD corr) -> LD {   // offset when the clock reads T
      LD c; if (k == KGLO) { auto &g = ref.e.data.glo; return -(LD)g.tau + g.gamma * T; }
      auto &q = ref.e.data.kepler; LD gm = k == KGPS || k == KQZS ? 3.986005e14L : 3.986004418e14L, a = (LD)q.sqrta * q.sqrta, E = kepler_E(q.m0 + (sqrtl(gm / (a * a * a)) + q.dn) * (T - corr), q.ecc);
      c = q.af0 + (LD)q.af1 * T - group_delay(ref); return c - 2 * sqrtl(gm) * q.ecc * q.sqrta * sinl(E) / (CC * CC);
    };
    clk = 0; for (int i = 0; i < 4; i++) clk = sv(t + clk, clk);
    p = ref_pos(ref, t); clk += extra();
  }
  L3 where(LD t) const { return ref_pos(ref, t); }
};
struct Heard { U64 idx = 0; bool any = false, ill = false; i64 toe = 0; int fit = 0; };
struct Slot {   // what the receiver keeps for one satellite
  ephemeris_t e; u32 fw[3][8]; u8 pg[5][GAL_INAV_CONTENT_BYTE]; glo_string_t gs[5]; u32 bw[3][10];
  Heard h[5], full; bool whole = false;   // the simulator's account: which piece came from which issue, and whether the ephemeris came of one issue
};
static void quantise(double &v, double scale) { v = (double)llround(v / scale) * scale; }
struct Chain {
  Ctx &c; std::vector<Bird> B; std::vector<Slot> S; LeapRule rule; i64 now = 0;   // GPS seconds
  L3 rp{}, rv{}; LD lat = 0, lon = 0, clk = 0, drift = 0, isb[NK] = {}; bool placed = false;
  explicit Chain(Ctx &x) : c(x) {}
  double fscale(int k, const char *n) { return k == KGAL ? gal(n).scale : k == KBDS ? BDS_FLD(n).scale : GPS_FLD(n).scale; }
  void launch(Bird &b, U64 seed) {   // a fresh orbit
    Rng r(seed); Sat &s = b.ref; static const Code *cd[NK]; for (int i = 0; i < NK; i++) for (auto &q : CODES) if (q.code == KCODE[i]) cd[i] = &q;
    s = Sat(); s.c = cd[b.k]; memset((void *)&s.e, 0, sizeof s.e); s.e.sid.code = (code_t)KCODE[b.k]; s.e.sid.sat = (u16)b.sat;
    draw(s, r); b.idx += 1 + r.below(30); b.issue = -1; b.ura = (int)r.below(3); b.ill = false;
    if (b.k == KGLO) {
      auto &g = s.e.data.glo; for (int i = 0; i < 3; i++) { g.acc[i] = g.acc[i] / 6e-6 * 5e-6; quantise(g.acc[i], 1000.0 / 1073741824); }
      if (std::fabs(g.tau) > 1.8e-3) g.tau *= 0.9; quantise(g.gamma, std::ldexp(1.0, -40)); quantise(g.d_tau, std::ldexp(1.0, -30));
    } else {
      auto &q = s.e.data.kepler; if (b.k == KBDS) { q.sqrta = 5282.6 + r.uniform(-3, 3); q.ecc = r.uniform(0, 0.02); } q.af2 = 0; q.af0 *= 0.95; double *v[] = {&q.crs, &q.crc, &q.cus, &q.cuc, &q.cis, &q.cic, &q.dn, &q.ecc, &q.sqrta, &q.w, &q.omegadot, &q.inc_dot, &q.af1};
      const char *n[] = {"crs", "crc", "cus", "cuc", "cis", "cic", "dn", "ecc", "sqrta", "w", "omegadot", "idot", "af1"};
      for (int i = 0; i < 13; i++) quantise(*v[i], fscale(b.k, n[i]));
      double tg[2] = {q.tgd.gps_s[0], q.tgd.gps_s[1]}, sc = b.k == KGAL ? P2(32) : b.k == KBDS ? 1e-10 : P2(31); for (int i = 0; i < 2; i++) quantise(tg[i], sc);
      if (b.k == KGAL) { q.tgd.gal_s[0] = (float)tg[0]; q.tgd.gal_s[1] = (float)tg[1]; } else if (b.k == KBDS) { q.tgd.bds_s[0] = (float)tg[0]; q.tgd.bds_s[1] = (float)tg[1]; } else { q.tgd.gps_s[0] = (float)tg[0]; q.tgd.gps_s[1] = 0; }
      b.fit = (b.k == KGPS) && r.chance(1, 4); s.toc = 0;
    }
    if (b.k == KGLO) b.fit = (int)r.below(3);
    b.toe0 = toe_at(b); s.toe = (b.toe0) * U; s.toc = s.toe;
  }
  i64 moscow(i64 gps) { return gps - rule.offset_at((double)gps) + 10800; }   // UTC(SU), seconds since 6 January 1980 without leap seconds
  i64 toe_at(const Bird &b) {   // reference time (GPS seconds) of the issue broadcast now
    switch (b.k) {
      case KGPS: case KQZS: return now / 7200 * 7200 + 7200;
      case KGAL: return now / 600 * 600;
      case KBDS: return (now - 14) / 3600 * 3600 + 14;
      default: return rule.gps_of_utc(moscow(now) / 1800 * 1800 + 900 - 10800);
    }
  }
  void step_glo(Bird &b, i64 toe) {   // carry the state along to another reference time
    if (toe == b.toe0) return;
    LD y[6]; glo_state(b.ref, (LD)(toe - b.toe0), y); auto &g = b.ref.e.data.glo; for (int i = 0; i < 3; i++) { g.pos[i] = (double)y[i]; g.vel[i] = (double)y[3 + i]; }
    g.tau = (double)((LD)g.tau - (LD)g.gamma * (toe - b.toe0)); b.toe0 = toe; b.ref.toe = toe * U;
  }
  void refresh(Bird &b) {   // new issue due?
    i64 t = toe_at(b); if (t != b.issue) { if (b.issue >= 0) c.probe("issue_change"); b.issue = t; b.idx++; }
    if (b.k == KGLO && t != b.toe0) step_glo(b, t);
  }
  std::vector<std::pair<const char *, double>> elements(Bird &b) {   // the same orbit and clock, referred to the issue's reference time
    auto &q = b.ref.e.data.kepler; LD dt = b.issue - b.toe0, gm = b.k == KGPS || b.k == KQZS ? 3.986005e14L : 3.986004418e14L, we = b.k == KBDS ? 7.2921150e-5L : WEL, a = (LD)q.sqrta * q.sqrta;
    auto sow = [&](i64 t) { i64 s = b.k == KBDS ? t - 14 : t; return (LD)(s % SECW); };
    auto wrap = [](LD x) { return (double)remainderl(x, 2 * PI); };
    LD m0 = q.m0 + (sqrtl(gm / (a * a * a)) + q.dn) * dt, om = q.omega0 + (LD)q.omegadot * dt + we * (sow(b.issue) - sow(b.toe0) - dt), in = q.inc + (LD)q.inc_dot * dt;
    return {{"crs", q.crs}, {"dn", q.dn}, {"m0", wrap(m0)}, {"cuc", q.cuc}, {"ecc", q.ecc}, {"cus", q.cus}, {"sqrta", q.sqrta}, {"cic", q.cic}, {"omega0", wrap(om)}, {"cis", q.cis}, {"inc", (double)in}, {"crc", q.crc}, {"w", wrap(q.w)}, {"omegadot", q.omegadot}, {"idot", q.inc_dot},
            {"af0", (double)(q.af0 + (LD)q.af1 * dt)}, {"af1", q.af1}, {"af2", 0}};
  }
  // one piece of the message as sent at time t, put where the receiver keeps it
  void deliver(Bird &b, Slot &s, int piece, i64 t) {
    refresh(b); s.h[piece].any = true; s.h[piece].idx = b.idx; s.h[piece].ill = b.ill; s.h[piece].toe = b.issue; s.h[piece].fit = b.fit; auto &q = b.ref.e.data.kepler;
    if (b.k == KGLO) {
      auto &g = b.ref.e.data.glo; Str x; memset(&x, 0, sizeof x); int k = piece + 1; gput(x, 81, 4, (U64)k);
      i64 m = moscow(b.toe0), day = (m + 315964800) / 86400, y4 = 1996; int n4 = 1; while (civil_days(y4 + 4, 1, 1) <= day) { y4 += 4; n4++; }
      auto sm = [&](double v, double sc, int mag) { U64 a = (U64)llround(std::fabs(v) / sc); return a | (v < 0 && a ? 1ULL << mag : 0); };
      auto put = [&](const char *n, U64 v) { for (auto &f : GF) if (!strcmp(f.name, n)) { if (f.str == k) gput(x, f.lo, f.len, v); return; } };
      static const char *P[3] = {"x", "y", "z"}, *V[3] = {"vx", "vy", "vz"}, *A[3] = {"ax", "ay", "az"};
      for (int i = 0; i < 3; i++) { put(P[i], sm(g.pos[i], 1000.0 / 2048, 26)); put(V[i], sm(g.vel[i], 1000.0 / 1048576, 23)); put(A[i], sm(g.acc[i], 1000.0 / 1073741824, 4)); }
      i64 fr = moscow(t) % 86400; put("tk", (U64)(fr / 3600) << 7 | (U64)(fr / 60 % 60) << 1 | (U64)(fr / 30 % 2)); put("P1", (U64)(1 + b.fit)); put("tb", (U64)(m % 86400 / 900)); put("B", b.ill && b.sat % 2 ? 4 : 0); put("l", b.ill && b.sat % 2 == 0); put("P", 3); put("P3", 1);
      put("gamma", sm(g.gamma, std::ldexp(1.0, -40), 10)); put("tau", sm(g.tau, std::ldexp(1.0, -30), 21)); put("dtau", sm(g.d_tau, std::ldexp(1.0, -30), 4)); put("Ft", (U64)b.ura); put("NT", (U64)(day - civil_days(y4, 1, 1) + 1)); put("n", (U64)b.sat); put("M", 1); put("NA", (U64)(day - civil_days(y4, 1, 1) + 1)); put("N4", (U64)n4); put("taugps", 77);
      hamming_encode(x); s.gs[piece] = gstr(x); return;
    }
    auto el = elements(b);
    if (b.k == KGAL) {
      u8 *pg = s.pg[piece]; U64 fill = mix((U64)b.sat * 8 + (U64)piece, b.idx); for (int i = 0; i < 16; i++) { fill = mix(fill, (U64)i); pg[i] = (u8)fill; }
      auto put = [&](const char *n, i64 v) { const BField &f = gal(n); if (f.page == piece) bput(pg, f.pos, f.len, (U64)v); };
      for (auto &x : el) put(x.first, llround(x.second / gal(x.first).scale));
      for (int k = 0; k < 5; k++) { char n[8]; snprintf(n, sizeof n, "type%d", k); put(n, k + 1); if (k < 4) { snprintf(n, sizeof n, "iod%d", k); put(n, (i64)(b.idx % 1024)); } }
      put("toe", b.issue % SECW / 60); put("toc", b.issue % SECW / 60); put("svid", b.sat); put("sisa", b.ura * 40); put("bgda", llround(q.tgd.gal_s[0] / P2(32))); put("bgdb", llround(q.tgd.gal_s[1] / P2(32)));
      put("e5bhs", b.ill && b.sat % 3 == 0 ? 1 : 0); put("e1bhs", b.ill && b.sat % 3 ? 1 : 0); put("gstwn", (t / SECW - 1024) % 4096); put("gsttow", t % SECW); return;
    }
    const WField *T = b.k == KBDS ? BDSF : GPSF; size_t nt = b.k == KBDS ? sizeof BDSF / sizeof *BDSF : sizeof GPSF / sizeof *GPSF;
    uint32_t w[3][11]; U64 fill = mix((U64)b.sat, b.idx * 4 + (U64)piece); for (auto &x : w) for (auto &y : x) { fill = mix(fill, 1); y = (uint32_t)(fill & 0x3fffffff); }
    auto put = [&](const char *n, i64 v) { put_field(*fld(T, nt, n), (U64)v, [&](int a, int d) -> uint32_t & { return w[a][d]; }); };
    for (auto &x : el) put(x.first, llround(x.second / fld(T, nt, x.first)->scale));
    if (b.k == KBDS) {
      i64 toe = (b.issue - 14) % SECW / 8; put("toe", toe); put("toc", toe); put("wn", (t - 14) / SECW - 1356); put("health", b.ill); put("urai", b.ura); put("tgd1", llround(q.tgd.bds_s[0] / 1e-10)); put("tgd2", llround(q.tgd.bds_s[1] / 1e-10));
      for (int i = 0; i < 10; i++) s.bw[piece][i] = w[piece][i + 1];
    } else {
      U64 iod = b.idx % 240; put("iodc", (i64)iod); put("iode2", (i64)iod); put("iode3", (i64)iod); put("wn", t / SECW % 1024); put("toe", b.issue % SECW / 16); put("toc", b.issue % SECW / 16); put("ura", b.ura);
      put("health", b.ill ? (b.sat % 2 ? 63 : 32) : 0); put("fit", b.fit); put("tgd", llround(q.tgd.gps_s[0] / P2(31))); for (int i = 0; i < 8; i++) s.fw[piece][i] = w[piece][i + 3];
    }
  }
  void decode(Bird &b, Slot &s, i64 t, i64 oldest) {   // the receiver: whenever it holds every piece
    int n = KPIECES[b.k]; for (int i = 0; i < n; i++) if (!s.h[i].any) return;
    bool one = true; for (int i = 1; i < (b.k == KGAL ? 4 : n); i++) one &= s.h[i].idx == s.h[0].idx;
    gnss_signal_t sid; memset(&sid, 0, sizeof sid); sid.code = (code_t)KCODE[b.k]; sid.sat = (u16)b.sat;
    ephemeris_t held = s.e; Heard before = s.full; bool had = s.whole;
    about_to("decoding code %d sat %d", KCODE[b.k], b.sat);
    if (b.k == KGPS || b.k == KQZS) { s.e.sid = sid; if (oldest == 1876) decode_ephemeris(s.fw, &s.e, (double)(t % SECW)); else decode_ephemeris_with_wn_ref(s.fw, &s.e, (double)(t % SECW), (u16)oldest); }
    else if (b.k == KGAL) { s.e.sid = sid; decode_gal_ephemeris_safe(s.pg, &s.e); }
    else if (b.k == KGLO) { sid.sat = 0; decode_glo_ephemeris(s.gs, sid, nullptr, &s.e); }
    else { decode_bds_d1_ephemeris(s.bw, sid, &s.e); s.e.valid = 1; s.e.fit_interval = 14400; for (gps_time_t *g : {&s.e.toe, &s.e.data.kepler.toc}) { g->tow += 14; if (g->tow >= SECW) { g->tow -= SECW; g->wn++; } } }   // what the library leaves to its user
    s.whole = one; s.full = s.h[0]; s.full.ill = b.k == KGAL ? s.h[4].ill : b.k == KGLO ? s.h[1].ill || s.h[2].ill : s.h[0].ill; s.full.fit = s.h[1].fit;
    if (one && had && before.fit == s.full.fit) {   // a receiver notices a new issue by comparing
      bool same = before.toe == s.full.toe && before.ill == s.full.ill && (b.k == KBDS || b.k == KGLO || before.idx == s.full.idx);   // BeiDou and GLONASS know no issue but the reference time
      about_to("comparing data sets of code %d sat %d", KCODE[b.k], b.sat);
      if (ephemeris_equal(&held, &s.e) != same || ephemeris_equal(&s.e, &held) != same) { c.fail("issue-confused", "code %d sat %d: %s", KCODE[b.k], b.sat, same ? "the same data set, heard again, decodes to something else" : "a new issue of the data set decodes to the old one"); return; }
      c.probe(same ? "same_issue_again" : "next_issue");
    }
    if (!one) c.fault("mixed_issues");
  }
  void forget(Slot &s, bool all) { for (auto &x : s.h) x = Heard(); if (all) { memset(&s.e, 0, sizeof s.e); s.whole = false; s.full = Heard(); } }
  // 1 usable, 0 not, -1 at the edge
  int expected(const Bird &b, const Slot &s, LD t) {
    if (!s.whole || s.full.ill) return 0;
    LD d = t - s.full.toe, lo, hi; if (b.k == KGAL || b.k == KBDS) { lo = 0; hi = 14400; } else { LD f = b.k == KGLO ? 1200 + 450 * s.full.fit : s.full.fit ? 10800 : 7200; lo = -f; hi = f; }
    if (std::fabs((double)(d - lo)) < 0.01 || std::fabs((double)(d - hi)) < 0.01) return -1;
    return d > lo && d < hi;
  }
  LD elev(const L3 &p) { L3 d = p - rp; L3 up = {cosl(lat) * cosl(lon), cosl(lat) * sinl(lon), sinl(lat)}; return asinl(dot(d, up) / len(d)); }
  std::vector<int> visible() { std::vector<int> v; for (size_t i = 0; i < B.size(); i++) { refresh(B[i]); if (elev(B[i].where((LD)(now - B[i].toe0))) > 5 * PI / 180) v.push_back((int)i); } return v; }
  void listen(int frames, int loss, U64 seed, i64 oldest) {
    Rng r(seed); auto vis = visible(); if (oldest > now / SECW) oldest = now / SECW; if (now / SECW - oldest > 1000) oldest = now / SECW - 1000;
    for (int f = 0; f < frames; f++) {
      i64 t0 = now;
      for (int i : vis) {
        Bird &b = B[(size_t)i]; Slot &s = S[(size_t)i]; if (b.k == KGLO || b.k == KBDS) forget(s, false);
        for (int p = 0; p < KPIECES[b.k]; p++) {
          now = t0 + p * (b.k == KGLO ? 2 : 6);
          if ((int)r.below(1000) < loss) { c.fault("message_lost"); continue; }
          if ((b.k == KGLO || b.k == KBDS) && p && s.h[0].any && toe_at(b) != s.h[0].toe) { forget(s, false); break; }   // a frame cut by the change of issue
          deliver(b, s, p, now); if (b.k != KGLO && b.k != KBDS) decode(b, s, now, oldest);
        }
        if (b.k == KGLO || b.k == KBDS) decode(b, s, now, oldest);
        if (c.failed()) return;
      }
      pass(t0, t0 + 30);
    }
  }
  void pass(i64 from, i64 to) { if (from / SECW != to / SECW) c.fault("week_rollover"); c.time((double)(to - from)); now = to; clk += drift * (to - from); if (fabsl(clk) > 0.9e-3L) clk = 0; }
  // what is measured of a satellite at the moment x seconds after now
  LD range_of(const Bird &b, LD x, L3 *los = nullptr, LD *te = nullptr) {
    L3 at = rp + x * rv; LD tau = 0.07L, ck = 0; L3 p;
    for (int i = 0; i < 5; i++) { b.clock_of((LD)(now - b.toe0) + x - tau, p, ck); p = spinz(p, WEL * tau); tau = len(p - at) / CC; }
    if (los) *los = (1 / len(p - at)) * (p - at); if (te) *te = x - tau;
    return CC * (tau + clk + drift * x + isb[b.k] - ck);
  }
  static bool dop(const std::vector<L3> &u, const std::vector<int> &k, LD &g, LD &pd, LD row[8][8], int &n) {   // inverse normal matrix; the number of unknowns
    int m[NK]; for (int &x : m) x = -1; n = 3; for (int x : k) if (m[x] < 0) m[x] = n++;
    LD A[8][16] = {}; for (size_t i = 0; i < u.size(); i++) { LD h[8] = {-u[i].x, -u[i].y, -u[i].z}; h[m[k[i]]] = 1; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) A[a][b] += h[a] * h[b]; }
    for (int a = 0; a < n; a++) A[a][n + a] = 1;
    for (int a = 0; a < n; a++) { int q = a; for (int b = a; b < n; b++) if (fabsl(A[b][a]) > fabsl(A[q][a])) q = b; if (fabsl(A[q][a]) < 1e-7L) return false; for (int j = 0; j < 2 * n; j++) std::swap(A[a][j], A[q][j]); LD z = A[a][a]; for (int j = 0; j < 2 * n; j++) A[a][j] /= z; for (int b = 0; b < n; b++) if (b != a) { LD f = A[b][a]; for (int j = 0; j < 2 * n; j++) A[b][j] -= f * A[a][j]; } }
    pd = sqrtl(A[0][n] + A[1][n + 1] + A[2][n + 2]); g = sqrtl(pd * pd + A[3][n + 3]); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) row[a][b] = A[a][n + b];
    return std::isfinite((double)g);
  }
  void epoch(int opts) {
    auto vis = visible(); std::vector<navigation_measurement_t> m; std::vector<int> who; std::vector<L3> u; std::vector<int> uk;
    LD reading = (LD)clk; gps_time_t tor; tor.wn = (s16)(now / SECW); tor.tow = (double)((LD)(now % SECW) + reading); if (tor.tow < 0) { tor.tow += SECW; tor.wn--; } if (tor.tow >= SECW) { tor.tow -= SECW; tor.wn++; }
    bool gpsonly = opts & 4, edge = false; size_t cap = opts & 8 ? 8 : 60; LD rel = 0;
    for (int i : vis) {
      Bird &b = B[(size_t)i]; Slot &s = S[(size_t)i];
      if (s.full.any && s.full.ill != b.ill) { c.probe("health_change_not_heard_yet"); continue; }   // trouble is announced before it begins
      LD te; L3 los; LD pr = range_of(b, 0, &los, &te); if (b.ill) pr -= 0; 
      gps_time_t tot = tor; tot.tow -= (double)(pr / CC); if (tot.tow < 0) { tot.tow += SECW; tot.wn--; }
      about_to("asking whether code %d sat %d is usable", KCODE[b.k], b.sat);
      bool use = s.e.valid && ephemeris_valid(&s.e, &tot) && ephemeris_healthy(&s.e, (code_t)KCODE[b.k]);
      LD ck; L3 p; b.clock_of((LD)(now - b.toe0) + te, p, ck);
      int want = expected(b, s, (LD)now + te + ck); if (want < 0) { edge = true; continue; }
      c.ev("sat %d/%d use %d want %d", b.k, b.sat, use, want);
      if (use != (want == 1)) { c.fail(use ? "usable" : "unusable", "code %d sat %d counts as %susable %.0Lf s from its reference time: %s, broadcast %s", KCODE[b.k], b.sat, use ? "" : "not ", (LD)now + te - s.full.toe, s.whole ? "heard completely" : s.full.any ? "heard in mixed issues" : "not heard", s.full.ill ? "unhealthy" : "healthy"); return; }
      if (!use) continue;
      navigation_measurement_t q; memset(&q, 0x5A, sizeof q); double acc[3]; 
      about_to("state of code %d sat %d", KCODE[b.k], b.sat);
      int rc = calc_sat_state(&s.e, &tot, q.sat_pos, q.sat_vel, q.sat_acc, &q.sat_clock_err, &q.sat_clock_err_rate); (void)acc;
      if (rc) { c.fail("no-state", "code %d sat %d: no state from a usable data set", KCODE[b.k], b.sat); return; }
      L3 lp = {q.sat_pos[0], q.sat_pos[1], q.sat_pos[2]}; LD dp = len(lp - p), dc = fabsl(q.sat_clock_err - ck) * CC;
      if (!(dp < (b.k == KGLO ? 2.5L : 0.2L))) { c.fail("satellite-position", "code %d sat %d is %.3Lf m from where its broadcast puts it, %.0Lf s from the reference time", KCODE[b.k], b.sat, dp, (LD)now + te - s.full.toe); return; }
      if (!(dc < 0.35L)) { c.fail("satellite-clock", "code %d sat %d: clock is %.3Lf m off, %.0Lf s from the reference time", KCODE[b.k], b.sat, dc, (LD)now + te - s.full.toe); return; }
      double az, el, ref[3] = {(double)rp.x, (double)rp.y, (double)rp.z}; satellite_orbit_type_t ot = MEO;
      if (calc_sat_az_el(&s.e, &tot, ref, ot, &az, &el, true) || !(std::fabs(el - (double)elev(p)) < 1e-5)) { c.fail("elevation", "code %d sat %d: elevation %.6f, seen at %.6Lf", KCODE[b.k], b.sat, el, elev(p)); return; }
      LD h = 0.1L, prr = (range_of(b, h) - range_of(b, -h)) / (2 * h), lam = CC / b.ref.hz();
      q.sid.code = (code_t)KCODE[b.k]; q.sid.sat = (u16)b.sat; q.raw_pseudorange = (double)pr; q.raw_measured_doppler = q.raw_computed_doppler = (double)(-prr / lam); q.raw_carrier_phase = (double)(pr / lam);
      q.cn0 = 45; q.lock_time = 100; q.elevation = el * 180 / 3.14159265358979; q.tot = tot; q.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_PHASE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_COMP_DOPPLER_VALID | NAV_MEAS_FLAG_HALF_CYCLE_KNOWN | NAV_MEAS_FLAG_CN0_VALID;
      if (b.k != KGLO) { LD k1, k2; b.clock_of((LD)(now - b.toe0) + te + h, p, k1); b.clock_of((LD)(now - b.toe0) + te - h, p, k2); rel = std::max(rel, CC * fabsl((k1 - k2) / (2 * h) - b.ref.e.data.kepler.af1 - 2 * b.ref.e.data.kepler.af2 * ((LD)now + te - s.full.toe))); }
      if (m.size() < cap) { m.push_back(q); who.push_back(i); if (!gpsonly || b.k == KGPS) { u.push_back(los); uk.push_back(b.k); } }
    }
    gnss_solution so; dops_t dd; gnss_sid_set_t rm; memset(&so, 0x5A, sizeof so); memset(&dd, 0x5A, sizeof dd); sid_set_init(&rm);
    bool noraim = opts & 1, novel = opts & 2; if (m.empty()) return;
    about_to("position of %zu satellites", m.size());
    obs_mask_config_t mc; memset(&mc, 0, sizeof mc); int ret = calc_PVT((u8)m.size(), m.data(), &tor, noraim, novel, &mc, gpsonly ? GPS_ONLY : ALL_CONSTELLATIONS, &so, &dd, &rm);
    LD g = 99, pd = 99, H[8][8]; int unk = 4; bool good = dop(u, uk, g, pd, H, unk) && (int)u.size() >= unk;
    bool glo = false; for (int k : uk) glo |= k == KGLO;
    c.ev("epoch %d used %zu ret %d", (int)(now % SECW), u.size(), ret); c.state(mix(mix((U64)u.size() * 16 + (U64)unk, (U64)(ret + 16)), (U64)(now / SECW % 64) * 8 + (U64)opts)); (void)edge;
    if (good && g < 6 && ret < 0) { c.fail("no-fix", "%zu usable satellites with GDOP %.2Lf and the solver returns %d", u.size(), g, ret); return; }
    if (ret < 0) { c.probe("no_fix"); return; }
    c.nontrivial = true; c.probe("fix"); if (unk > 4) c.probe("fix_of_several_systems");
    LD e = len(L3{so.pos_ecef[0], so.pos_ecef[1], so.pos_ecef[2]} - rp), lim = 0.2L + pd * (glo ? 2.5L : 0.4L);
    if (!(e < lim)) { c.fail("position", "the position is %.2Lf m off, with %zu satellites, PDOP %.2Lf", e, u.size(), pd); return; }
    LD vt = 0.003L + g * ((glo ? 0.009L : 0.005L) + 1.5L * rel);   // the broadcast clock rate leaves out relativity's
    LD ev = len(L3{so.vel_ecef[0], so.vel_ecef[1], so.vel_ecef[2]} - rv);
    if (!novel && !(ev < vt)) { c.fail("velocity", "the velocity is %.3Lf m/s off, with %zu satellites, PDOP %.2Lf", ev, u.size(), pd); return; }
    int first = -1; for (size_t i = 0; i < who.size() && first < 0; i++) if (!gpsonly || B[(size_t)who[i]].k == KGPS) first = B[(size_t)who[i]].k;
    LD ec = fabsl(so.clock_offset - (clk + isb[first])) * CC; if (!(ec < 0.3L + g * (glo ? 2.5L : 0.5L))) { c.fail("clock", "the clock is %.2Lf m off, GDOP %.2Lf", ec, g); return; }
    if (!novel) { LD ed = fabsl(so.clock_drift - drift) * CC; if (!(ed < vt)) { c.fail("clock", "the clock drift is %.3Lf m/s off, GDOP %.2Lf", ed, g); return; } }
    if (!(so.time.tow >= 0 && so.time.tow < SECW)) { c.fail("time", "the time of week of the solution is %.9f", so.time.tow); return; }
    LD et = fabsl((LD)so.time.wn * SECW + so.time.tow - now + isb[first]) * CC; if (!(et < 40 + g * (glo ? 8 : 1))) { c.fail("time", "the time of the solution is %.3Lf us off", et / CC * 1e6L); return; }
  }
};
static void gen_c47(Rng &r, Scenario &s, U64) {
  i64 week = r.chance(1, 3) ? r.pick<i64>({1876, 1877, 2047, 2048, 2049, 2899, 2047, 1930, 2047}) : r.range(1420, 3050), sec = r.chance(1, 3) ? r.pick<i64>({0, 604800 - 300, 604800 - 60, 604800 - 3600, 7200 - 120, 3600, 86400 - 10800 - 60, 345600 - 18 - 10800 - 60, 604800 - 7200 - 40}) : (i64)r.below(604800);
  if (r.chance(1, 12)) { week = 1930; sec = 0; }   // about a leap second
  int mask = r.chance(1, 2) ? (int)r.range(1, 31) : r.pick<int>({1, 2, 4, 8, 3, 9, 31}), many = r.chance(1, 3);
  s.op("sky", {week, sec, mask, many, (i64)(r.next() >> 1)});
  s.op("place", {r.chance(1, 8) ? r.pick<i64>({0, 90000000, -90000000}) : r.range(-90000000, 90000000), r.chance(1, 8) ? 180000000 : r.range(-180000000, 180000000), r.range(-100, 9000)});
  s.op("clock", {r.range(-900000, 900000), r.range(-300, 300), (i64)(r.next() >> 1)});
  if (r.chance(1, 3)) s.op("dirt", {(i64)(r.next() >> 1)});
  auto listen = [&](int f) { s.op("listen", {f, r.chance(1, 2) ? 0 : r.pick<i64>({50, 200, 500}), (i64)(r.next() >> 1), r.chance(1, 3) && week >= 1876 && week <= 2898 ? 1876 : std::max<i64>(1, week - r.range(0, 1000))}); };
  listen(r.chance(1, 3) ? 1 : (int)r.range(1, 4));
  int n = (int)r.range(3, 9);
  for (int i = 0; i < n; i++) {
    switch (r.below(10)) {
      case 9: s.op("until", {r.chance(2, 3) ? 0 : (i64)r.below(6), r.chance(2, 3) ? 0 : r.range(-1, 1)}); break;
      case 0: s.op("sleep", {r.chance(1, 2) ? r.range(1, 14000) : r.pick<i64>({1200, 1199, 7200, 10800, 14400, 600, 3600, 86400, 604800, 1800})}); if (r.chance(1, 2)) s.op("epoch", {(i64)r.below(16)}); break;
      case 1: s.op("restart", {(i64)r.below(2)}); break;
      case 2: s.op("ail", {(i64)r.below(100), (i64)r.below(4)}); break;
      case 3: s.op("speed", {r.range(-300, 300), r.range(-300, 300), r.range(-50, 50)}); break;
      case 4: s.op("place", {r.range(-90000000, 90000000), r.range(-180000000, 180000000), r.range(-100, 9000)}); break;
      default: listen((int)r.range(1, 3));
    }
    if (r.chance(2, 3)) s.op("epoch", {(i64)(r.chance(2, 3) ? 0 : r.below(16))});
  }
  s.op("epoch", {0});
}
static void run_c47(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); glo_map_init(nullptr, nullptr); for (int i = 1; i <= 28; i++) glo_map_set_slot_id((u16)(1 + (i - 1) % 14), (u16)i);
    Chain w(c); w.now = 2000 * SECW;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset(200000000ULL);
      if (o.name == "sky") {
        i64 wk = o.arg(0) < 1420 || o.arg(0) > 3060 ? 2000 : o.arg(0); w.now = wk * SECW + (i64)((U64)o.arg(1) % (U64)SECW); w.B.clear(); w.S.clear(); Rng r((U64)o.arg(4)); int mask = (int)(o.arg(2) & 31); if (!mask) mask = 1;
        for (int k = 0; k < NK; k++) if (mask >> k & 1) {
          int full = KN[k], n = k == KQZS ? 4 : o.arg(3) ? full - (int)r.below(3) : full * 2 / 3; if (!o.arg(3) && __builtin_popcount((unsigned)mask) > 2) n = full / 2;
          std::vector<int> ids; for (int i = 0; i < full; i++) ids.push_back(i); for (int i = full - 1; i > 0; i--) std::swap(ids[(size_t)i], ids[r.below((U64)i + 1)]);
          for (int i = 0; i < n; i++) { Bird b; b.k = k; b.sat = KFIRST[k] + ids[(size_t)i]; w.B.push_back(b); }
        }
        for (auto &b : w.B) { b.idx = r.below(2000); w.launch(b, r.next()); }
        w.S.resize(w.B.size()); for (auto &x : w.S) { memset((void *)&x, 0, sizeof x); }
      } else if (o.name == "place") {
        w.lat = (LD)(o.arg(0) % 90000001) * 1e-6L * PI / 180; w.lon = (LD)(o.arg(1) % 180000001) * 1e-6L * PI / 180; LD h = (LD)(o.arg(2) % 20000), f = 1 / 298.257223563L, e2 = f * (2 - f), N = 6378137.0L / sqrtl(1 - e2 * sinl(w.lat) * sinl(w.lat)); if (h < -500) h = -500;
        w.rp = {(N + h) * cosl(w.lat) * cosl(w.lon), (N + h) * cosl(w.lat) * sinl(w.lon), (N * (1 - e2) + h) * sinl(w.lat)}; w.rv = {0, 0, 0}; if (w.placed) c.probe("moved_far"); w.placed = true;
      } else if (o.name == "speed") {
        LD la = w.lat, lo = w.lon; L3 up = {cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)}, no = {-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)}, ea = {-sinl(lo), cosl(lo), 0}; w.rv = (LD)(o.arg(0) % 350) * no + (LD)(o.arg(1) % 350) * ea + (LD)(o.arg(2) % 60) * up;
      } else if (o.name == "clock") { Rng r((U64)o.arg(2)); w.clk = (LD)(o.arg(0) % 900001) * 1e-9L; w.drift = (LD)(o.arg(1) % 301) * 1e-9L; for (auto &x : w.isb) x = (LD)r.range(-100, 100) * 1e-9L; }
      else if (o.name == "dirt") { U64 h = (U64)o.arg(0); for (auto &x : w.S) { Rng q(h++); uint8_t *p = (uint8_t *)&x.e; for (size_t i = 0; i < sizeof x.e; i++) p[i] = (uint8_t)q.next(); x.e.valid = 0; x.e.fit_interval = 0; x.e.sid.code = CODE_GPS_L1CA; } c.fault("dirty_storage"); }
      else if (o.name == "listen") { if (!w.placed) continue; int f = (int)((U64)o.arg(0) % 8); w.listen(f, (int)((U64)o.arg(1) % 1000), (U64)o.arg(2), o.arg(3) < 1 ? 1 : o.arg(3)); }
      else if (o.name == "sleep") {
        i64 d = (i64)((U64)o.arg(0) % 1000000); c.fault("receiver_off"); i64 t0 = w.now;
        if (d > 25000) { w.pass(t0, t0 + d); Rng r((U64)d + s.seed); for (auto &b : w.B) w.launch(b, r.next()); c.fault("orbits_changed_while_off"); } else w.pass(t0, t0 + d);
        if (d > 3600) for (auto &x : w.S) w.forget(x, false);
      } else if (o.name == "restart") { for (auto &x : w.S) w.forget(x, !o.arg(0)); c.fault(o.arg(0) ? "restart_with_stored_ephemerides" : "cold_restart"); }
      else if (o.name == "ail") { if (w.B.empty()) continue; auto v = w.visible(); for (i64 j = 0; j <= (o.arg(1) & 3); j++) { Bird &b = v.empty() ? w.B[(U64)o.arg(0) % w.B.size()] : w.B[(size_t)v[((U64)o.arg(0) + (U64)j) % v.size()]]; b.ill = !b.ill; b.idx++; } c.fault("satellite_fails_or_recovers"); }
      else if (o.name == "until") { static const i64 P[] = {SECW, 86400, 7200, 3600, 900, 30}; i64 p = P[(U64)o.arg(0) % 6], t = (w.now / p + 1) * p + o.arg(1) % 3; if (t > w.now && t - w.now <= 25000) { c.fault("receiver_off"); if (p == SECW && o.arg(1) % 3 == 0) c.probe("first_moment_of_a_week"); w.pass(w.now, t); } }
      else if (o.name == "epoch") { if (w.placed && !w.B.empty()) w.epoch((int)(o.arg(0) & 15)); }
    }
  });
}
Prop g_props[] = {
  {"C47", gen_c47, run_c47, 8000, 300000, "from transmitted bits to the solution: usable satellites are those heard completely, healthy and within their interval; their positions and clocks are the true ones; with good geometry there is a solution, and every solution is at the receiver's true place, speed and time",
   "decode_glo.c, ephemeris.c, edc.c, gnss_time.c, signal.c, glo_map.c, coord_system.c, single_epoch_solver.c, linear_algebra.c, sid_set.c: the whole receiving chain, nothing between the bits and the solution supplied", "satellites, radio channel and receiver clock are simulated; for BeiDou the completion the library leaves to its user (time system, validity) is done by the harness", "satellites used x unknowns x result x week x options"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
