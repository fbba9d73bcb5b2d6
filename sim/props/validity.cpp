// C24, C25: ephemerides and almanacs ageing, being spoilt and being asked about by receivers whose clock jumps and forgets the week.
// All instants are exact integers in units of 2^-20 s.
#include <cmath>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
#include <swiftnav/almanac.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/shm.h>
#include <swiftnav/signal.h>
static const i64 S = 1 << 20, WK = 604800 * S;
static gps_time_t gt(i64 wn, i64 u) { gps_time_t t; t.wn = (s16)wn; t.tow = (double)u / (double)S; return t; }
enum Sys { GPS, SBAS, GLO, BDS, QZS, GAL };
static const std::vector<int> codes_of[6] = {
  {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GPS_L2CL, CODE_GPS_L2CX, CODE_GPS_L5I, CODE_GPS_L5Q, CODE_GPS_L5X, CODE_GPS_L1CI, CODE_GPS_L1CQ, CODE_GPS_L1CX, CODE_AUX_GPS},
  {CODE_SBAS_L1CA, CODE_SBAS_L5I, CODE_SBAS_L5Q, CODE_SBAS_L5X, CODE_AUX_SBAS},
  {CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GLO_L2P},
  {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX, CODE_BDS3_B5I, CODE_BDS3_B5Q, CODE_BDS3_B5X, CODE_BDS3_B7I, CODE_BDS3_B7Q, CODE_BDS3_B7X, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X, CODE_AUX_BDS},
  {CODE_QZS_L1CA, CODE_QZS_L1CI, CODE_QZS_L1CQ, CODE_QZS_L1CX, CODE_QZS_L2CM, CODE_QZS_L2CL, CODE_QZS_L2CX, CODE_QZS_L5I, CODE_QZS_L5Q, CODE_QZS_L5X, CODE_AUX_QZS},
  {CODE_GAL_E1B, CODE_GAL_E1C, CODE_GAL_E1X, CODE_GAL_E6B, CODE_GAL_E6C, CODE_GAL_E6X, CODE_GAL_E7I, CODE_GAL_E7Q, CODE_GAL_E7X, CODE_GAL_E8I, CODE_GAL_E8Q, CODE_GAL_E8X, CODE_GAL_E5I, CODE_GAL_E5Q, CODE_GAL_E5X, CODE_AUX_GAL}};
static int sys_of(int code) { for (int s = 0; s < 6; s++) for (int c : codes_of[s]) if (c == code) return s; return -1; }
static int sat_of(int sys, i64 n) {
  switch (sys) { case GPS: return 1 + (int)((U64)n % 32); case SBAS: return 120 + (int)((U64)n % 19); case GLO: return 1 + (int)((U64)n % 28); case BDS: return 1 + (int)((U64)n % 63);
    case QZS: return 193 + (int)((U64)n % 10); default: return 1 + (int)((U64)n % 36); }
}
// IS-GPS-200 table 20-VIII, by signal: component health code, and the navigation data summary bit
static bool gps_signal_ok(int h6, int code) {
  int b = h6 & 31; bool summary = h6 & 32;
  bool ca = code == CODE_GPS_L1CA || code == CODE_AUX_GPS, l1p = code == CODE_GPS_L1P, l2p = code == CODE_GPS_L2P, l2c = code == CODE_GPS_L2CM || code == CODE_GPS_L2CL || code == CODE_GPS_L2CX;
  bool qca = code == CODE_QZS_L1CA || code == CODE_AUX_QZS, q2c = code == CODE_QZS_L2CM || code == CODE_QZS_L2CL || code == CODE_QZS_L2CX;
  if ((ca || l1p) && summary) return false;
  auto in = [&](int lo) { return b >= lo && b <= lo + 2; };
  if ((b >= 1 && b <= 3) || b >= 28) return false;
  if (ca || qca) return !(in(10) || in(19) || in(22));
  if (l1p) return !(in(4) || in(16) || in(22));
  if (l2p) return !(in(7) || in(16) || in(25));
  if (l2c || q2c) return !(in(13) || in(19) || in(25));
  return true;
}
// Weeks of two instants, either possibly unknown (-1), brought as near to each other as possible. False if two choices are equally near.
static bool nearest(i64 wa, i64 ua, i64 wb, i64 ub, i64 &a, i64 &b) {
  if (wa != -1 && wb != -1) { a = wa * WK + ua; b = wb * WK + ub; return true; }
  i64 d = ua - ub;   // a - b within the week
  if (std::llabs(d) * 2 == WK) return false;
  if (d * 2 > WK) d -= WK; else if (d * 2 < -WK) d += WK;
  if (wa != -1) { a = wa * WK + ua; b = a - d; } else if (wb != -1) { b = wb * WK + ub; a = b + d; } else { a = 100 * WK + ua; b = a - d; }
  return true;
}
struct E24 { ephemeris_t e; i64 toe_w, toe_u, toc_w, toc_u; };
static int sysE(const E24 &x) { return sys_of(x.e.sid.code); }
static bool healthy(const ephemeris_t &e, int code) {
  int sys = sys_of(code);
  if (!e.valid) return true;
  if (sys == GPS) return e.ura >= 0 && e.ura <= 6144.0f && gps_signal_ok(e.health_bits & 63, code);
  if (sys == SBAS || sys == QZS) return e.health_bits == 0;
  return e.ura >= 0 && e.health_bits == 0;
}
static int ladder(const E24 &x) {
  const ephemeris_t &e = x.e; int sys = sysE(x);
  if (!e.valid) return EPH_INVALID;
  if (x.toe_w == 0) return EPH_WN_EQ_0;
  if (!e.fit_interval) return EPH_FIT_INTERVAL_EQ_0;
  if (!healthy(e, e.sid.code)) return EPH_UNHEALTHY;
  unsigned c = e.data.kepler.iodc, i = e.data.kepler.iode; bool ok = true;
  if (sys == GPS || sys == QZS) ok = c < 1024 && i < 256 && (c & 255) == i;
  else if (sys == BDS) ok = e.source == EPH_SOURCE_BDS_D1_D2_NAV ? c <= 240 && i <= 240 : c < 1024 && i < 256 && (c & 255) == i;
  else if (sys == GAL) ok = c < 1024 && i == c;
  else if (sys == GLO) ok = e.data.glo.iod < 128;
  return ok ? EPH_VALID : EPH_INVALID_IOD;
}
// -1: not settled by the property (equally near weeks). Otherwise the expected status; bgn, end and t are set when the window was looked at.
struct Win { i64 bgn = 0, end = 0, t = 0; bool set = false; };
static int expect(const E24 &x, i64 tw, i64 tu, Win &w) {
  int st = ladder(x); if (st != EPH_VALID) return st;
  int sys = sysE(x); if (sys == SBAS) return EPH_VALID;
  i64 toe, t; if (!nearest(x.toe_w, x.toe_u, tw, tu, toe, t)) return -1;
  i64 fit = (i64)x.e.fit_interval * S, half = (i64)(x.e.fit_interval / 2) * S;
  w.bgn = toe - half; w.end = toe + half; if (sys == BDS || sys == GAL) { w.bgn = toe; w.end = toe + fit; }
  w.t = t; w.set = true;
  if (t < w.bgn || t > w.end) return EPH_TOO_OLD;
  if (sys == GLO) return EPH_VALID;
  if (x.toc_w == 0) return EPH_TOO_OLD;
  if (x.toc_w == -1) { for (i64 k = -2; k <= 40000; k++) { i64 c = x.toc_u + k * WK; if (c >= w.bgn && c <= w.end) return EPH_VALID; if (c > w.end) break; } return EPH_TOO_OLD; }
  i64 toc = x.toc_w * WK + x.toc_u;
  return toc >= w.bgn && toc <= w.end ? EPH_VALID : EPH_TOO_OLD;
}
static const double kURA[] = {2.0, 2.0, 2.8, 6144, 6145, -1, -0.25, 0, 1e6, 4096, 9000};
static void clean(E24 &x) {   // keep within what the receiver can hold: dated within the known weeks, an unknown clock week only where it has one meaning
  ephemeris_t &e = x.e; int sys = sysE(x);
  x.toe_u = (i64)((U64)x.toe_u % (U64)WK); x.toc_u = (i64)((U64)x.toc_u % (U64)WK);
  if (x.toe_w < -1 || x.toe_w > 30000) x.toe_w = 2000;
  if (x.toc_w < -1 || x.toc_w > 30000) x.toc_w = x.toe_w;
  if (x.toe_w == -1) x.toc_w = -1;
  if (e.fit_interval > 604800) e.fit_interval = 604800;
  if (x.toc_w == -1 && e.fit_interval > 302000) e.fit_interval = 302000;
  e.toe = gt(x.toe_w, x.toe_u);
  if (sys == GPS || sys == QZS || sys == BDS || sys == GAL) e.data.kepler.toc = gt(x.toc_w, x.toc_u);
}
static void fill(ephemeris_t &e, int sys, Rng r) {
  if (sys == GLO) {
    double a = r.uniform(0, 6.28), i = r.uniform(-1, 1);
    e.data.glo.pos[0] = 25508e3 * std::cos(a) * std::cos(i); e.data.glo.pos[1] = 25508e3 * std::sin(a) * std::cos(i); e.data.glo.pos[2] = 25508e3 * std::sin(i);
    e.data.glo.vel[0] = -3500 * std::sin(a); e.data.glo.vel[1] = 3500 * std::cos(a); e.data.glo.vel[2] = r.uniform(-500, 500);
    e.data.glo.acc[0] = r.uniform(-3e-6, 3e-6); e.data.glo.acc[1] = 0; e.data.glo.acc[2] = 1e-6; e.data.glo.gamma = r.uniform(-1e-9, 1e-9); e.data.glo.tau = r.uniform(-1e-4, 1e-4); e.data.glo.d_tau = r.uniform(-1e-8, 1e-8);
    e.data.glo.fcn = 8;
  } else if (sys == SBAS) {
    e.data.xyz.pos[0] = 30e6; e.data.xyz.pos[1] = r.uniform(-29e6, 29e6); e.data.xyz.pos[2] = 1e3; e.data.xyz.vel[0] = r.uniform(-1, 1); e.data.xyz.a_gf0 = 1e-7;
  } else {
    ephemeris_kepler_t &k = e.data.kepler;
    k.m0 = r.uniform(-3, 3); k.ecc = r.uniform(0, 0.03); k.sqrta = sys == QZS ? 6493 : sys == GAL ? 5440.6 : sys == BDS ? 5282.6 : 5153.7; k.omega0 = r.uniform(-3, 3); k.omegadot = -8e-9; k.w = r.uniform(-3, 3); k.inc = 0.96;
    k.inc_dot = 1e-10; k.dn = 4.5e-9; k.crs = r.uniform(-100, 100); k.crc = 200; k.cus = 1e-6; k.cuc = -1e-6; k.cis = 1e-8; k.cic = -1e-8; k.af0 = r.uniform(-1e-4, 1e-4); k.af1 = 1e-12; k.af2 = 0;
    if (sys == GPS || sys == QZS) { k.tgd.gps_s[0] = -1e-8f; k.tgd.gps_s[1] = 2e-9f; } else if (sys == BDS) { k.tgd.bds_s[0] = 1e-9f; k.tgd.bds_s[1] = 2e-9f; } else { k.tgd.gal_s[0] = 1e-9f; k.tgd.gal_s[1] = 2e-9f; }
  }
}
static i64 edge_off(Rng &r, i64 fit) {   // an offset from the reference time that is likely to be interesting
  i64 half = fit / 2 * S, full = fit * S;
  i64 o = r.pick<i64>({0, half, -half, full, -full, half, -half, half + S / 2, -half - S / 2});
  if (r.chance(1, 4)) o = (i64)r.below((U64)(2 * full + S)) - full;
  if (r.chance(1, 16)) o += r.pick<i64>({WK, -WK, 2 * WK, 1024 * WK, -1024 * WK});
  return o + r.pick<i64>({0, 0, 0, 1, -1, S, -S, S / 2, 7 * S, -3600 * S});
}
static void at(i64 w, i64 u, i64 off, i64 &w2, i64 &u2) { i64 x = (w < 0 ? 0 : w) * WK + u + off; i64 q = x >= 0 ? x / WK : -((-x + WK - 1) / WK); u2 = x - q * WK; w2 = w < 0 ? -1 : q; }
static void gen_c24(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 3); i64 cw = r.chance(1, 6) ? r.pick<i64>({1, 2, 3, 1023, 1024, 2047, 2048, 29000}) : r.range(1, 4000);
  struct { i64 w, u, fit; } L[3];
  for (int k = 0; k < n; k++) {
    int sys = (int)r.below(6); int code = codes_of[sys][r.chance(1, 2) ? 0 : r.below(codes_of[sys].size())];
    i64 fit = r.chance(1, 3) ? r.pick<i64>({14400, 7200, 1800, 2400, 86400, 525600, 1, 3, 0, 93600}) : sys == GLO ? 2400 : sys == BDS ? 10800 : 14400;
    i64 w = r.chance(1, 10) ? -1 : r.chance(1, 12) ? 0 : cw, u = r.chance(1, 4) ? r.pick<i64>({0, 604800 - 16, 7200, 604784 - 7200, 3600}) * S : (i64)r.below(604800 / 16) * 16 * S;
    i64 cwk, cu; at(w, u, r.chance(2, 3) ? 0 : edge_off(r, fit), cwk, cu);
    if (r.chance(1, 12)) cwk = r.chance(1, 2) ? 0 : -1;
    i64 iod = r.chance(1, 3) ? r.pick<i64>({0, 255, 256, 240, 241, 1023, 1024, 127, 128, 513, 65535}) : (i64)r.below(256);
    i64 iode = r.chance(4, 5) ? (sys == GAL ? iod : iod & 255) : r.chance(1, 2) ? iod ^ (1 << r.below(11)) : (i64)r.below(1100);
    s.op("eph", {k, code, (i64)r.below(64), w, u, cwk, cu, fit, iod, iode, r.chance(3, 4) ? 0 : (i64)r.below(sizeof kURA / sizeof *kURA), r.chance(2, 3) ? 0 : r.chance(1, 2) ? (i64)r.below(32) : (i64)r.below(256), r.chance(1, 2) ? EPH_SOURCE_BDS_D1_D2_NAV : (i64)r.below(9), r.chance(1, 12) ? 0 : 1, (i64)(r.next() >> 1)});
    L[k] = {w < 1 ? cw : w, u, fit};
  }
  int m = (int)r.range(3, 16);
  for (int i = 0; i < m; i++) {
    int k = (int)r.below(n);
    switch (r.below(12)) {
      case 0: s.op("upset", {k, (i64)r.below(8), (i64)r.below(64)}); break;
      case 1: s.op("step", {r.chance(1, 2) ? (i64)r.below(7200) * S : (i64)r.below(600) * S + (i64)r.below(S)}); break;
      case 2: s.op(r.chance(1, 3) ? "lostweek" : "gotweek"); break;
      case 3: { i64 w2 = L[k].w, u2 = (i64)r.below((U64)WK); s.op("clock", {w2 + r.range(-1, 1), u2}); break; }
      default: { i64 w2, u2; at(L[k].w, L[k].u, edge_off(r, L[k].fit), w2, u2); s.op("clock", {w2, u2}); }
    }
    s.op("ask", {k, (i64)r.below(4)});
    if (r.chance(1, 5)) s.op("health", {k, (i64)r.below(64)});
  }
}
static void run_c24(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); glo_map_init(nullptr, nullptr);
    for (int i = 1; i <= 28; i++) glo_map_set_slot_id((u16)(1 + (i - 1) % 14), (u16)i);
    E24 E[3]; bool have[3] = {}; i64 tw = 2000, tu = 0; bool weekless = false;
    if (get_ephemeris_status_t(nullptr) != EPH_NULL || ephemeris_valid(nullptr, &E[0].e.toe)) c.fail("eph-null", "no ephemeris at all is not reported as such");
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      int k = (int)((U64)o.arg(0) % 3);
      if (o.name == "eph") {
        E24 &x = E[k]; ephemeris_t &e = x.e; memset(&e, (int)(s.seed & 255), sizeof e); memset(&e.data, 0, sizeof e.data);
        int code = (int)((U64)o.arg(1) % 64), sys = sys_of(code); if (sys < 0) code = 0, sys = GPS;
        e.sid.code = (code_t)code; e.sid.sat = (u16)sat_of(sys, o.arg(2));
        fill(e, sys, Rng((U64)o.arg(14) + 1));
        x.toe_w = o.arg(3); x.toe_u = o.arg(4); x.toc_w = o.arg(5); x.toc_u = o.arg(6); e.fit_interval = (u32)((U64)o.arg(7) % 604801);
        if (sys == GLO) e.data.glo.iod = (u8)o.arg(8); else if (sys != SBAS) { e.data.kepler.iodc = (u16)o.arg(8); e.data.kepler.iode = (u16)o.arg(9); }
        e.ura = (float)kURA[(U64)o.arg(10) % (sizeof kURA / sizeof *kURA)]; e.health_bits = (u8)o.arg(11); e.source = (u8)o.arg(12); e.valid = (u8)(o.arg(13) & 1);
        clean(x); have[k] = true;
      } else if (o.name == "upset") {   // one field of the stored ephemeris changes
        if (!have[k]) continue;
        E24 &x = E[k]; ephemeris_t &e = x.e; int sys = sysE(x); i64 v = o.arg(2);
        switch ((U64)o.arg(1) % 8) {
          case 0: e.valid ^= 1; break;
          case 1: e.health_bits = (u8)v; break;
          case 2: e.fit_interval = v % 4 ? (u32)(v * 300) : 0; break;
          case 3: x.toe_w = v % 3 ? x.toe_w + v % 3 : 0; break;
          case 4: if (sys == GLO) e.data.glo.iod ^= (u8)(1 << (v % 8)); else if (sys != SBAS) e.data.kepler.iodc ^= (u16)(1 << (v % 11)); break;
          case 5: if (sys != GLO && sys != SBAS) e.data.kepler.iode ^= (u16)(1 << (v % 11)); break;
          case 6: e.ura = (float)kURA[(U64)v % (sizeof kURA / sizeof *kURA)]; if (v == 63) e.ura = NAN; break;
          default: x.toc_u += v * 100 * S; if (x.toc_u >= WK) x.toc_w = x.toc_w > 0 ? x.toc_w + 1 : x.toc_w; break;
        }
        clean(x); c.fault("stored_field_changed");
      } else if (o.name == "clock") { i64 w = o.arg(0), u = (i64)((U64)o.arg(1) % (U64)WK); if (w < 2) w = 2; if (w > 32000) w = 32000; c.fault("clock_jump"); tw = w; tu = u; }
      else if (o.name == "step") { i64 d = (i64)((U64)o.arg(0) % (U64)WK); tu += d; while (tu >= WK) { tu -= WK; tw++; } c.time((double)d / S); }
      else if (o.name == "lostweek") { weekless = true; c.fault("week_lost"); }
      else if (o.name == "gotweek") weekless = false;
      else if (o.name == "health") {
        if (!have[k]) continue;
        { // accuracy indices as broadcast: 4 bits GPS and BeiDou, 8 bits Galileo
          static const float G[16] = {2, 2.8f, 4, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
          u8 i = (u8)(mix(s.seed, (U64)o.arg(1)) % (s.seed & 1 ? 256 : 18)); about_to("accuracy index %u", i);
          float g = decode_ura_index(i), b = decode_bds_ura_index(i), a = decode_sisa_index(i), wa = i < 50 ? i * 0.01f : i < 75 ? 0.5f + (i - 50) * 0.02f : i < 100 ? 1 + (i - 75) * 0.04f : i < 126 ? 2 + (i - 100) * 0.16f : i < 255 ? 6.0f : -1;
          if (g != (i < 16 ? G[i] : -1) || b != (i < 15 ? G[i] : -1)) c.fail("accuracy", "accuracy index %u is %g (GPS), %g (BeiDou)", i, g, b);
          if (std::fabs(a - wa) > 1e-4) c.fail("accuracy", "accuracy index %u is %g (Galileo), expected %g", i, a, wa);
          if (i < 16 && encode_ura(G[i]) != i) c.fail("accuracy", "accuracy %g is index %u", G[i], encode_ura(G[i]));
          if (i < 15 && encode_ura(G[i] + 0.1f) != i + 1) c.fail("accuracy", "accuracy %g is index %u", G[i] + 0.1f, encode_ura(G[i] + 0.1f));
        }
        ephemeris_t &e = E[k].e; int code = (int)((U64)o.arg(1) % 64), sys = sys_of(code); if (sys < 0) continue;
        about_to("health of code %d", code);
        bool h = ephemeris_healthy(&e, (code_t)code), w = healthy(e, code);
        if (h != w) c.fail("eph-health", "an ephemeris with health bits %u and accuracy %g is %shealthy for code %d", e.health_bits, e.ura, h ? "" : "un", code);
        if (sys == GPS || sys == QZS) {
          u8 b = (u8)(e.health_bits & 63); bool g = gps_signal_ok(b, code);
          if (check_6bit_health_word(b, (code_t)code) != g) c.fail("health-word", "6-bit health word %u for code %d reads %s", b, code, g ? "bad" : "good");
          bool g8 = (e.health_bits >> 5) == 0 && gps_signal_ok(e.health_bits & 31, code);
          if (check_8bit_health_word(e.health_bits, (code_t)code) != g8) c.fail("health-word", "8-bit health word %u for code %d reads %s", e.health_bits, code, g8 ? "bad" : "good");
          bool g25 = g && (b & 31) != 31;
          if (check_alma_page25_health_word(b, (code_t)code) != g25) c.fail("health-word", "page 25 health word %u for code %d reads %s", b, code, g25 ? "bad" : "good");
          u8 out = 0xA5; u32 w3 = (u32)(mix(s.seed, b) & ~(63u << 8)) | (u32)b << 8; shm_gps_decode_shi_ephemeris(w3, &out);
          if (out != b) c.fail("health-word", "health word %u is decoded as %u", b, out);
          c.ev("health %u code %d: %d", e.health_bits, code, h);
        }
      } else if (o.name == "ask") {
        if (!have[k]) continue;
        E24 &x = E[k]; const ephemeris_t before = x.e; int sys = sysE(x);
        i64 qw = weekless ? -1 : tw; const gps_time_t t = gt(qw, tu), t0 = t; Win w; int want = expect(x, qw, tu, w);
        static const char *N[] = {"null", "not valid", "undated", "no fit interval", "unhealthy", "outside its window", "bad satellite", "bad issue", "usable"};
        about_to("status of ephemeris code %d sat %d toe week %d", x.e.sid.code, x.e.sid.sat, x.e.toe.wn);
        int st = get_ephemeris_status_t(&x.e), lad = ladder(x);
        if (st != lad) { c.fail("eph-status", "ephemeris of code %d is reported '%s', expected '%s'", x.e.sid.code, N[st & 7 ? st : st], N[lad]); return; }
        about_to("validity of ephemeris code %d sat %d toe %d %.6f fit %u at %d %.6f", x.e.sid.code, x.e.sid.sat, x.e.toe.wn, x.e.toe.tow, x.e.fit_interval, t.wn, t.tow);
        int det = ephemeris_valid_detailed(&x.e, &t); bool ok = ephemeris_valid(&x.e, &t);
        c.ev("ask code %d at %d %.6f: %d (expected %d)", x.e.sid.code, t.wn, t.tow, det, want);
        if (ok != (det == EPH_VALID)) { c.fail("eph-disagree", "ephemeris_valid says %d, the detailed status is '%s'", ok, N[det]); return; }
        if (want >= 0 && det != want) { c.fail("eph-status", "ephemeris of code %d, reference %d %.6f, fit %u, asked at %d %.6f is '%s', expected '%s'", x.e.sid.code, x.e.toe.wn, x.e.toe.tow, x.e.fit_interval, t.wn, t.tow, N[det], N[want]); return; }
        if (want < 0) { c.probe("equally_near_weeks"); continue; }
        if (memcmp(&before, &x.e, sizeof before) || memcmp(&t, &t0, sizeof t)) { c.fail("eph-modified", "asking changed the ephemeris or the time"); return; }
        if (ephemeris_valid(&x.e, nullptr)) c.fail("eph-null", "valid at no time");
        if (w.set && w.bgn >= WK && x.toe_w > 0) {   // the lean version, given the window itself
          gps_time_t b = gt(w.bgn / WK, w.bgn % WK), e = gt(w.end / WK, w.end % WK), oc = gt(x.toc_w, x.toc_u), q = gt(w.t / WK, w.t % WK);
          bool in = w.t >= w.bgn && w.t <= w.end;
          if (w.t >= 0 && ephemeris_params_valid(&b, &e, nullptr, &q) != (in ? 1 : 0)) { c.fail("eph-window", "window test says %d", !in); return; }
          if (sys != GLO && w.t >= 0) { bool v = ephemeris_params_valid(&b, &e, &oc, &q); if (v != (want == EPH_VALID)) { c.fail("eph-window", "window test with clock time says %d", v); return; } }
          if (w.t == w.bgn || w.t == w.end) c.probe("asked_exactly_at_an_edge");
          if (w.t == w.bgn - 1 || w.t == w.end + 1) c.probe("asked_a_microsecond_outside");
        }
        // use of the ephemeris
        satellite_orbit_type_t orb = (satellite_orbit_type_t)((U64)o.arg(1) % 3); bool usable = want == EPH_VALID;
        struct Out { double p[3], v[3], a[3], ce, cr; } A, B, D; memset(&A, 0xC3, sizeof A); B = A; D = A; const Out paint = A;
        about_to("satellite state of code %d sat %d", x.e.sid.code, x.e.sid.sat);
        s8 r1 = calc_sat_state_orbit_type(&x.e, &t, orb, A.p, A.v, A.a, &A.ce, &A.cr), r2 = calc_sat_state(&x.e, &t, B.p, B.v, B.a, &B.ce, &B.cr);
        const double ref[3] = {4000e3, 3000e3, 3950e3}, rv[3] = {1, -2, 3}; double az, el, az2, el2, az3, el3, dop; memset(&az, 0xC3, 8); el = az2 = el2 = az3 = el3 = dop = az; const double pd = az;
        s8 r3 = calc_sat_az_el(&x.e, &t, ref, orb, &az, &el, true), r4 = calc_sat_doppler(&x.e, &t, ref, rv, orb, &dop);
        auto same = [](double a, double b) { return memcmp(&a, &b, 8) == 0; };
        if (!usable) {
          if (r1 != -1 || r2 != -1 || r3 != -1 || r4 != -1) { c.fail("eph-used", "an ephemeris that is '%s' was used (state %d %d, azimuth %d, Doppler %d)", N[want], r1, r2, r3, r4); return; }
          if (memcmp(&A, &paint, sizeof A) || memcmp(&B, &paint, sizeof B) || !same(az, pd) || !same(el, pd) || !same(dop, pd)) { c.fail("eph-used", "a refused query wrote a result ('%s')", N[want]); return; }
          c.fault(want == EPH_TOO_OLD ? "expired" : want == EPH_UNHEALTHY ? "unhealthy" : want == EPH_INVALID_IOD ? "issue_mismatch" : "not_usable");
        } else {
          if (r1 || r2 || r3 || r4) { c.fail("eph-refused", "a usable ephemeris of code %d was refused (state %d %d, azimuth %d, Doppler %d)", x.e.sid.code, r1, r2, r3, r4); return; }
          c.probe("used"); if (weekless) c.probe("used_without_week");
        }
        if (usable || o.arg(1) % 4 == 3) {   // explicitly unchecked use
          s8 r5 = calc_sat_state_n(&x.e, &t, orb, D.p, D.v, D.a, &D.ce, &D.cr), r6 = calc_sat_az_el(&x.e, &t, ref, orb, &az2, &el2, false);
          if (r5 || r6) { c.fail("eph-refused", "unchecked query refused (state %d, azimuth %d)", r5, r6); return; }
          wgsecef2azel(D.p, ref, &az3, &el3);
          if (!same(az2, az3) || !same(el2, el3)) { c.fail("eph-query", "azimuth query differs from the state query"); return; }
          if (usable && (memcmp(&A, &D, sizeof A) || !same(az, az2) || !same(el, el2))) { c.fail("eph-query", "checked and unchecked queries differ"); return; }
          if (usable) {
            double R = std::sqrt(D.p[0] * D.p[0] + D.p[1] * D.p[1] + D.p[2] * D.p[2]);
            if ((sys != SBAS && sys != GLO && !(R > 1e7 && R < 1e8)) || !std::isfinite(D.v[0] + D.v[1] + D.v[2] + D.a[0] + D.a[1] + D.a[2] + D.ce + D.cr)) { c.fail("eph-query", "state is not one of a satellite (radius %g)", R); return; }
            double los[3], m2 = 0, rate = 0; for (int i = 0; i < 3; i++) { los[i] = D.p[i] - ref[i]; m2 += los[i] * los[i]; rate += los[i] * (D.v[i] - rv[i]); } rate /= std::sqrt(m2);
            double f = sid_to_carr_freq(x.e.sid), wd = f * rate / 299792458.0;
            if (!(std::fabs(dop - wd) < 1e-6 * std::fabs(wd) + 1e-6)) { c.fail("eph-query", "Doppler is %.6f, the state gives %.6f", dop, wd); return; }
          }
        }
        c.nontrivial = true; c.state(mix((U64)x.e.sid.code * 16 + (U64)want, (U64)(w.set ? (w.t < w.bgn ? 0 : w.t == w.bgn ? 1 : w.t < w.end ? 2 : w.t == w.end ? 3 : 4) : 5) * 4 + weekless * 2 + (x.toe_w < 0)));
      }
    }
  });
}
// ---- C25
struct A25 { almanac_t a; i64 w, u; };
static void gen_c25(Rng &r, Scenario &s, U64) {
  i64 cw = r.chance(1, 6) ? r.pick<i64>({1, 2, 3, 1023, 1024, 29000}) : r.range(1, 4000);
  int n = (int)r.range(1, 2); struct { i64 w, u, fit; } L[2];
  for (int k = 0; k < n; k++) {
    int sys = r.chance(2, 3) ? GPS : SBAS;
    i64 fit = r.chance(1, 3) ? r.pick<i64>({518400, 604800, 86400, 1, 3, 0, 14400}) : 518400;
    i64 w = r.chance(1, 8) ? -1 : r.chance(1, 12) ? 0 : cw, u = (i64)r.below(148) * 4096 * S;
    s.op("alm", {k, codes_of[sys][r.chance(1, 2) ? 0 : r.below(codes_of[sys].size())], (i64)r.below(64), w, u, fit, r.chance(1, 2) ? 0 : (i64)r.below(256), r.chance(1, 10) ? 0 : 1, (i64)(r.next() >> 1)});
    L[k] = {w < 1 ? cw : w, u, fit};
  }
  int m = (int)r.range(3, 16);
  for (int i = 0; i < m; i++) {
    int k = (int)r.below(n);
    switch (r.below(12)) {
      case 0: s.op("upset", {k, (i64)r.below(4), (i64)r.below(256)}); break;
      case 1: s.op("step", {(i64)r.below(86400) * S + (r.chance(1, 2) ? (i64)r.below(S) : 0)}); break;
      case 2: s.op(r.chance(1, 2) ? "lostweek" : "gotweek"); break;
      case 3: s.op("clock", {L[k].w + r.range(-1, 1), (i64)r.below((U64)WK)}); break;
      default: { i64 w2, u2; at(L[k].w, L[k].u, edge_off(r, L[k].fit), w2, u2); s.op("clock", {w2, u2}); }
    }
    s.op("ask", {k, 0});
  }
}
static void run_c25(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    A25 X[2]; bool have[2] = {}; i64 tw = 2000, tu = 0; bool weekless = false;
    auto clean25 = [](A25 &x) { x.u = (i64)((U64)x.u % (U64)WK); if (x.w < -1 || x.w > 30000) x.w = 2000; if (x.a.fit_interval > 2000000) x.a.fit_interval = 518400; x.a.toa = gt(x.w, x.u); };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset(); int k = (int)((U64)o.arg(0) % 2);
      if (o.name == "alm") {
        A25 &x = X[k]; memset(&x.a, (int)(s.seed & 255), sizeof x.a); memset(&x.a.data, 0, sizeof x.a.data);
        int code = (int)((U64)o.arg(1) % 64), sys = sys_of(code); if (sys != GPS && sys != SBAS) code = 0, sys = GPS;
        x.a.sid.code = (code_t)code; x.a.sid.sat = (u16)sat_of(sys, o.arg(2)); x.w = o.arg(3); x.u = o.arg(4); x.a.fit_interval = (u32)((U64)o.arg(5) % 1000000); x.a.health_bits = (u8)o.arg(6); x.a.valid = (u8)(o.arg(7) & 1); x.a.ura = 900;
        Rng r((U64)o.arg(8) + 1);
        if (sys == GPS) { auto &q = x.a.data.kepler; q.m0 = r.uniform(-3, 3); q.ecc = r.uniform(0, 0.03); q.sqrta = 5153.7; q.omega0 = r.uniform(-3, 3); q.omegadot = -8e-9; q.w = r.uniform(-3, 3); q.inc = 0.96; q.af0 = r.uniform(-1e-4, 1e-4); q.af1 = r.uniform(-1e-11, 1e-11); }
        else { auto &q = x.a.data.xyz; q.pos[0] = 30e6; q.pos[1] = r.uniform(-29e6, 29e6); q.pos[2] = 2e3; q.vel[0] = r.uniform(-2, 2); q.acc[1] = 1e-6; }
        clean25(x); have[k] = true;
      } else if (o.name == "upset") {
        if (!have[k]) continue; A25 &x = X[k]; i64 v = o.arg(2);
        switch ((U64)o.arg(1) % 4) { case 0: x.a.valid ^= 1; break; case 1: x.a.health_bits = (u8)v; break; case 2: x.a.fit_interval = v % 4 ? (u32)(v * 3000) : 0; break; default: x.w = v % 3 ? x.w + v % 3 : 0; }
        clean25(x); c.fault("stored_field_changed");
      } else if (o.name == "clock") { i64 w = o.arg(0), u = (i64)((U64)o.arg(1) % (U64)WK); if (w < 2) w = 2; if (w > 32000) w = 32000; tw = w; tu = u; c.fault("clock_jump"); }
      else if (o.name == "step") { i64 d = (i64)((U64)o.arg(0) % (U64)WK); tu += d; while (tu >= WK) { tu -= WK; tw++; } c.time((double)d / S); }
      else if (o.name == "lostweek") { weekless = true; c.fault("week_lost"); }
      else if (o.name == "gotweek") weekless = false;
      else if (o.name == "ask") {
        if (!have[k]) continue;
        A25 &x = X[k]; const almanac_t before = x.a; int code = x.a.sid.code, sys = sys_of(code); i64 qw = weekless ? -1 : tw; const gps_time_t t = gt(qw, tu);
        int dhi = x.a.health_bits >> 5, b5 = x.a.health_bits & 31;
        bool h = (dhi == 0 || dhi == 2 || dhi == 3 || dhi == 4) && gps_signal_ok(b5, code);
        i64 ta = 0, tq = 0; bool settled = nearest(x.w, x.u, qw, tu, ta, tq); i64 d = std::llabs(ta - tq), half = (i64)(x.a.fit_interval / 2) * S;
        if (!settled) d = WK / 2;   // both choices are equally far
        bool dated = x.w != 0, want = x.a.valid && h && x.a.fit_interval && dated && d <= half;
        about_to("almanac of code %d sat %d: healthy, valid", code, x.a.sid.sat);
        bool gh = almanac_healthy(&x.a), got = almanac_valid(&x.a, &t);
        c.ev("ask code %d at %d %.6f: %d", code, t.wn, t.tow, got);
        if (gh != h) { c.fail("alm-health", "almanac health word %u for code %d reads %s", x.a.health_bits, code, gh ? "good" : "bad"); return; }
        if (got != want) { c.fail("alm-valid", "almanac of code %d (valid %u, health %u, fit %u, reference %d %.6f) is %susable at %d %.6f", code, x.a.valid, x.a.health_bits, x.a.fit_interval, x.a.toa.wn, x.a.toa.tow, got ? "" : "un", t.wn, t.tow); return; }
        if (memcmp(&before, &x.a, sizeof before)) { c.fail("alm-modified", "asking changed the almanac"); return; }
        if (d == half) c.probe("asked_exactly_at_an_edge"); if (d == half + 1) c.probe("asked_a_microsecond_outside");
        if (want) c.probe("usable"); else c.fault(!x.a.valid ? "not_valid" : !h ? "unhealthy" : "expired_or_undated");
        // queries: refused when not marked valid, undated, without a fit interval or (GPS) away from its reference time; a usable healthy almanac is served
        if (settled) {
          struct Out { double p[3], v[3], a[3], ce, cr; } A; memset(&A, 0xC3, sizeof A); const Out paint = A; double az, el, dop; memset(&az, 0xC3, 8); el = dop = az; const double pd = az; const double ref[3] = {4000e3, 3000e3, 3950e3};
          about_to("almanac state of code %d", code);
          s8 r1 = calc_sat_state_almanac(&x.a, &t, A.p, A.v, A.a, &A.ce, &A.cr), r2 = calc_sat_az_el_almanac(&x.a, &t, ref, &az, &el), r3 = calc_sat_doppler_almanac(&x.a, &t, ref, &dop);
          auto same = [](double a, double b) { return memcmp(&a, &b, 8) == 0; };
          bool refuse = !x.a.valid || !x.a.fit_interval || !dated || (sys == GPS && d > half);
          if (r1 != r2 || r1 != r3) { c.fail("alm-query", "queries disagree: %d %d %d", r1, r2, r3); return; }
          if (refuse && r1 == 0) { c.fail("alm-used", "an almanac (valid %u, fit %u, reference week %d, %.6f s away) was used", x.a.valid, x.a.fit_interval, x.a.toa.wn, (double)d / S); return; }
          if (r1 && (memcmp(&A, &paint, sizeof A) || !same(az, pd) || !same(el, pd) || !same(dop, pd))) { c.fail("alm-used", "a refused query wrote a result"); return; }
          if (want && !(x.a.health_bits >> 5) && r1 && !(x.w == -1 && x.a.fit_interval > 302000) && !(sys == SBAS && x.a.health_bits)) { c.fail("alm-refused", "a usable almanac of code %d, health 0x%x was refused", code, x.a.health_bits); return; }
          if (r1 == 0) {
            double az2, el2; wgsecef2azel(A.p, ref, &az2, &el2);
            if (!same(az, az2) || !same(el, el2)) { c.fail("alm-query", "azimuth query differs from the state query"); return; }
            double m2 = 0, rate = 0; for (int i = 0; i < 3; i++) { double l = A.p[i] - ref[i]; m2 += l * l; rate += l * A.v[i]; } rate /= std::sqrt(m2); double wd = sid_to_carr_freq(x.a.sid) * rate / 299792458.0;
            if (!(std::fabs(dop - wd) < 1e-6 * std::fabs(wd) + 1e-6)) { c.fail("alm-query", "Doppler is %.6f, the state gives %.6f", dop, wd); return; }
            c.probe("used"); 
            // the state is that of an ephemeris with these parameters
            ephemeris_t e; memset(&e, 0, sizeof e); e.sid = x.a.sid; e.toe = x.a.toa; e.valid = 1; e.fit_interval = x.a.fit_interval;
            if (sys == GPS) { auto &q = x.a.data.kepler; auto &z = e.data.kepler; z.m0 = q.m0; z.ecc = q.ecc; z.sqrta = q.sqrta; z.omega0 = q.omega0; z.omegadot = q.omegadot; z.w = q.w; z.inc = q.inc; z.af0 = q.af0; z.af1 = q.af1; z.toc = x.a.toa; }
            else { memcpy(e.data.xyz.pos, x.a.data.xyz.pos, 24); memcpy(e.data.xyz.vel, x.a.data.xyz.vel, 24); memcpy(e.data.xyz.acc, x.a.data.xyz.acc, 24); }
            Out B; memset(&B, 0xC3, sizeof B); calc_sat_state_n(&e, &t, MEO, B.p, B.v, B.a, &B.ce, &B.cr);
            if (memcmp(&A, &B, sizeof A)) { c.fail("alm-query", "the state is not that of the almanac's parameters"); return; }
          }
        }
        c.nontrivial = true; c.state(mix((U64)code * 4 + want * 2 + weekless, (U64)(d < half ? 0 : d == half ? 1 : 2) * 256 + x.a.health_bits));
      }
    }
  });
}
// ------------------------------------------------------------------ C45
// A constellation whose satellites fail and recover announces its health through three channels (own ephemeris, almanac pages, page 25 summaries), each of which loses, repeats or delays messages.
// A receiver keeps the last announcement of each channel and asks which signals it may use.
static void gen_c45(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(10, 60), nsv = (int)r.range(1, 5); std::vector<i64> sv; for (int i = 0; i < nsv; i++) sv.push_back(r.chance(1, 3) ? r.pick<i64>({1, 24, 25, 26, 29, 30, 32}) : r.range(1, 32));
  auto pick = [&] { return r.chance(1, 8) ? r.range(1, 32) : sv[r.below(sv.size())]; };
  for (int i = 0; i < n; i++) {
    switch (r.below(10)) {
      case 0: case 1: s.op("state", {pick(), r.chance(1, 4) ? 0 : r.chance(1, 8) ? 63 : (i64)r.below(64), r.chance(1, 2) ? 0 : (i64)r.below(8), r.chance(1, 3) ? (i64)r.below(16) : (i64)r.below(4), (i64)r.next() >> 1}); break;
      case 2: case 3: s.op("eph", {pick(), (i64)r.below(8), (i64)r.next() >> 1}); break;
      case 4: s.op("alm", {pick(), (i64)r.below(8), (i64)r.next() >> 1}); break;
      case 5: case 6: s.op("page25", {(i64)r.below(2), (i64)r.below(8), (i64)r.next() >> 1}); break;
      case 7: { int sys = (int)r.pick<i64>({SBAS, GLO, BDS, QZS, GAL}); s.op("other", {sys, (i64)r.below(64), r.chance(1, 2) ? 0 : r.chance(1, 2) ? (i64)1 << r.below(8) : (i64)r.below(256), r.chance(1, 4) ? (i64)r.below(12) : 4, r.chance(7, 8)}); break; }
      default: s.op("use", {pick(), (i64)r.below(13), (i64)r.below(256)});
    }
  }
}
static void run_c45(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    struct Truth { unsigned h6, dhi, ura; } tr[33] = {}, se[33] = {}; bool he[33] = {}, ha[33] = {}, hp[33] = {}; unsigned sa[33] = {}, sp[33] = {}; U64 fill = 1;
    ephemeris_t eph[33]; almanac_t alm[33]; u8 rec25[33] = {}; bool got25[33] = {}; memset(eph, 0, sizeof eph); memset(alm, 0, sizeof alm);
    for (int k = 1; k <= 32; k++) { eph[k].sid.code = CODE_GPS_L1CA; eph[k].sid.sat = (u16)k; }
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      int k = 1 + (int)((U64)(o.arg(0) - 1) % 32);
      if (o.name == "state") { bool up = tr[k].h6 == 0; tr[k] = {(unsigned)o.arg(1) & 63, (unsigned)o.arg(2) & 7, (unsigned)o.arg(3) & 15}; fill = (U64)o.arg(4) | 1; c.fault(tr[k].h6 ? "satellite_failed" : up ? "accuracy_changed" : "satellite_recovered"); }
      else if (o.name == "eph") {
        unsigned kind = (unsigned)((U64)o.arg(1) % 8); if (kind == 0) { c.fault("message_lost"); continue; }
        u32 f[3][8]; memset(f, 0, sizeof f); U64 rnd = mix((U64)o.arg(2), fill);
        f[0][0] = (u32)(1 + rnd % 1023) << 20 | (u32)(rnd >> 10 & 3) << 18 | tr[k].ura << 14 | tr[k].h6 << 8 | (u32)(rnd >> 14 & 63);   // week, codes on L2, accuracy, health, IODC and parity
        f[0][0] &= ~(u32)0xc0; f[0][4] = (u32)(rnd >> 20 & 0xffff) << 6 & 0x3fffffc0; for (int i = 1; i < 4; i++) f[0][i] = (u32)(mix(rnd, (U64)i) & 0x3fffffff);
        about_to("ephemeris of satellite %d, health %u", k, tr[k].h6);
        decode_ephemeris(f, &eph[k], 0); if (kind == 1) { decode_ephemeris(f, &eph[k], 0); c.fault("received_twice"); }
        he[k] = eph[k].valid; se[k] = tr[k]; u8 out = 0xA5; shm_gps_decode_shi_ephemeris(f[0][0], &out);
        if (out != tr[k].h6 || eph[k].health_bits != tr[k].h6) { c.fail("word-decoded", "satellite %d announces health %u, decoded as %u, in its ephemeris %u", k, tr[k].h6, out, eph[k].health_bits); return; }
        if (!he[k]) { c.fail("word-decoded", "a consistent ephemeris of satellite %d is not taken", k); return; }
      } else if (o.name == "alm") {
        unsigned kind = (unsigned)((U64)o.arg(1) % 8), id = kind == 2 ? 2 : 1; if (kind == 0) { c.fault("message_lost"); continue; }
        u32 w[8]; for (int i = 0; i < 8; i++) w[i] = (u32)(mix((U64)o.arg(2), (U64)i) & 0x3fffffff);
        w[0] = (w[0] & 0x003fffff) | id << 28 | (u32)k << 22; w[2] = (w[2] & ~(0xffu << 6)) | (tr[k].dhi << 5 | (tr[k].h6 & 31)) << 6;
        almanac_t a; memset(&a, 0xA5, sizeof a); about_to("almanac of satellite %d", k); bool ok = almanac_decode(w, &a);
        if (ok != (id == 1)) { c.fail("page-gate", "an almanac with data ID %u was %s", id, ok ? "taken" : "refused"); return; }
        if (!ok) { c.fault("foreign_page"); continue; }
        alm[k] = a; ha[k] = true; sa[k] = tr[k].dhi << 5 | (tr[k].h6 & 31);
      } else if (o.name == "page25") {
        bool upper = o.arg(0) & 1; unsigned kind = (unsigned)((U64)o.arg(1) % 8), id = kind == 2 ? 3 : 1, sv = kind == 3 ? 57 : upper ? 63 : 51; if (kind == 0) { c.fault("message_lost"); continue; }
        u32 w[8]; for (int i = 0; i < 8; i++) w[i] = (u32)(mix((U64)o.arg(2), 9 + (U64)i) & 0x3fffffff);
        w[0] = (w[0] & 0x003fffff) | id << 28 | sv << 22;
        auto put = [&](int word, int bit, unsigned v) { int sh = 30 - (bit + 5); u32 &x = w[word - 3]; x = (x & ~(63u << sh)) | v << sh; };
        if (!upper) for (int i = 1; i <= 24; i++) put(4 + (i - 1) / 4, 1 + 6 * ((i - 1) % 4), tr[i].h6);
        else for (int i = 25; i <= 32; i++) { if (i == 25) put(8, 19, tr[i].h6); else put(9 + (i - 26) / 4, 1 + 6 * ((i - 26) % 4), tr[i].h6); }
        almanac_health_t h; memset(&h, 0xA5, sizeof h); about_to("page 25"); bool ok = almanac_decode_health(w, &h);
        if (ok != (id == 1 && sv != 57)) { c.fail("page-gate", "a page with data ID %u and SV ID %u was %s", id, sv, ok ? "taken as health page" : "refused"); return; }
        if (!ok) { c.fault("foreign_page"); continue; }
        for (int i = 1; i <= 32; i++) { if (h.health_bits_valid >> (i - 1) & 1) { rec25[i] = h.health_bits[i - 1]; got25[i] = true; } if (upper == (i > 24)) { hp[i] = true; sp[i] = tr[i].h6; } }
        for (int i = 1; i <= 32; i++) if (got25[i] != hp[i] || rec25[i] != sp[i]) { c.fail("page25", "satellite %d: page 25 announced %s%u, the receiver has %s%u", i, hp[i] ? "" : "nothing ", sp[i], got25[i] ? "" : "nothing ", rec25[i]); return; }
      } else if (o.name == "other") {
        int sys = (int)((U64)o.arg(0) % 6); if (sys == GPS) continue;
        auto &cs = codes_of[sys]; ephemeris_t e; memset(&e, 0, sizeof e); e.sid.code = (code_t)cs[0]; e.sid.sat = (u16)sat_of(sys, o.arg(1)); e.health_bits = (u8)o.arg(2); e.valid = (u8)(o.arg(4) & 1);
        static const float U[] = {-1.0f, -0.5f, 0, 1, 2, 3000, 6144, 6145, 10000, -6144, 0.01f, 5}; e.ura = U[(U64)o.arg(3) % 12];
        for (int code : cs) { about_to("health of code %d", code); if (ephemeris_healthy(&e, (code_t)code) != healthy(e, code)) { c.fail("other-system", "ephemeris with health bits %u and accuracy %g, valid %d: code %d is read %s", e.health_bits, e.ura, e.valid, code, healthy(e, code) ? "bad" : "good"); return; } }
        c.probe("other_system"); c.nontrivial = true;
      } else if (o.name == "use") {
        auto &cs = codes_of[GPS]; auto &qs = codes_of[QZS]; int code = cs[(U64)o.arg(1) % cs.size()], qcode = qs[(U64)o.arg(1) % qs.size()]; u8 m = (u8)o.arg(2);
        about_to("use of satellite %d code %d", k, code);
        bool e = ephemeris_healthy(&eph[k], (code_t)code), we = !he[k] || gps_signal_ok((int)se[k].h6, code);
        if (e != we) { c.fail("use-ephemeris", "satellite %d announced health %u, accuracy index %u: code %d is %sused", k, se[k].h6, se[k].ura, code, e ? "" : "not "); return; }
        if (he[k]) for (int q : {code, qcode}) { bool g = check_6bit_health_word((u8)se[k].h6, (code_t)q); if (g != gps_signal_ok((int)se[k].h6, q)) { c.fail("use-word", "health word %u: code %d is %sused", se[k].h6, q, g ? "" : "not "); return; } }
        if (ha[k]) {
          unsigned d = sa[k] >> 5, b = sa[k] & 31; bool want = (d == 0 || d == 2 || d == 3 || d == 4) && gps_signal_ok((int)b, CODE_GPS_L1CA);   // parity errors and bad or old data in subframes 4 and 5 spoil an almanac
          if (almanac_healthy(&alm[k]) != want) { c.fail("use-almanac", "satellite %d announced almanac health 0x%x: it is %sused", k, sa[k], want ? "not " : ""); return; }
          for (int q : {code, qcode}) { bool g = check_8bit_health_word((u8)sa[k], (code_t)q); if (g != (d == 0 && gps_signal_ok((int)b, q))) { c.fail("use-word", "almanac health word 0x%x: code %d is %sused", sa[k], q, g ? "" : "not "); return; } }
          if (check_nav_dhi((u8)sa[k], m) != (d == 0 || (m >> d & 1))) { c.fail("use-word", "almanac health word 0x%x with errors 0x%x tolerated is read the wrong way", sa[k], m); return; }
        }
        if (got25[k]) for (int q : {code, qcode}) { bool g = check_alma_page25_health_word(rec25[k], (code_t)q); if (g != gps_signal_ok((int)sp[k], q)) { c.fail("use-page25", "page 25 announced %u: code %d is %sused", sp[k], q, g ? "" : "not "); return; } }
        c.ev("use %d %d: %d", k, code, e); if (!we) c.probe("signal_not_used"); if (he[k] && ha[k] && hp[k]) c.probe("all_channels"); if (he[k] && hp[k] && se[k].h6 != sp[k]) c.probe("channels_disagree");
        c.nontrivial = true; c.state(mix((U64)code * 64 + se[k].h6, (U64)sa[k] * 64 + sp[k]));
      }
    }
  });
}
#define REAL "ephemeris.c, almanac.c, shm.c, gnss_time.c, signal.c, glo_map.c, coord_system.c: all library code"
Prop g_props[] = {
  {"C24", gen_c24, run_c24, 300000, 3000000, "status = first failing condition of a reference ladder; window and clock-time tests in exact integer time (2^-20 s), weeks resolved to the nearest; queries refuse and leave outputs untouched, or agree with the unchecked query bit for bit", REAL, "none (receiver clock and stored data are simulated)", "signal x status x place in the window x unknown weeks"},
  {"C25", gen_c25, run_c25, 300000, 3000000, "reference predicate in exact integer time; queries refuse and leave outputs untouched or give the state of the almanac's own parameters", REAL, "none (receiver clock and stored data are simulated)", "signal x verdict x place in the window x health word"},
  {"C45", gen_c45, run_c45, 200000, 6000000, "the last announcement received on each channel, read with the tables of the interface specifications", "ephemeris.c, almanac.c, shm.c, signal.c: all library code", "none (satellites' failures and announcements are simulated)", "signal x health words of the three channels"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
