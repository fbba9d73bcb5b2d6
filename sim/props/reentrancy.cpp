// C29, C30, C31: several threads, each with data of its own, calling the library at the same time; the same calls alone, in another order and on another stack.
// A call is made by one line of the scenario: a thread, a family of functions and a seed from which its inputs are drawn. Everything a call yields is written down
// scalar by scalar (never padding), so two executions can be compared bit for bit.
#include "pvt.h"
#include <swiftnav/almanac.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/shm.h>
#include <swiftnav/troposphere.h>
extern "C" {
#include <swiftnav/bits.h>
#include <swiftnav/edc.h>
#include <swiftnav/set.h>
#include <swiftnav/sid_set.h>
}
// Inputs: half the time a value comes from a pool of two per argument place and run, so that calls of one run share keys and caches would be hit.
// A twin is a call whose inputs are those of another call except in one place, whichever that is: a result remembered under an incomplete key shows up there.
struct In {
  Rng r; U64 pool; U64 k = 0, twin = 0;   // twin: the argument place where this call differs from the one it is a twin of (0: no twin)
  In(U64 seed, U64 p, U64 t = 0) : r(seed), pool(p), twin(t) {}
  bool near = false, here = false;                            // at the twin's place: close to the other value, or any value
  Rng src() { k++; U64 x = r.chance(1, 2) ? mix(pool, k * 2 + r.below(2)) : r.next(); here = k == twin; return Rng(here && !near ? mix(x, 0x7717) : x); }
  double u(double a, double b) { Rng q = src(); double v = q.uniform(a, b); if (here && near) { double d = (b - a) * std::pow(10.0, -q.uniform(1, 12)); v = v + d <= b ? v + d : v - d; } return v; }
  i64 n(i64 a, i64 b) { Rng q = src(); i64 v = q.range(a, b); if (here && near) v = v < b ? v + 1 : a; return v; }
  bool flip(unsigned a, unsigned b) { Rng q = src(); return q.chance(a, b) != (here && near); }
  template <class T> T pick(std::initializer_list<T> l) { Rng q = src(); return q.pick(l); }
};
struct Out {
  std::vector<U64> v;
  void d(double x) { U64 b; memcpy(&b, &x, 8); v.push_back(b); }
  void f(float x) { uint32_t b; memcpy(&b, &x, 4); v.push_back(b); }
  void n(i64 x) { v.push_back((U64)x); }
  void ds(const double *x, size_t m) { for (size_t i = 0; i < m; i++) d(x[i]); }
  void bytes(const void *p, size_t m) { v.push_back(hash_bytes(p, m)); }
  void str(const char *s) { v.push_back(s ? hash_bytes(s, strlen(s)) : 1); }
  void t(const gps_time_t &g) { d(g.tow); n(g.wn); }
  void sid(const gnss_signal_t &s) { n(s.sat); n(s.code); }
};
static gps_time_t gtime(In &i) { gps_time_t t; memset(&t, 0, sizeof t); t.wn = (s16)i.n(1900, 2400); t.tow = i.u(0, 604799); if (i.flip(1, 2)) t.tow = std::floor(t.tow); return t; }
// ------------------------------------------------------------------ systems and signals
static const std::vector<int> CODES[6] = {
  {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GPS_L2CL, CODE_GPS_L2CX, CODE_GPS_L5I, CODE_GPS_L5Q, CODE_GPS_L5X, CODE_GPS_L1CI, CODE_GPS_L1CQ, CODE_GPS_L1CX, CODE_AUX_GPS},
  {CODE_SBAS_L1CA, CODE_SBAS_L5I, CODE_SBAS_L5Q, CODE_SBAS_L5X, CODE_AUX_SBAS},
  {CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GLO_L2P},
  {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX, CODE_BDS3_B5I, CODE_BDS3_B5Q, CODE_BDS3_B5X, CODE_BDS3_B7I, CODE_BDS3_B7Q, CODE_BDS3_B7X, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X, CODE_AUX_BDS},
  {CODE_QZS_L1CA, CODE_QZS_L1CI, CODE_QZS_L1CQ, CODE_QZS_L1CX, CODE_QZS_L2CM, CODE_QZS_L2CL, CODE_QZS_L2CX, CODE_QZS_L5I, CODE_QZS_L5Q, CODE_QZS_L5X, CODE_AUX_QZS},
  {CODE_GAL_E1B, CODE_GAL_E1C, CODE_GAL_E1X, CODE_GAL_E6B, CODE_GAL_E6C, CODE_GAL_E6X, CODE_GAL_E7I, CODE_GAL_E7Q, CODE_GAL_E7X, CODE_GAL_E8I, CODE_GAL_E8Q, CODE_GAL_E8X, CODE_GAL_E5I, CODE_GAL_E5Q, CODE_GAL_E5X, CODE_AUX_GAL}};
enum { S_GPS, S_SBAS, S_GLO, S_BDS, S_QZS, S_GAL };
static int satno(int sys, In &i) {
  switch (sys) { case S_GPS: return (int)i.n(1, 32); case S_SBAS: return (int)i.n(120, 138); case S_GLO: return (int)i.n(1, 28); case S_BDS: return (int)i.n(1, 63); case S_QZS: return (int)i.n(193, 202); default: return (int)i.n(1, 36); }
}
static gnss_signal_t asid(In &i, int sys = -1) {
  if (sys < 0) sys = (int)i.n(0, 5);
  gnss_signal_t s; memset(&s, 0, sizeof s); s.code = (code_t)CODES[sys][(size_t)i.n(0, (i64)CODES[sys].size() - 1)]; s.sat = (u16)satno(sys, i); return s;
}
static void put_eph(Out &o, const ephemeris_t &e, int sys) {
  o.sid(e.sid); o.t(e.toe); o.f(e.ura); o.n(e.fit_interval); o.n(e.valid); o.n(e.health_bits); o.n(e.source);
  if (sys == S_GLO) { auto &g = e.data.glo; o.d(g.gamma); o.d(g.tau); o.d(g.d_tau); o.ds(g.pos, 3); o.ds(g.vel, 3); o.ds(g.acc, 3); o.n(g.fcn); o.n(g.iod); }
  else if (sys == S_SBAS) { auto &x = e.data.xyz; o.ds(x.pos, 3); o.ds(x.vel, 3); o.ds(x.acc, 3); o.d(x.a_gf0); o.d(x.a_gf1); }
  else {
    auto &k = e.data.kepler; o.f(k.tgd.gps_s[0]); o.f(k.tgd.gps_s[1]);
    for (double x : {k.crc, k.crs, k.cuc, k.cus, k.cic, k.cis, k.dn, k.m0, k.ecc, k.sqrta, k.omega0, k.omegadot, k.w, k.inc, k.inc_dot, k.af0, k.af1, k.af2}) o.d(x);
    o.t(k.toc); o.n(k.iodc); o.n(k.iode);
  }
}
static ephemeris_t an_eph(In &i, int sys) {
  ephemeris_t e; memset(&e, 0, sizeof e); e.sid = asid(i, sys); e.toe = gtime(i); e.toe.tow = std::floor(e.toe.tow / 16) * 16; e.ura = 2; e.valid = 1; e.fit_interval = sys == S_GLO ? 2400 : 14400; e.source = (u8)i.n(0, 8);
  if (sys == S_GLO) {
    auto &g = e.data.glo; double a = i.u(0, 6.28), b = i.u(-1, 1);
    g.pos[0] = 25508e3 * std::cos(a) * std::cos(b); g.pos[1] = 25508e3 * std::sin(a) * std::cos(b); g.pos[2] = 25508e3 * std::sin(b);
    g.vel[0] = -3500 * std::sin(a) + i.u(-100, 100); g.vel[1] = 3500 * std::cos(a); g.vel[2] = i.u(-500, 500); g.acc[0] = i.u(-3e-6, 3e-6); g.acc[1] = i.u(-3e-6, 3e-6); g.acc[2] = 1e-6;
    g.gamma = i.u(-1e-9, 1e-9); g.tau = i.u(-1e-4, 1e-4); g.d_tau = 1e-8; g.fcn = (u16)i.n(1, 14); g.iod = (u8)i.n(0, 127);
  } else if (sys == S_SBAS) {
    auto &x = e.data.xyz; double a = i.u(-3.1, 3.1); x.pos[0] = 42164e3 * std::cos(a); x.pos[1] = 42164e3 * std::sin(a); x.pos[2] = i.u(-1e5, 1e5); x.vel[0] = i.u(-3, 3); x.vel[1] = i.u(-3, 3); x.acc[2] = 1e-5; x.a_gf0 = i.u(-1e-6, 1e-6); x.a_gf1 = 1e-12;
  } else {
    auto &k = e.data.kepler; bool far = sys == S_QZS || (sys == S_BDS && i.flip(1, 3));
    k.m0 = i.u(-3, 3); k.ecc = i.u(0, 0.03); k.sqrta = far ? 6493 : sys == S_GAL ? 5440.6 : sys == S_BDS ? 5282.6 : 5153.7; k.omega0 = i.u(-3, 3); k.omegadot = i.u(-9e-9, -7e-9); k.w = i.u(-3, 3); k.inc = i.u(0.01, 1.2);
    k.inc_dot = 1e-10; k.dn = i.u(3e-9, 5e-9); k.crs = i.u(-100, 100); k.crc = i.u(100, 300); k.cus = 1e-6; k.cuc = i.u(-1e-6, 1e-6); k.cis = 1e-8; k.cic = i.u(-1e-8, 1e-8); k.af0 = i.u(-1e-4, 1e-4); k.af1 = 1e-12; k.af2 = 0;
    k.tgd.gps_s[0] = (float)i.u(-1e-8, 1e-8); k.tgd.gps_s[1] = (float)i.u(-1e-8, 1e-8); k.toc = e.toe; k.iodc = (u16)i.n(0, 127); k.iode = k.iodc;
  }
  return e;
}
static gps_time_t near_time(In &i, const gps_time_t &t, double lo, double hi) { gps_time_t q = t; q.tow += i.u(lo, hi); if (q.tow < 0) { q.tow += 604800; q.wn--; } if (q.tow >= 604800) { q.tow -= 604800; q.wn++; } return q; }
static void a_place(In &i, double x[3]) { V3 p = llh_ecef(i.u(-1.57, 1.57), i.u(-3.1, 3.1), i.u(-500, 9000)); for (int k = 0; k < 3; k++) x[k] = p[k]; }
// ------------------------------------------------------------------ decoders
static void f_lnav(In &i, Out &o) {
  u32 w[3][8]; for (auto &r : w) for (auto &x : r) x = (u32)i.n(0, 0x3fffffff);
  ephemeris_t e; memset(&e, (int)i.n(0, 255), sizeof e); e.sid = asid(i, i.flip(1, 4) ? S_QZS : S_GPS); e.valid = 0; e.source = 0;
  int sys = is_qzss(e.sid.code) ? S_QZS : S_GPS;
  if (i.flip(1, 2)) { u32 iode = (u32)i.n(0, 255); w[0][5] = (w[0][5] & ~(255u << 22)) | iode << 22; w[1][0] = (w[1][0] & ~(255u << 22)) | iode << 22; w[2][7] = (w[2][7] & ~(255u << 22)) | iode << 22; }
    decode_ephemeris_with_wn_ref(w, &e, (double)i.n(0, 604799), (u16)i.n(1500, 3000)); if (e.valid) g_ctx->probe("lnav_accepted"); put_eph(o, e, sys);
}
static void f_bds(In &i, Out &o) {
  u32 w[3][10]; for (auto &r : w) for (auto &x : r) x = (u32)i.n(0, 0x3fffffff);
  ephemeris_t e; memset(&e, (int)i.n(0, 255), sizeof e); e.valid = 0; decode_bds_d1_ephemeris(w, asid(i, S_BDS), &e); put_eph(o, e, S_BDS);
  ionosphere_t io; memset(&io, 0, sizeof io); decode_bds_d1_iono(w[0], &io); for (double x : {io.a0, io.a1, io.a2, io.a3, io.b0, io.b1, io.b2, io.b3}) o.d(x); o.t(io.toa);
}
static void f_gal(In &i, Out &o) {
  u8 p[5][GAL_INAV_CONTENT_BYTE]; for (auto &r : p) for (auto &b : r) b = (u8)i.n(0, 255);
  int iod = (int)i.n(0, 1023); for (int k = 0; k < 5; k++) { setbitu(p[k], 0, 6, (u32)k + 1); if (k < 4) setbitu(p[k], 6, 10, (u32)(iod ^ (i.flip(1, 12) ? 1 : 0))); }
  ephemeris_t e; memset(&e, (int)i.n(0, 255), sizeof e); e.sid = asid(i, S_GAL); e.valid = 0; bool ok = decode_gal_ephemeris_safe(p, &e); o.n(ok); if (ok) g_ctx->probe("gal_accepted"); put_eph(o, e, S_GAL);
}
static void f_glo(In &i, Out &o) {
  glo_string_t s[5]; for (int k = 0; k < 5; k++) { for (auto &w : s[k].word) w = (u32)i.n(0, 0xffffffffLL); s[k].word[2] = (s[k].word[2] & 0x1fffff & ~(15u << 16)) | (u32)(k + 1) << 16; }
  auto put = [&](int k, int lo, int len, U64 v) { for (int b = 0; b < len; b++) { int n = lo + b - 1; u32 m = 1u << (n % 32); if (v >> b & 1) s[k].word[n / 32] |= m; else s[k].word[n / 32] &= ~m; } };
  static const int POS = 9; for (int k = 0; k < 3; k++) { put(k, POS, 27, (U64)i.n(0, 55296000) | (U64)i.n(0, 1) << 26); put(k, 41, 24, (U64)i.n(0, 4508876) | (U64)i.n(0, 1) << 23); put(k, 36, 5, (U64)i.n(0, 6) | (U64)i.n(0, 1) << 4); }
  put(0, 65, 12, (U64)i.n(0, 23) << 7 | (U64)i.n(0, 59) << 1 | (U64)i.n(0, 1)); put(1, 70, 7, (U64)i.n(1, 95)); put(3, 16, 11, (U64)i.n(1, 1461)); put(3, 11, 5, (U64)i.n(1, 24)); put(4, 32, 5, (U64)i.n(1, 20)); put(4, 10, 21, (U64)i.n(0, 2040109));
  for (int k = 0; k < 5; k++) if (!i.flip(1, 25)) {   // as transmitted: with its Hamming code
    auto get = [&](int n) { return s[k].word[(n - 1) / 32] >> ((n - 1) % 32) & 1; };
    unsigned x = 0, par = 0, pos = 0; for (int b = 9; b <= 85; b++) { do pos++; while (!(pos & (pos - 1))); if (get(b)) { x ^= pos; par ^= 1; } }
    put(k, 1, 7, x); put(k, 8, 1, par ^ (unsigned)__builtin_parity(x));
  }
  o.n(error_detection_glo(&s[(size_t)i.n(0, 4)])); o.n(extract_word_glo(&s[0], (u16)i.n(1, 54), (u8)i.n(1, 32)));
  ephemeris_t e; memset(&e, 0, sizeof e); e.sid = asid(i, S_GLO); glo_time_t tk, toe; memset(&tk, 0, sizeof tk); memset(&toe, 0, sizeof toe); u8 age = 0; float tg = 0;
  o.n(decode_glo_string_1(&s[0], &e, &tk)); o.n(decode_glo_string_2(&s[1], &e, &toe)); o.n(decode_glo_string_3(&s[2], &e, &toe)); o.n(decode_glo_string_4(&s[3], &e, &tk, &toe, &age)); o.n(decode_glo_string_5(&s[4], &e, &tk, &toe, &tg));
  if (o.v[o.v.size() - 5] && o.v.back()) g_ctx->probe("glo_strings_accepted");
  put_eph(o, e, S_GLO); for (auto *g : {&tk, &toe}) { o.n(g->nt); o.n(g->n4); o.n(g->h); o.n(g->m); o.d(g->s); } o.n(age); o.f(tg);
  ephemeris_t d; memset(&d, 0, sizeof d); d.sid = e.sid; utc_params_t u; memset(&u, 0, sizeof u); u.dt_ls = (s8)i.n(10, 30); u.dt_lsf = u.dt_ls; u.t_lse.wn = 1000; u.tot.wn = 1000; decode_glo_ephemeris(s, e.sid, i.flip(1, 2) ? &u : nullptr, &d); put_eph(o, d, S_GLO);
}
static void put_utcp(Out &o, const utc_params_t &u) { o.d(u.a0); o.d(u.a1); o.t(u.tot); o.t(u.t_lse); o.n(u.dt_ls); o.n(u.dt_lsf); }
static void f_pages(In &i, Out &o) {
  u32 w[8]; for (auto &x : w) x = (u32)i.n(0, 0x3fffffff);
  int page = (int)i.pick<i64>({51, 56, 25, 63, 3, -1}); if (page >= 0) w[0] = (w[0] & ~0x3fc00000u) | 1u << 28 | (u32)page << 22;
  if (page == 56 && i.flip(3, 4)) w[7] = (w[7] & ~(255u << 14)) | (u32)i.n(1, 7) << 14;
  almanac_ref_week_t rw; memset(&rw, 0, sizeof rw); o.n(almanac_decode_week_with_wn_ref(w, &rw, (u16)i.n(1000, 3000))); o.n(rw.wna); o.n(rw.toa);
  almanac_health_t h; memset(&h, 0, sizeof h); o.n(almanac_decode_health(w, &h)); o.n(h.health_bits_valid); o.bytes(h.health_bits, sizeof h.health_bits);
  almanac_t a; memset(&a, 0, sizeof a); u32 w2[8]; memcpy(w2, w, sizeof w); w2[0] = (w2[0] & ~0x3fc00000u) | 1u << 28 | (u32)i.n(1, 32) << 22;
  o.n(almanac_decode(w2, &a)); o.sid(a.sid); o.t(a.toa); o.f(a.ura); o.n(a.fit_interval); o.n(a.valid); o.n(a.health_bits); auto &k = a.data.kepler; for (double x : {k.m0, k.ecc, k.sqrta, k.omega0, k.omegadot, k.w, k.inc, k.af0, k.af1}) o.d(x);
  utc_params_t u; memset(&u, 0, sizeof u); o.n(decode_utc_parameters_with_wn_ref(w, &u, (u16)i.n(1000, 3000))); put_utcp(o, u);
  ionosphere_t io; memset(&io, 0, sizeof io); o.n(decode_iono_parameters(w, &io)); for (double x : {io.a0, io.a1, io.a2, io.a3, io.b0, io.b1, io.b2, io.b3}) o.d(x);
}
// ------------------------------------------------------------------ time
static utc_params_t some_utc(In &i) { utc_params_t u; memset(&u, 0, sizeof u); u.a0 = i.u(-1e-7, 1e-7); u.a1 = i.u(-1e-13, 1e-13); u.tot.wn = (s16)i.n(1900, 2400); u.tot.tow = 4096.0 * (double)i.n(0, 146); u.t_lse.wn = (s16)i.n(1900, 2400); u.t_lse.tow = 86400.0 * (double)i.n(0, 6) + 18; u.dt_ls = 18; u.dt_lsf = 19; return u; }
static void put_tm(Out &o, const utc_tm &u) { o.n(u.year); o.n(u.year_day); o.n(u.month); o.n(u.month_day); o.n(u.week_day); o.n(u.hour); o.n(u.minute); o.n(u.second_int); o.d(u.second_frac); }
static gps_time_t known_leap(In &i, double lo, double hi) {   // about one of the leap seconds that have been
  static const int L[7][2] = {{912, 172811}, {990, 432012}, {1356, 13}, {1512, 345614}, {1695, 15}, {1851, 259216}, {1930, 17}};
  int k = (int)i.n(0, 6); gps_time_t t; memset(&t, 0, sizeof t); t.wn = (s16)L[k][0]; t.tow = L[k][1]; return near_time(i, t, lo, hi);
}
static void f_calendar(In &i, Out &o) {
  gps_time_t t = gtime(i); utc_params_t p = some_utc(i), *q = i.flip(1, 2) ? &p : nullptr; if (i.flip(1, 6)) t = near_time(i, p.t_lse, -3, 3); else if (i.flip(1, 4)) { t = known_leap(i, -1, 2); q = nullptr; }
  utc_tm u; memset(&u, 0, sizeof u); gps2utc(&t, &u, q); put_tm(o, u); gps_time_t b; memset(&b, 0, sizeof b); utc2gps(&u, &b, q); o.t(b);
  o.d(gps2mjd_params(&t, q)); o.d(gps2mjd(&t)); o.d(get_gps_utc_offset(&t, q)); o.d(get_utc_gps_offset(&t, q)); o.n(is_leap_second_event(&t, q)); o.n(gps2doy(&t));
  s32 y, m, d, hh, mm; double s; gps2date_params(&t, &y, &m, &d, &hh, &mm, &s, q); o.n(y); o.n(m); o.n(d); o.n(hh); o.n(mm); o.d(s);
  o.t(date2gps_params((s32)i.n(1990, 2060), (s32)i.n(1, 12), (s32)i.n(1, 28), (s32)i.n(0, 23), (s32)i.n(0, 59), i.u(0, 59.999), q));
  double mjd = i.u(45000, 70000); mjd2date(mjd, &y, &m, &d, &hh, &mm, &s); o.n(y); o.n(m); o.n(d); o.n(hh); o.n(mm); o.d(s); put_tm(o, mjd2utc(mjd)); o.d(utc2mjd(&u)); o.t(mjd2gps(mjd)); o.d(date2mjd(2000 + (s32)i.n(0, 40), 2, 28, 3, 4, i.u(0, 59)));
  utc_tm v; memset(&v, 0, sizeof v); make_utc_tm(&t, &v); put_tm(o, v); o.d(utc2gmst(u, 0.1)); utc2date(&u, &y, &m, &d, &hh, &mm, &s); o.n(y); o.n(m); o.n(d); o.n(hh); o.n(mm); o.d(s); put_tm(o, date2utc(y, m, d, hh, mm, s)); time_t ut = gps2time(&t); o.n(unix_time_valid(&ut)); o.n(unix_time_valid_with_wn_ref(&ut, (u16)i.n(1900, 2400)));
}
static void f_epoch(In &i, Out &o) {
  gps_time_t a = gtime(i), b = gtime(i); utc_params_t p = some_utc(i), *q = i.flip(1, 2) ? &p : nullptr;
  if (i.flip(1, 3)) { a = near_time(i, p.t_lse, -0.9, 1.9); q = &p; } else if (i.flip(1, 4)) { a = known_leap(i, -1, 2); q = nullptr; }
  glo_time_t g = gps2glo(&a, q); o.n(g.nt); o.n(g.n4); o.n(g.h); o.n(g.m); o.d(g.s); o.t(glo2gps(&g, q));
  o.d(gpsdifftime(&a, &b)); gps_time_duration_t du; memset(&du, 0, sizeof du); o.n(gpsdifftime_week_second(&a, &b, &du)); o.d(du.seconds); o.n(du.weeks);
  gps_time_t x = a; add_secs(&x, i.u(-1e6, 1e6)); o.t(x); o.t(round_to_epoch(&x, (double)i.pick<i64>({1, 2, 5, 10}))); o.t(floor_to_epoch(&x, (double)i.pick<i64>({1, 2, 5, 10})));
  gps_time_t y = a; y.wn = -1; o.n(gps_time_match_weeks_safe(&y, &b)); o.t(y); o.n(gps_adjust_week_cycle((u16)i.n(0, 1023), (u16)i.n(1000, 3000))); o.n(gps_adjust_week_cycle256((u16)i.n(0, 255), (u16)i.n(1000, 3000)));
  time_t un = gps2time(&a); o.n(un); if (a.wn > 1876) o.t(time2gps_t(un)); o.n(gps_time_valid(&a)); o.n(gps_current_time_valid(&a)); o.n(gpstime_in_range(&a, &b, &x)); o.n(days_in_month((u16)i.n(1990, 2100), (u8)i.n(1, 12)));
  gps_time_t z; memset(&z, 0, sizeof z); z.wn = a.wn; z.tow = i.u(-2e6, 2e6); gps_time_t zz = z; o.n(normalize_gps_time_safe(&z)); o.t(z); normalize_gps_time(&zz); o.t(zz);
}
// ------------------------------------------------------------------ orbits
static void sat_state(In &i, Out &o, int sys) {
  ephemeris_t e = an_eph(i, sys); gps_time_t t = near_time(i, e.toe, -1000, 7200); satellite_orbit_type_t ot = i.pick<satellite_orbit_type_t>({MEO, GEO, IGSO, MEO}); if (sys != S_BDS) ot = MEO;
  double p[3] = {}, v[3] = {}, a[3] = {}, c = 0, cr = 0, ref[3], rv[3]; a_place(i, ref); for (auto &x : rv) x = i.u(-300, 300);
  o.n(calc_sat_state(&e, &t, p, v, a, &c, &cr)); o.ds(p, 3); o.ds(v, 3); o.ds(a, 3); o.d(c); o.d(cr);
  o.n(calc_sat_state_n(&e, &t, ot, p, v, a, &c, &cr)); o.ds(p, 3); o.ds(v, 3); o.ds(a, 3); o.d(c); o.d(cr);
  o.n(calc_sat_state_orbit_type(&e, &t, ot, p, v, a, &c, &cr)); o.ds(p, 3); o.ds(v, 3); o.ds(a, 3); o.d(c); o.d(cr);
  double az = 0, el = 0, dp = 0; o.n(calc_sat_az_el(&e, &t, ref, ot, &az, &el, i.flip(1, 2))); o.d(az); o.d(el); o.n(calc_sat_doppler(&e, &t, ref, rv, ot, &dp)); o.d(dp);
  if (i.flip(1, 3)) { gps_time_t u = t; u.wn = -1; o.n(ephemeris_valid_detailed(&e, &u)); if (i.flip(1, 2)) { ephemeris_t q = e; q.toe.wn = -1; if (sys != S_GLO && sys != S_SBAS) q.data.kepler.toc.wn = -1; o.n(ephemeris_valid_detailed(&q, &u)); } }
  o.n(ephemeris_valid_detailed(&e, &t)); o.n(ephemeris_valid(&e, &t)); o.n(get_ephemeris_status_t(&e)); o.n(ephemeris_healthy(&e, e.sid.code));
}
static void f_kepler(In &i, Out &o) { static const int S4[4] = {S_GPS, S_BDS, S_QZS, S_GAL}; sat_state(i, o, S4[i.n(0, 3)]); }
static void f_gloorbit(In &i, Out &o) { sat_state(i, o, S_GLO); }
static void f_sbas(In &i, Out &o) { sat_state(i, o, S_SBAS); }
static void f_almanac(In &i, Out &o) {
  int sys = (int)i.pick<i64>({S_GPS, S_GPS, S_SBAS}); almanac_t a; memset(&a, 0, sizeof a); a.sid = asid(i, sys); a.toa = gtime(i); a.toa.tow = std::floor(a.toa.tow / 4096) * 4096; a.ura = 10; a.valid = 1; a.fit_interval = 604800;
  if (sys == S_SBAS) { auto &x = a.data.xyz; x.pos[0] = 42164e3; x.pos[1] = i.u(-1e6, 1e6); x.vel[0] = i.u(-3, 3); }
  else { auto &k = a.data.kepler; k.m0 = i.u(-3, 3); k.ecc = i.u(0, 0.03); k.sqrta = 5153.7; k.omega0 = i.u(-3, 3); k.omegadot = -8e-9; k.w = i.u(-3, 3); k.inc = i.u(0.8, 1.1); k.af0 = i.u(-1e-4, 1e-4); k.af1 = 1e-12; }
  gps_time_t t = near_time(i, a.toa, -80000, 80000); double p[3] = {}, v[3] = {}, ac[3] = {}, c = 0, cr = 0, ref[3], az = 0, el = 0, d = 0; a_place(i, ref);
  o.n(calc_sat_state_almanac(&a, &t, p, v, ac, &c, &cr)); o.ds(p, 3); o.ds(v, 3); o.ds(ac, 3); o.d(c); o.d(cr);
  o.n(calc_sat_az_el_almanac(&a, &t, ref, &az, &el)); o.d(az); o.d(el); o.n(calc_sat_doppler_almanac(&a, &t, ref, &d)); o.d(d); o.n(almanac_valid(&a, &t)); o.n(almanac_healthy(&a));
}
static void f_ephmisc(In &i, Out &o) {
  int sys = (int)i.pick<i64>({S_GPS, S_BDS, S_QZS, S_GAL, S_GPS}); ephemeris_t e = an_eph(i, sys), f = an_eph(i, sys); gnss_signal_t s = asid(i, sys); s.sat = e.sid.sat; float tgd = 0;
  o.n(get_tgd_correction(&e, &s, &tgd)); o.f(tgd); o.n(ephemeris_equal(&e, &f)); o.n(ephemeris_equal(&e, &e)); if (sys == S_BDS) o.n(get_bds2_iod_crc(&e));
  almanac_t al; memset(&al, 0, sizeof al); al.sid = e.sid; al.toa = e.toe; al.ura = e.ura; al.fit_interval = e.fit_interval; al.valid = 1; almanac_t am = al; if (i.flip(1, 2)) am.data.kepler.m0 = i.u(-3, 3); if (sys == S_GPS) o.n(almanac_equal(&al, &am));   // only GPS, SBAS and GLONASS almanacs exist
  o.n(encode_ura((float)i.u(0, 7000))); o.f(decode_ura_index((u8)i.n(0, 15))); o.f(decode_sisa_index((u8)i.n(0, 255))); o.f(decode_bds_ura_index((u8)i.n(0, 15))); o.n(decode_fit_interval((u8)i.n(0, 1), (u16)i.n(0, 1023)));
}
static void f_bits(In &i, Out &o) {
  u8 b[64], c[64]; for (auto &x : b) x = (u8)i.n(0, 255); memcpy(c, b, sizeof c);
  o.n(crc24q(b, (u32)i.n(0, 64), (u32)i.n(0, 0xffffff))); o.n(crc24q_bits((u32)i.n(0, 0xffffff), b, (u32)i.n(0, 500), i.flip(1, 2)));
  u32 len = (u32)i.n(1, 32), pos = (u32)i.n(0, 400); o.n(getbitu(b, pos, (u8)len)); o.n(getbits(b, pos, (u8)len)); o.n((i64)getbitul(b, pos, (u8)i.n(1, 64))); o.n(getbitsl(b, pos, (u8)i.n(1, 64)));
  setbitu(c, pos, len, (u32)i.n(0, 0xffffffffLL)); setbitul(c, (u32)i.n(0, 400), 64, (U64)i.n(0, 1LL << 60)); bitcopy(c, (u32)i.n(0, 200), b, (u32)i.n(0, 200), (u32)i.n(1, 250)); bitshl(c, sizeof c, (u32)i.n(0, 300)); o.bytes(c, sizeof c);
  o.n(parity((u32)i.n(0, 0xffffffffLL))); o.n(count_bits_u8((u8)i.n(0, 255), (u8)i.n(0, 1))); o.n(count_bits_u16((u16)i.n(0, 65535), (u8)i.n(0, 1))); o.n(count_bits_u32((u32)i.n(0, 0xffffffffLL), (u8)i.n(0, 1))); o.n(count_bits_u64((U64)i.n(0, 1LL << 62), 1)); o.n(bytes_interleave((u8)i.n(0, 255), (u8)i.n(0, 255)));
}
// ------------------------------------------------------------------ the rest
static void f_coord(In &i, Out &o) {
  double a[3], b[3], c[3] = {}, d[3] = {}, llh[3] = {i.u(-1.57, 1.57), i.u(-3.14, 3.14), i.u(-1e4, 3e7)}; a_place(i, a); a_place(i, b); if (i.flip(1, 6)) { a[0] = a[1] = 0; }
  wgsecef2llh(a, c); o.ds(c, 3); wgsllh2ecef(llh, c); o.ds(c, 3); wgsecef2ned(a, b, d); o.ds(d, 3); wgsecef2ned_d(a, b, d); o.ds(d, 3); wgsned2ecef(llh, b, c); o.ds(c, 3); wgsned2ecef_d(d, b, c); o.ds(c, 3);
  double az = 0, el = 0; wgsecef2azel(c, a, &az, &el); o.d(az); o.d(el); double M[3][3]; wgs_ecef2ned_matrix(llh, M); o.ds(&M[0][0], 9); ecef2ned_matrix(b, M); o.ds(&M[0][0], 9); llhrad2deg(llh, c); o.ds(c, 3); llhdeg2rad(c, d); o.ds(d, 3);
}
static void f_atmos(In &i, Out &o) {
  gps_time_t t = gtime(i); ionosphere_t p; memset(&p, 0, sizeof p); p.toa = t; p.a0 = i.u(0, 3e-8); p.a1 = i.u(-1e-8, 3e-8); p.a2 = i.u(-1e-7, 1e-7); p.a3 = i.u(-1e-7, 1e-7); p.b0 = i.u(8e4, 1.4e5); p.b1 = i.u(-1e5, 1e5); p.b2 = i.u(-2e5, 2e5); p.b3 = i.u(-5e5, 5e5);
  double lat = i.u(-1.57, 1.57), lon = i.u(-3.14, 3.14), az = i.u(0, 6.28), el = i.u(0.01, 1.57); o.d(calc_ionosphere(&t, lat, lon, az, el, &p));
  o.d(calc_troposphere(i.u(1, 366), i.u(-1.57, 1.57), i.u(-500, 12000), i.u(-0.1, 1.57)));
}
static void f_geoid(In &i, Out &o) { for (int k = 0; k < 4; k++) o.f(get_geoid_offset(i.u(-1.5707, 1.5707), i.u(-6.28, 6.28))); o.n(get_geoid_model()); }
static void f_algebra(In &i, Out &o) {
  u32 n = (u32)i.n(1, 8), m = n + (u32)i.n(0, 4); double A[12 * 12], B[12 * 12], C[12 * 12] = {}, w[12], x[12] = {}, y[12] = {}, V[144] = {}; for (auto &q : A) q = i.u(-3, 3); for (auto &q : B) q = i.u(-3, 3); for (auto &q : w) q = i.u(0.1, 4);
  if (i.flip(1, 8)) for (u32 k = 0; k < n; k++) A[k] = 0;
  o.n(matrix_inverse(n, A, C)); o.ds(C, n * n); matrix_multiply(n, m, n, A, B, C); o.ds(C, n * n); o.n(matrix_wlsq_solve(m, n, A, B, w, x, V)); o.ds(x, n); o.ds(V, n * n);
  memset(C, 0, sizeof C); o.n(matrix_pseudoinverse(m, n, A, C)); o.ds(C, n * m); memset(C, 0, sizeof C); o.n(matrix_pseudoinverse(n, m, A, C)); o.ds(C, n * m); memset(C, 0, sizeof C); o.n(matrix_atawati(n, m, A, w, C)); o.ds(C, n * m); memset(C, 0, sizeof C); o.n(matrix_atwaiat(m, n, A, w, C)); o.ds(C, n * m); memset(C, 0, sizeof C); o.n(matrix_ataiat(m, n, A, C)); o.ds(C, n * m); memset(C, 0, sizeof C); o.n(matrix_ataati(m, n, A, C)); o.ds(C, n * m);
  memset(C, 0, sizeof C); o.n(matrix_atawati(m, n, A, w, C)); o.ds(C, n * m); memset(V, 0, sizeof V); memset(C, 0, sizeof C); o.n(qrdecomp_square(A, n, C, V)); o.ds(C, n * n); o.ds(V, n * n);
  qtmult(C, n, B, y); o.ds(y, n); memset(x, 0, sizeof x); o.n(qrsolve(A, n, n, B, x)); o.ds(x, n);
  double M[64], U[64] = {}, D[8] = {}; for (u32 a = 0; a < n; a++) for (u32 b = 0; b < n; b++) M[a * n + b] = (a == b ? 40 : 0) + A[std::min(a, b) * n + std::max(a, b)]; matrix_udu(n, M, U, D); o.ds(U, n * n); o.ds(D, n); matrix_reconstruct_udu(n, U, D, M); o.ds(M, n * n);
  matrix_transpose(n, m, A, C); o.ds(C, n * m); matrix_add_sc(n, m, A, B, i.u(-2, 2), C); o.ds(C, n * m); matrix_eye(n, V); matrix_triu(n, V); matrix_copy(n, m, A, C); matrix_multiply_diag_right(n, m, C, w); o.ds(C, n * m); o.ds(V, n * n);
  o.d(vector_dot(m, A, B)); o.d(vector_norm(m, A)); o.d(vector_mean(m, A)); o.d(vector_distance(m, A, B)); vector_cross(A, B, x); o.ds(x, 3); vector_normalize(m, B); o.ds(B, m); vector_add_sc(m, A, B, 2, y); vector_add(m, y, A, y); vector_subtract(m, y, B, y); o.ds(y, m);
  u32 rows[3] = {(u32)i.n(0, 7), (u32)i.n(0, 7), (u32)i.n(0, 7)}, cols[3] = {(u32)i.n(0, 7), (u32)i.n(0, 7), (u32)i.n(0, 7)}; submatrix(3, 3, 8, A, rows, cols, C); o.ds(C, 9); submatrix_ul(3, 3, 8, A, C); o.ds(C, 9);
  s32 ia[9], ib[9], ic[9] = {}; s64 la[9], lb[9], lc[9] = {}; for (int k = 0; k < 9; k++) { ia[k] = (s32)i.n(-999, 999); ib[k] = (s32)i.n(-999, 999); la[k] = ia[k] * 100000; lb[k] = ib[k]; } matrix_multiply_i(3, 3, 3, ia, ib, ic); matrix_multiply_s64(3, 3, 3, la, lb, lc); for (int k = 0; k < 9; k++) { o.n(ic[k]); o.n(lc[k]); }
  o.n(double_approx_eq(A[0], B[0])); o.n(double_within(A[0], B[0], i.u(0, 3)));
}
static void f_signal(In &i, Out &o) {
  constellation_t cn = (constellation_t)i.n(-1, CONSTELLATION_COUNT); o.n(constellation_valid(cn)); if (cn >= 0 && cn < CONSTELLATION_COUNT) { const char *z = constellation_to_string(cn); o.str(z); o.n(constellation_string_to_enum(z)); o.n(constellation_to_l1_code(cn)); o.n(constellation_to_l5_code(cn)); }
  sub_constellation_t sc = (sub_constellation_t)i.n(0, SUB_CONSTELLATION_COUNT - 1); { const char *z = sub_constellation_to_string(sc); o.str(z); o.n(sub_constellation_string_to_enum(z)); o.n(sub_constellation_to_constellation(sc)); }
  gnss_signal_t s = asid(i), q = asid(i); char t[32]; memset(t, 'x', sizeof t); o.n(sid_to_string(t, SID_STR_LEN_MAX, s)); o.bytes(t, sizeof t); memset(t, 'x', sizeof t); o.n(sat_code_to_string(t, 2, "-/", q.sat, q.code)); o.bytes(t, sizeof t);
  const char *cs = code_to_string(s.code); o.str(cs); o.n(code_string_to_enum(cs)); o.n(code_to_constellation(s.code)); o.n(sid_to_constellation(q)); o.d(sid_to_carr_freq(s)); o.d(sid_to_lambda(q)); o.n(sid_valid(s));
  o.n(code_to_chip_count(s.code)); o.d(code_to_chip_rate(s.code)); o.n(code_to_prn_period_ms(s.code)); o.n(code_requires_direct_acq(s.code)); o.f(code_to_sv_doppler_min(s.code)); o.f(code_to_sv_doppler_max(s.code)); o.n(code_requires_decoder(s.code)); o.f(code_to_phase_alignment(s.code)); o.n(code_to_sig_count(s.code));
  u16 ix = sid_to_code_index(s); o.n(ix); o.sid(sid_from_code_index(s.code, ix)); o.sid(construct_sid(s.code, s.sat)); o.n(constellation_to_sat_count(sid_to_constellation(s))); gnss_signal_t b = asid(i, S_SBAS); o.n(get_sbas_system(b)); if (get_sbas_system(b) != SBAS_NONE) { const u8 *l = get_sbas_prn_list(get_sbas_system(b)); o.n(l[0]); } o.n(sid_compare(s, q));
}
static void f_meas(In &i, Out &o) {
  navigation_measurement_t a, b; memset(&a, 0, sizeof a); a.raw_pseudorange = i.u(-1e6, 4e7); a.raw_measured_doppler = i.u(-5e3, 5e3); a.raw_carrier_phase = i.u(-1e8, 1e8); a.sat_clock_err = i.u(-1e-3, 1e-3); a.sat_clock_err_rate = i.u(-1e-9, 1e-9); a.sid = asid(i); a.flags = (u16)i.n(0, 127); b = a; b.sid = asid(i); if (i.flip(1, 2)) b.sid = a.sid; if (i.flip(1, 3)) b.raw_pseudorange = i.u(0, 1);
  o.n(encode_lock_time(i.u(0, 700))); o.d(decode_lock_time((u8)i.n(0, 255))); o.n(nav_meas_equal(&a, &b)); o.n(nav_meas_cmp(&a, &b)); o.n(nav_meas_flags_valid(a.flags)); o.n(pseudorange_valid(&a));
  o.d(nav_meas_cor_sat_clk_on_pseudorange(&a)); o.d(nav_meas_cor_sat_clk_on_measured_doppler(&a)); o.d(nav_meas_cor_sat_clk_on_carrier_phase(&a));
  measurement_std_t m, q; memset(&m, 0, sizeof m); m.sid = a.sid; m.iono_std = i.u(0, 2); m.range_std = i.u(0, 2); q = m; if (i.flip(1, 2)) q.tropo_std = i.u(0, 1); o.n(measurement_std_equal(&m, &q));
  glo_biases_t g; memset(&g, 0, sizeof g); g.mask = (u8)i.n(0, 15); g.l1of_bias_m = i.u(-9, 9); g.l1p_bias_m = i.u(-9, 9); g.l2of_bias_m = i.u(-9, 9); g.l2p_bias_m = i.u(-9, 9); glo_biases_t h = g; if (i.flip(1, 2)) h.l2p_bias_m = i.u(-9, 9);
  for (int c : CODES[S_GLO]) o.d(get_glonass_bias((code_t)c, g)); o.n(glonass_biases_are_equal(g, h)); o.n(is_bias_mask_flag_set((u8)i.n(0, 255), (u8)(1 << i.n(0, 7))));
  u8 hb = (u8)i.n(0, 255), sh = 0; gnss_signal_t gs = asid(i, S_GPS); o.n(check_8bit_health_word(hb, gs.code)); o.n(check_6bit_health_word(hb & 63, gs.code)); o.n(check_alma_page25_health_word(hb & 63, gs.code)); o.n(check_nav_dhi(hb, (u8)i.n(0, 255))); shm_gps_decode_shi_ephemeris((u32)i.n(0, 0x3fffffff), &sh); o.n(sh);
}
static void f_sets(In &i, Out &o) {
  gnss_sid_set_t s; sid_set_init(&s); gnss_signal_t v[24]; u32 n = (u32)i.n(0, 24); for (u32 k = 0; k < n; k++) { v[k] = asid(i); sid_set_add(&s, v[k]); } if (n && i.flip(1, 2)) sid_set_remove(&s, v[0]);
  o.n(sid_set_get_sat_count(&s)); o.n(sid_set_get_sig_count(&s)); for (u32 k = 0; k < n; k++) o.n(sid_set_contains(&s, v[k])); o.n(is_sid_set((u8)n, v));
  s32 a[20], b[20], oa[20] = {}, ob[20] = {}; u32 na = (u32)i.n(0, 20), nb = (u32)i.n(0, 20); s32 x = 0; for (u32 k = 0; k < na; k++) a[k] = x += (s32)i.n(1, 3); x = 0; for (u32 k = 0; k < nb; k++) b[k] = x += (s32)i.n(1, 3);
  s32 m = intersection(na, sizeof *a, a, oa, nb, sizeof *b, b, ob, cmp_s32_s32); o.n(m); for (s32 k = 0; k < m; k++) { o.n(oa[k]); o.n(ob[k]); }
  s32 e = (s32)i.n(0, 40); s32 r[21] = {}; o.n(insertion_index(na, sizeof *a, a, &e, cmp_s32_s32)); u32 z = insert_element(na, sizeof *a, a, r, &e, cmp_s32_s32); o.n(z); if (z <= 21) for (u32 k = 0; k < z; k++) o.n(r[k]); s32 q[21] = {}; z = remove_element(na, sizeof *a, a, q, &e, cmp_s32_s32); o.n(z); if (z <= na) for (u32 k = 0; k < z; k++) o.n(q[k]); o.n(is_set((u8)na, sizeof *a, a, cmp_s32_s32));
}
// ------------------------------------------------------------------ position solver
static void f_pvt(In &i, Out &o) {
  World w; w.tor.wn = (s16)i.n(1900, 2400); w.tor.tow = i.u(0, 604799); w.place(i.u(-1.5, 1.5), i.u(-3.1, 3.1), i.u(-100, 9000), i.u(-100, 100), i.u(-100, 100), i.u(-5, 5)); w.clk = i.u(-1e-3, 1e-3); w.drift = i.u(-1e-6, 1e-6);
  int n = (int)i.n(4, 14); bool one = i.flip(1, 2); double off = i.u(0, 6.28); for (auto &b : w.isb) b = i.u(-1e-7, 1e-7);
  for (int k = 0; k < n; k++) { Sat s; s.sg = one ? 0 : (int)i.n(0, NSIG - 1); s.sat = s.sig().lo + k % s.sig().n; w.point(s, off + 6.28 * k / n + i.u(-0.3, 0.3), i.u(0.15, 1.5), i.u(0, 6)); s.clk = i.u(-1e-4, 1e-4); s.cn0 = i.u(28, 50); s.lock = i.u(0, 50); s.pll = i.flip(3, 4); w.sats.push_back(s); }
  if (i.flip(1, 2)) w.sats[(size_t)i.n(0, n - 1)].spike = i.u(-20000, 20000); if (i.flip(1, 5)) w.sats[(size_t)i.n(0, n - 1)].spike = i.u(-2e6, 2e6);
  std::vector<navigation_measurement_t> m; for (auto &s : w.sats) m.push_back(w.measure(s, (U64)i.n(0, 1000)));
  gnss_solution so; dops_t dp; gnss_sid_set_t rm; memset(&so, (int)i.n(0, 255), sizeof so); memset(&dp, (int)i.n(0, 255), sizeof dp); sid_set_init(&rm); obs_mask_config_t mc; mc.cn0_mask.enable = i.flip(1, 4); mc.cn0_mask.threshold_dbhz = (float)i.n(25, 40);
  bool nr = i.flip(1, 4), nv = i.flip(1, 4); enum processing_strategy_t st = i.pick<enum processing_strategy_t>({GPS_ONLY, ALL_CONSTELLATIONS, ALL_CONSTELLATIONS, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY});
  s8 r = calc_PVT((u8)m.size(), m.data(), &w.tor, nr, nv, &mc, st, &so, &dp, &rm);
  o.n(r); o.ds(so.pos_llh, 3); o.ds(so.pos_ecef, 3); o.ds(so.vel_ned, 3); o.ds(so.vel_ecef, 3); o.ds(so.err_cov, 7); o.ds(so.vel_cov, 7); o.d(so.clock_offset); o.d(so.clock_offset_var); o.d(so.clock_drift); o.d(so.clock_drift_var); o.t(so.time); o.n(so.valid); o.n(so.velocity_valid); o.n(so.n_sats_used); o.n(so.n_sigs_used);
  o.d(dp.pdop); o.d(dp.gdop); o.d(dp.tdop); o.d(dp.hdop); o.d(dp.vdop); for (auto b : rm.sats) o.n((i64)b);
  if (g_ctx) g_ctx->probe(r == 0 ? "raim_ok" : r == 1 ? "raim_repair" : r == 2 ? "no_raim" : "rejected");
}
typedef void (*Fam)(In &, Out &);
struct FamDef { const char *name; Fam f; unsigned coarse; };
static const FamDef F29[] = {{"decode_ephemeris", f_lnav, 1}, {"decode_bds_d1_ephemeris", f_bds, 1}, {"decode_gal_ephemeris", f_gal, 1}, {"decode_glo", f_glo, 2}, {"almanac and page decoders", f_pages, 1}, {"calendar conversions", f_calendar, 1}, {"epoch arithmetic", f_epoch, 1},
  {"Kepler orbits", f_kepler, 2}, {"GLONASS orbits", f_gloorbit, 20}, {"SBAS orbits", f_sbas, 1}, {"almanac orbits", f_almanac, 2}, {"ephemeris attributes", f_ephmisc, 1}, {"bit fields and CRC", f_bits, 2}};
static const FamDef F30[] = {{"calc_PVT", f_pvt, 60}};
static const FamDef F31[] = {{"coordinates", f_coord, 1}, {"atmosphere", f_atmos, 1}, {"geoid", f_geoid, 1}, {"linear algebra", f_algebra, 20}, {"signals", f_signal, 1}, {"measurements", f_meas, 1}, {"sets", f_sets, 2}};
static void glo_slots() { glo_map_init(nullptr, nullptr); for (int i = 1; i <= 28; i++) glo_map_set_slot_id((u16)(1 + (i - 1) % 14), (u16)i); }
struct Call { int th, fam; U64 seed, twin; bool near; };
static void gen_fams(Rng &r, Scenario &s, U64 idx, int nf, bool slow) {
  int th = (int)r.range(2, slow ? 3 : 4), f1 = (int)(idx % (U64)nf), f2 = r.chance(1, 3) ? (int)r.below((U64)nf) : f1; s.op("pool", {(i64)(r.next() >> 1)});
  std::vector<std::pair<i64, i64>> made;   // (family, seed)
  bool marathon = !slow && r.chance(1, 16); if (marathon) th = 2;   // a long history, mostly of one family
  for (int t = 0; t < th; t++) {
    int n = slow ? (int)r.range(1, 2) : marathon ? (int)r.range(8, 20) : (int)r.range(1, 3);
    for (int k = 0; k < n; k++) {
      if (!made.empty() && r.chance(marathon ? 3 : 1, marathon ? 4 : 2)) { auto &m = made[r.below(made.size())]; s.op("call", {t, m.first, m.second, (i64)r.below(1 << 20) + 2}); }   // a twin
      else { i64 f = r.chance(1, 2) ? f1 : f2, sd = (i64)(r.next() >> 1); made.push_back({f, sd}); s.op("call", {t, f, sd, 0}); }
    }
  }
}
static void run_fams(Ctx &c, const Scenario &s, const FamDef *F, int nf) {
  std::vector<Call> calls; U64 pool = 0; unsigned coarse = 1;
  for (auto &o : s.ops) if (o.name == "pool") pool = (U64)o.arg(0); else if (o.name == "call") { Call k{(int)((U64)o.arg(0) % 4), (int)((U64)o.arg(1) % (U64)nf), (U64)o.arg(2), o.a.size() > 3 ? (U64)o.arg(3) : 0, false}; calls.push_back(k); coarse = std::max(coarse, F[k.fam].coarse); }
  auto fresh = [&] { restore_statics(); glo_slots(); shim_quiet_logging(); };   // the library as a process that has just started finds it
  fresh();
  std::map<std::pair<int, U64>, U64> places;   // how many inputs a call draws
  for (auto &k : calls) if (k.twin) {
    auto key = std::make_pair(k.fam, k.seed);
    if (!places.count(key)) { In in(k.seed, pool); Out o; budget_reset(400000000ULL); about_to("%s, inputs from seed %llu", F[k.fam].name, (unsigned long long)k.seed); F[k.fam].f(in, o); places[key] = std::max<U64>(1, in.k); }
    k.near = k.twin & 1; k.twin = 1 + (k.twin >> 1) % places[key]; c.probe("twin_calls");
  }
  std::vector<Out> ref(calls.size());
  auto one = [&](size_t k, Out &o) { about_to("%s, inputs from seed %llu", F[calls[k].fam].name, (unsigned long long)calls[k].seed); budget_reset(400000000ULL); In in(calls[k].seed, pool, calls[k].twin); in.near = calls[k].near; F[calls[k].fam].f(in, o); };
  auto same = [&](size_t k, const Out &o, const char *kind, const char *how) {
    if (o.v == ref[k].v) return true; size_t j = 0; while (j < o.v.size() && j < ref[k].v.size() && o.v[j] == ref[k].v[j]) j++;
    double a, b; U64 x = j < ref[k].v.size() ? ref[k].v[j] : 0, y = j < o.v.size() ? o.v[j] : 0; memcpy(&a, &x, 8); memcpy(&b, &y, 8);
    return !c.fail(kind, "%s (call %zu): result %zu is %llx (%.17g) alone and %llx (%.17g) %s", F[calls[k].fam].name, k, j, (unsigned long long)x, a, (unsigned long long)y, b, how);
  };
  for (size_t k = 0; k < calls.size(); k++) { fresh(); on_painted_stack(mix(s.seed, 1), [&] { one(k, ref[k]); }); c.ev("%s: %zu results", F[calls[k].fam].name, ref[k].v.size()); c.evbytes(ref[k].v.data(), ref[k].v.size() * 8); }
  for (size_t k = calls.size(); k-- > 0;) { Out o; on_painted_stack(mix(s.seed, 2 + k), [&] { one(k, o); }); c.fault("repeated_in_another_order_on_another_stack"); if (!same(k, o, "history", "when repeated after the other calls on another stack")) return; }
  for (size_t k = 0; k < calls.size(); k++) { Out o; on_painted_stack(mix(s.seed, 200 + k), [&] { one(k, o); }); c.fault("repeated_in_order_on_another_stack"); if (!same(k, o, "history", "when repeated after the calls before it on another stack")) return; }
  c.nontrivial = calls.size() > 1;
  for (size_t k = 0; k < calls.size(); k++) c.probe(F[calls[k].fam].name);
#ifndef SIM_ASAN
  std::vector<Out> con(calls.size()); std::vector<bool> done(calls.size()); U64 before = c.switches;
  {
    if (mix(s.seed, 9) & 1) { fresh(); c.fault("threads_start_in_a_fresh_process"); }   // nothing set up yet: the first calls race
    Sched sc(c, s); if (coarse > 1) sc.set_coarse(coarse);
    for (int t = 0; t < 4; t++) { bool any = false; for (auto &k : calls) any |= k.th == t; if (any) sc.spawn([&, t] { for (size_t k = 0; k < calls.size(); k++) if (calls[k].th == t) { one(k, con[k]); done[k] = true; } }, mix(s.seed, 77 + (U64)t)); }
    sc.run(); if (sc.deadlocked) { c.fail("stuck", "a call never returned"); return; }
  }
  for (size_t k = 0; k < calls.size(); k++) if (!done[k]) { c.fail("stuck", "call %zu never returned", k); return; } else if (!same(k, con[k], "interleaved", "while other threads were calling the library")) return;
  U64 sw = c.switches - before; c.fault("preempted_inside_a_call", sw); if (sw > 2) c.nontrivial = true; else c.nontrivial = false;
  c.state(mix(c.simhash, calls.empty() ? 0 : (U64)calls[0].fam));
#else
  c.state(mix(ref.empty() || ref[0].v.empty() ? 0 : ref[0].v[0], calls.empty() ? 0 : (U64)calls[0].fam));
#endif
}
#define NF(x) (int)(sizeof(x) / sizeof *(x))
static void gen29(Rng &r, Scenario &s, U64 i) { gen_fams(r, s, i, NF(F29), false); }
static void gen30(Rng &r, Scenario &s, U64 i) { gen_fams(r, s, i, NF(F30), true); }
static void gen31(Rng &r, Scenario &s, U64 i) { gen_fams(r, s, i, NF(F31), false); }
static void run29(Ctx &c, const Scenario &s) { run_fams(c, s, F29, NF(F29)); }
static void run30(Ctx &c, const Scenario &s) { run_fams(c, s, F30, NF(F30)); }
static void run31(Ctx &c, const Scenario &s) { run_fams(c, s, F31, NF(F31)); }
#define RULE "every result of every call, bit for bit: alone; repeated in reverse order on a differently painted stack; interleaved with the other threads' calls at memory-access granularity"
Prop g_props[] = {
  {"C29", gen29, run29, 78000, 2000000, RULE, "decoders, ephemeris.c, almanac.c, gnss_time.c, edc.c, bits.c, ionosphere decoders: all library code", "none (threads are simulated)", "hash of every context switch (thread, access count, next thread) and function family"},
  {"C30", gen30, run30, 12000, 400000, RULE, "single_epoch_solver.c and everything under it", "none (threads and measurements are simulated)", "hash of every context switch (thread, access count, next thread)"},
  {"C31", gen31, run31, 84000, 2000000, RULE, "coord_system.c, ionosphere.c, troposphere.c, geoid_model.c, linear_algebra.c, signal.c, nav_meas.c, shm.c, glonass_phase_biases.c, set.c, sid_set.c", "none (threads are simulated)", "hash of every context switch (thread, access count, next thread) and function family"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
