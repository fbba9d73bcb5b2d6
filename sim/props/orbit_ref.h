// Satellite positions and clocks propagated from the interface documents in long double.
#pragma once
#include <cmath>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>
typedef long double LD;
[[maybe_unused]] static const i64 U = 1 << 20, WK = 604800 * (i64)U;   // instants are exact integers in units of 2^-20 s
struct L3 { LD x, y, z; };
[[maybe_unused]] static L3 operator+(L3 a, L3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
[[maybe_unused]] static L3 operator-(L3 a, L3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
[[maybe_unused]] static L3 operator*(LD k, L3 a) { return {k * a.x, k * a.y, k * a.z}; }
[[maybe_unused]] static LD dot(L3 a, L3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
[[maybe_unused]] static LD len(L3 a) { return sqrtl(dot(a, a)); }
[[maybe_unused]] static const LD CC = 299792458.0L, PI = 3.14159265358979323846264338327950288L;
enum Sys { GPS, SBAS, GLO, BDS, QZS, GAL };
struct Code { int code, sys; double mhz; };
[[maybe_unused]] static const Code CODES[] = {   // carriers of the interface documents
  {CODE_GPS_L1CA, GPS, 1575.42}, {CODE_GPS_L2CM, GPS, 1227.60}, {CODE_GPS_L2CL, GPS, 1227.60}, {CODE_GPS_L2CX, GPS, 1227.60}, {CODE_GPS_L1P, GPS, 1575.42}, {CODE_GPS_L2P, GPS, 1227.60}, {CODE_GPS_L5I, GPS, 1176.45}, {CODE_GPS_L5Q, GPS, 1176.45}, {CODE_GPS_L5X, GPS, 1176.45},
  {CODE_GPS_L1CI, GPS, 1575.42}, {CODE_GPS_L1CQ, GPS, 1575.42}, {CODE_GPS_L1CX, GPS, 1575.42},
  {CODE_SBAS_L1CA, SBAS, 1575.42}, {CODE_SBAS_L5I, SBAS, 1176.45}, {CODE_SBAS_L5Q, SBAS, 1176.45}, {CODE_SBAS_L5X, SBAS, 1176.45}, {CODE_GLO_L1OF, GLO, 0}, {CODE_GLO_L2OF, GLO, 0},
  {CODE_BDS2_B1, BDS, 1561.098}, {CODE_BDS2_B2, BDS, 1207.14}, {CODE_BDS3_B1CI, BDS, 1575.42}, {CODE_BDS3_B5I, BDS, 1176.45}, {CODE_BDS3_B5Q, BDS, 1176.45}, {CODE_BDS3_B5X, BDS, 1176.45}, {CODE_BDS3_B7I, BDS, 1207.14}, {CODE_BDS3_B3I, BDS, 1268.52}, {CODE_BDS3_B3Q, BDS, 1268.52}, {CODE_BDS3_B3X, BDS, 1268.52},
  {CODE_QZS_L1CA, QZS, 1575.42}, {CODE_QZS_L1CI, QZS, 1575.42}, {CODE_QZS_L2CM, QZS, 1227.60}, {CODE_QZS_L2CX, QZS, 1227.60}, {CODE_QZS_L5I, QZS, 1176.45}, {CODE_QZS_L5Q, QZS, 1176.45}, {CODE_QZS_L5X, QZS, 1176.45},
  {CODE_GAL_E1B, GAL, 1575.42}, {CODE_GAL_E1C, GAL, 1575.42}, {CODE_GAL_E6B, GAL, 1278.75}, {CODE_GAL_E7I, GAL, 1207.14}, {CODE_GAL_E7X, GAL, 1207.14}, {CODE_GAL_E8I, GAL, 1191.795}, {CODE_GAL_E5I, GAL, 1176.45}, {CODE_GAL_E5Q, GAL, 1176.45}, {CODE_GAL_E5X, GAL, 1176.45},
  {CODE_GLO_L1P, GLO, 0}, {CODE_GLO_L2P, GLO, 0}, {CODE_BDS3_B1CQ, BDS, 1575.42}, {CODE_BDS3_B1CX, BDS, 1575.42}, {CODE_BDS3_B7Q, BDS, 1207.14}, {CODE_BDS3_B7X, BDS, 1207.14}, {CODE_QZS_L1CQ, QZS, 1575.42}, {CODE_QZS_L1CX, QZS, 1575.42}, {CODE_QZS_L2CL, QZS, 1227.60},
  {CODE_GAL_E1X, GAL, 1575.42}, {CODE_GAL_E6C, GAL, 1278.75}, {CODE_GAL_E6X, GAL, 1278.75}, {CODE_GAL_E7Q, GAL, 1207.14}, {CODE_GAL_E8Q, GAL, 1191.795}, {CODE_GAL_E8X, GAL, 1191.795}};
[[maybe_unused]] static const int NCODE = sizeof CODES / sizeof *CODES;
[[maybe_unused]] static int sat_of(int sys, i64 n) { U64 u = (U64)n; switch (sys) { case SBAS: return 120 + (int)(u % 19); case GLO: return 1 + (int)(u % 28); case BDS: return 1 + (int)(u % 63); case QZS: return 193 + (int)(u % 10); case GAL: return 1 + (int)(u % 36); default: return 1 + (int)(u % 32); } }
struct Sat {
  const Code *c = nullptr; ephemeris_t e{}; i64 toe = 0, toc = 0; bool geo = false, is_alm = false; almanac_t a{};
  LD hz() const { if (c->sys != GLO) return (LD)c->mhz * 1e6L; int k = 1 + (e.sid.sat - 1) % 14 - 8; return c->code == CODE_GLO_L1OF ? 1602e6L + k * 562500.0L : 1246e6L + k * 437500.0L; }
};
[[maybe_unused]] static gps_time_t gt(i64 u) { gps_time_t t; t.wn = (s16)(u / WK); t.tow = (double)(u % WK) / (double)U; return t; }
// group delay of the signal, as the system's document refers it to the broadcast clock
[[maybe_unused]] static LD group_delay(const Sat &s) {
  auto &k = s.e.data.kepler; int c = s.c->code; LD f = s.hz(), g = 1575.42e6L * 1575.42e6L / (f * f); bool five = s.c->mhz == 1176.45;
  switch (s.c->sys) {
    case GPS: case QZS: return g * (five ? k.tgd.gps_s[1] : k.tgd.gps_s[0]);
    case GAL: return g * (five ? k.tgd.gal_s[0] : k.tgd.gal_s[1]);
    case BDS: return c == CODE_BDS2_B1 || c == CODE_BDS3_B1CI || c == CODE_BDS3_B1CQ || c == CODE_BDS3_B1CX ? k.tgd.bds_s[0] : s.c->mhz == 1268.52 ? 0 : k.tgd.bds_s[1];
    case GLO: return c == CODE_GLO_L2OF || c == CODE_GLO_L2P ? s.e.data.glo.d_tau : 0;
    default: return 0;
  }
}
[[maybe_unused]] static LD kepler_E(LD M, LD e) { LD E = M + e * sinl(M); for (int i = 0; i < 40; i++) { LD d = (E - e * sinl(E) - M) / (1 - e * cosl(E)); E -= d; if (fabsl(d) < 1e-18L) break; } return E; }
[[maybe_unused]] static L3 kepler_pos(const Sat &s, LD dt) {
  auto &k = s.e.data.kepler; int sys = s.c->sys;
  LD gm = sys == GPS || sys == QZS ? 3.986005e14L : 3.986004418e14L, we = sys == BDS ? 7.2921150e-5L : 7.2921151467e-5L;
  LD a = (LD)k.sqrta * k.sqrta, n = sqrtl(gm / (a * a * a)) + k.dn, e = k.ecc, E = kepler_E(k.m0 + n * dt, e);
  LD nu = atan2l(sqrtl(1 - e * e) * sinl(E), cosl(E) - e), phi = nu + k.w, s2 = sinl(2 * phi), c2 = cosl(2 * phi);
  LD u = phi + k.cus * s2 + k.cuc * c2, r = a * (1 - e * cosl(E)) + k.crs * s2 + k.crc * c2, i = k.inc + k.inc_dot * dt + k.cis * s2 + k.cic * c2;
  LD x = r * cosl(u), y = r * sinl(u), sow = (LD)(s.toe % WK) / U;
  if (sys == BDS) { sow -= 14; if (sow < 0) sow += 604800; }   // toe is a BeiDou time of week
  LD om = k.omega0 + ((LD)k.omegadot - (s.geo ? 0 : we)) * dt - we * sow;
  L3 p = {x * cosl(om) - y * cosl(i) * sinl(om), x * sinl(om) + y * cosl(i) * cosl(om), y * sinl(i)};
  if (s.geo) {
    LD f = -5 * PI / 180; p = {p.x, p.y * cosl(f) + p.z * sinl(f), -p.y * sinl(f) + p.z * cosl(f)};
    LD th = we * dt; p = {p.x * cosl(th) + p.y * sinl(th), -p.x * sinl(th) + p.y * cosl(th), p.z};
  }
  return p;
}
[[maybe_unused]] static void glo_rhs(const LD y[6], const double ac[3], LD d[6]) {
  const LD mu = 3.986004418e14L, J2 = 1.08262575e-3L, ae = 6378136.0L, w = 7.292115e-5L;
  LD r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], r = sqrtl(r2), m = mu / (r2 * r), q = 1.5L * J2 * mu * ae * ae / (r2 * r2 * r), zz = 5 * y[2] * y[2] / r2;
  d[0] = y[3]; d[1] = y[4]; d[2] = y[5];
  d[3] = -m * y[0] - q * y[0] * (1 - zz) + w * w * y[0] + 2 * w * y[4] + ac[0];
  d[4] = -m * y[1] - q * y[1] * (1 - zz) + w * w * y[1] - 2 * w * y[3] + ac[1];
  d[5] = -m * y[2] - q * y[2] * (3 - zz) + ac[2];
}
[[maybe_unused]] static void glo_state(const Sat &s, LD dt, LD y[6]) {   // classical Runge-Kutta with steps of at most 10 s
  auto &g = s.e.data.glo; for (int i = 0; i < 3; i++) { y[i] = g.pos[i]; y[3 + i] = g.vel[i]; }
  int n = (int)ceill(fabsl(dt) / 10); LD h = n ? dt / n : 0;
  for (int j = 0; j < n; j++) {
    LD k1[6], k2[6], k3[6], k4[6], t[6];
    glo_rhs(y, g.acc, k1); for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k1[i];
    glo_rhs(t, g.acc, k2); for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k2[i];
    glo_rhs(t, g.acc, k3); for (int i = 0; i < 6; i++) t[i] = y[i] + h * k3[i];
    glo_rhs(t, g.acc, k4); for (int i = 0; i < 6; i++) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  }
}
struct St { L3 p, v, a; LD clk, rate; };
[[maybe_unused]] static L3 ref_pos(const Sat &s, LD dt) {
  if (s.c->sys == SBAS) { auto &x = s.e.data.xyz; L3 p = {x.pos[0], x.pos[1], x.pos[2]}, v = {x.vel[0], x.vel[1], x.vel[2]}, a = {x.acc[0], x.acc[1], x.acc[2]}; return p + dt * v + (dt * dt / 2) * a; }
  if (s.c->sys == GLO) { LD y[6]; glo_state(s, dt, y); return {y[0], y[1], y[2]}; }
  return kepler_pos(s, dt);
}
[[maybe_unused]] static St reference(const Sat &s, i64 t) {
  St r; LD de = (LD)(t - s.toe) / U, dc = (LD)(t - s.toc) / U; bool kep = false;
  if (s.c->sys == SBAS) { auto &x = s.e.data.xyz; r.clk = x.a_gf0 + de * x.a_gf1; r.rate = x.a_gf1; }
  else if (s.c->sys == GLO) { auto &g = s.e.data.glo; r.clk = -(LD)g.tau + g.gamma * de - group_delay(s); r.rate = g.gamma; }
  else { auto &k = s.e.data.kepler; r.clk = k.af0 + dc * (k.af1 + dc * k.af2) - group_delay(s); r.rate = k.af1 + 2 * dc * k.af2; kep = true; }
  LD dt = de - r.clk;   // time of transmission in system time
  if (s.c->sys == GLO) { LD y[6], d[6]; glo_state(s, dt, y); glo_rhs(y, s.e.data.glo.acc, d); r.p = {y[0], y[1], y[2]}; r.v = {y[3], y[4], y[5]}; r.a = {d[3], d[4], d[5]}; }
  else {
    const LD h = 2; L3 p0 = ref_pos(s, dt), p1 = ref_pos(s, dt + h), m1 = ref_pos(s, dt - h), p2 = ref_pos(s, dt + 2 * h), m2 = ref_pos(s, dt - 2 * h);
    r.p = p0; r.v = (1 / (12 * h)) * (8 * (p1 - m1) - (p2 - m2)); r.a = (1 / (12 * h * h)) * (16 * (p1 + m1) - (p2 + m2) - 30 * p0);
  }
  if (kep) r.clk += -2 * dot(r.p, r.v) / (CC * CC);   // relativistic effect of the eccentricity
  return r;
}
[[maybe_unused]] static void draw(Sat &s, Rng r) {   // a data set
  int sys = s.c->sys; auto wild = [&](double m) { return r.uniform(-m, m); };
  if (sys == GLO) {
    auto &g = s.e.data.glo; double in = r.uniform(1.0, 1.2), u = r.uniform(0, 6.28), O = r.uniform(0, 6.28), R = 25508e3 + wild(2e4), V = 3954 + wild(10), w = 7.292115e-5;
    double p[3] = {std::cos(u), std::sin(u) * std::cos(in), std::sin(u) * std::sin(in)}, v[3] = {-std::sin(u), std::cos(u) * std::cos(in), std::cos(u) * std::sin(in)};
    double P[3] = {R * (p[0] * std::cos(O) - p[1] * std::sin(O)), R * (p[0] * std::sin(O) + p[1] * std::cos(O)), R * p[2]}, Q[3] = {V * (v[0] * std::cos(O) - v[1] * std::sin(O)), V * (v[0] * std::sin(O) + v[1] * std::cos(O)), V * v[2]};
    Q[0] += w * P[1]; Q[1] -= w * P[0];
    for (int i = 0; i < 3; i++) { g.pos[i] = P[i]; g.vel[i] = Q[i]; g.acc[i] = wild(6e-6); }
    g.gamma = wild(9e-10); g.tau = wild(1.9e-3); g.d_tau = wild(1.3e-8); g.fcn = (u16)(1 + (s.e.sid.sat - 1) % 14); g.iod = (u8)r.below(128);
  } else if (sys == SBAS) {
    auto &x = s.e.data.xyz; double L = wild(3.14); x.pos[0] = 42164e3 * std::cos(L); x.pos[1] = 42164e3 * std::sin(L); x.pos[2] = wild(3e5);
    for (int i = 0; i < 3; i++) { x.vel[i] = wild(20); x.acc[i] = wild(1e-3); } x.a_gf0 = wild(9e-7); x.a_gf1 = wild(1e-10);
  } else {
    auto &k = s.e.data.kepler; bool high = sys == QZS || (sys == BDS && (s.geo || r.chance(1, 3)));
    k.ecc = r.chance(1, 6) ? r.uniform(0, 0.3) : r.chance(1, 20) ? 0 : r.uniform(0, 0.03); if (s.geo) k.ecc = r.uniform(0, 1e-3);
    k.sqrta = (high ? 6493.4 : sys == GAL ? 5440.6 : sys == BDS ? 5282.6 : 5153.7) + wild(3); k.m0 = wild(3.14); k.omega0 = wild(3.14); k.w = wild(3.14); k.omegadot = wild(1e-8);
    k.inc = s.geo ? r.uniform(0.0, 0.15) : sys == QZS ? r.uniform(0.6, 0.8) : r.uniform(0.8, 1.1); k.inc_dot = wild(1e-9); k.dn = wild(6e-9);
    k.crs = wild(900); k.crc = wild(900); k.cus = wild(5e-5); k.cuc = wild(5e-5); k.cis = wild(5e-5); k.cic = wild(5e-5);
    k.af0 = wild(9e-4); k.af1 = wild(3e-11); k.af2 = r.chance(1, 2) ? wild(3e-17) : 0;
    k.tgd.gps_s[0] = (float)wild(4e-8); k.tgd.gps_s[1] = (float)wild(4e-8); k.iodc = (u16)r.below(240); k.iode = k.iodc;
  }
}
