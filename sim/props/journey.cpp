// C41, C43: a receiver on a journey: legs along headings, climbs, jumps to poles, the date line and orbit; a clock that runs and jumps; ionospheric parameters uploaded by pages
// that may be lost, damaged or meant for others. At every stop all coordinate conversions and all model corrections are compared with long-double references of their definitions.
#include <cmath>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
#include <swiftnav/coord_system.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/troposphere.h>
#include "geoid_ref.inc"
typedef long double LD;
struct L3 { LD x, y, z; };
static L3 operator+(L3 a, L3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static L3 operator-(L3 a, L3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static L3 operator*(LD k, L3 a) { return {k * a.x, k * a.y, k * a.z}; }
static LD dot(L3 a, L3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static LD len(L3 a) { return sqrtl(dot(a, a)); }
static L3 of(const double d[3]) { return {d[0], d[1], d[2]}; }
static const LD PI = 3.14159265358979323846264338327950288L, FL = 1 / 298.257223563L, E2 = FL * (2 - FL), RA = 6378137.0L;
static L3 to_ecef(LD lat, LD lon, LD h) { LD N = RA / sqrtl(1 - E2 * sinl(lat) * sinl(lat)); return {(N + h) * cosl(lat) * cosl(lon), (N + h) * cosl(lat) * sinl(lon), (N * (1 - E2) + h) * sinl(lat)}; }
struct Axes { L3 n, e, d; };
static Axes axes(LD lat, LD lon) { return {{-sinl(lat) * cosl(lon), -sinl(lat) * sinl(lon), cosl(lat)}, {-sinl(lon), cosl(lon), 0}, {-cosl(lat) * cosl(lon), -cosl(lat) * sinl(lon), -sinl(lat)}}; }
// the receiver
struct Rx {
  LD lat = 0, lon = 0, h = 0, head = 0, speed = 0, climb = 0; bool polar = false;
  void wrap() { while (lon > PI) lon -= 2 * PI; while (lon < -PI) lon += 2 * PI; }
  void move(LD dt) {   // along a meridian-referenced heading on a sphere; over a pole to the other side
    LD R = RA + h, s = speed * dt / R; int n = (int)ceill(fabsl(s) / 0.02L); if (n > 400) n = 400; if (n < 1) n = 1;
    for (int i = 0; i < n; i++) {
      LD c = cosl(lat); lat += s / n * cosl(head); lon += s / n * sinl(head) / (c < 1e-3L ? 1e-3L : c);
      if (lat > PI / 2) { lat = PI - lat; lon += PI; head = PI - head; polar = true; } else if (lat < -PI / 2) { lat = -PI - lat; lon += PI; head = PI - head; polar = true; }
      LD before = lon; wrap(); if (fabsl(before - lon) > 1) { if (g_ctx) g_ctx->probe("date_line_or_pole_crossed"); }
    }
    h += climb * dt; if (h > 4e7L) { h = 4e7L; climb = 0; } if (h < -3e6L) { h = -3e6L; climb = 0; }
  }
};
static const LD UDEG = PI / 180e9L;   // a nano-degree
static void gen_place(Rng &r, Scenario &s, bool low) {
  i64 lat = r.range(-90000000000, 90000000000), lon = r.range(-180000000000, 180000000000), h = r.range(-500, 9000) * 1000;
  auto near = [&](i64 x, i64 lo, i64 hi) { i64 d = (i64)std::pow(10.0, r.uniform(0, 10.5)); if (r.chance(1, 3)) d = 0; x += r.chance(1, 2) ? d : -d; return x < lo ? lo : x > hi ? hi : x; };
  if (r.chance(1, 3)) lat = near(r.pick<i64>({-90, -89, -75, -74, -15, 0, 0, 15, 30, 75, 89, 88, 90, 90, -90, -88}) * 1000000000, -90000000000, 90000000000);
  if (r.chance(1, 3)) lon = near(r.pick<i64>({-180, -180, 0, 0, 1, -1, 2, 90, -90, 179, 180, 180, 178, -179}) * 1000000000, -180000000000, 180000000000);
  if (r.chance(1, 4)) h = low ? r.pick<i64>({0, -1, 1, 10999999, 11000000, 11000001, 12000000, 400000}) : r.pick<i64>({0, -11000000, 400000000, 800000000, 20200000000, 35786000000, -1000000000, -3000000000LL});
  s.op("place", {lat, lon, h});
}
static void gen_leg(Rng &r, Scenario &s) {
  s.op("leg", {r.chance(1, 3) ? r.pick<i64>({0, 90000, 180000, 270000}) : r.range(0, 360000), r.chance(1, 4) ? r.range(0, 8000000) : r.range(0, 300000), r.chance(1, 3) ? r.range(-20000, 20000) : 0});
}
static bool place_op(Rx &x, const Op &o) {
  if (o.name == "place") { x.lat = (LD)(o.arg(0) % 90000000001) * UDEG; x.lon = (LD)(o.arg(1) % 180000000001) * UDEG; x.h = (LD)(o.arg(2) % 40000000001) / 1000; if (x.h < -3e6L) x.h = -3e6L; return true; }
  if (o.name == "leg") { x.head = (LD)(o.arg(0) % 360000) / 1000 * PI / 180; x.speed = (LD)((U64)o.arg(1) % 8000001) / 1000; x.climb = (LD)(o.arg(2) % 100001) / 1000; return true; }
  return false;
}
// ------------------------------------------------------------------ C41
static void gen_c41(Rng &r, Scenario &s, U64) {
  gen_place(r, s, false); gen_leg(r, s); int n = (int)r.range(4, 16);
  for (int i = 0; i < n; i++) {
    switch (r.below(8)) {
      case 0: gen_place(r, s, false); break;
      case 1: gen_leg(r, s); break;
      default: s.op("step", {r.chance(1, 3) ? r.range(1, 1000) : r.range(1, 3600) * 1000});
    }
    if (r.chance(1, 2)) s.op("target", {(i64)r.below(4), r.range(-180000, 180000), r.range(-90000, 90000), (i64)std::pow(10.0, r.uniform(0, 10.4)), (i64)r.next() >> 1});
    s.op("look");
  }
}
static void run_c41(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); Rx x; LD tb = 0.5L, te = 0.3L, tr = 2e7L;   // target: bearing, elevation, range
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (place_op(x, o)) { if (o.name == "place") c.fault("teleported"); }
      else if (o.name == "step") { LD dt = (LD)((U64)o.arg(0) % 86400000) / 1000; x.move(dt); c.time((double)dt); }
      else if (o.name == "target") {
        tb = (LD)(o.arg(1) % 180001) / 1000 * PI / 180; te = (LD)(o.arg(2) % 90001) / 1000 * PI / 180; tr = (LD)((U64)o.arg(3) % 40000000001ULL) / 1000 + 1;
        switch ((U64)o.arg(0) % 4) { case 0: tb = roundl(tb / (PI / 2)) * (PI / 2); break; case 1: te = te > 0 ? PI / 2 : -PI / 2; break; default:; }
      } else if (o.name == "look") {
        LD P = fabsl(cosl(x.lat)) * (RA + x.h);
        L3 T = to_ecef(x.lat, x.lon, x.h); double llh[3] = {(double)x.lat, (double)x.lon, (double)x.h}, in[3], e[3], back[3] = {9, 9, 9e9};
        const LD big = RA + fabsl(x.h), tol = 4e-16L * big * 4 + 1e-8L;
        memcpy(in, llh, sizeof in); about_to("coordinates of latitude %.17g longitude %.17g height %.9g", llh[0], llh[1], llh[2]);
        wgsllh2ecef(in, e);
        if (memcmp(in, llh, sizeof in)) { c.fail("input-changed", "the conversion changed its input"); return; }
        L3 Td = to_ecef(llh[0], llh[1], llh[2]);
        if (!(len(of(e) - Td) < tol)) { c.fail("to-cartesian", "latitude %.15g longitude %.15g height %.9g: Cartesian coordinates are %.3Lg m off", llh[0], llh[1], llh[2], len(of(e) - Td)); return; }
        double te3[3] = {(double)T.x, (double)T.y, (double)T.z}; memcpy(in, te3, sizeof in);
        wgsecef2llh(in, back);
        if (memcmp(in, te3, sizeof in)) { c.fail("input-changed", "the conversion changed its input"); return; }
        c.ev("look %.12Lf %.12Lf %.4Lf: %.9g %.9g %.9g -> %.15g %.15g %.9g", x.lat, x.lon, x.h, te3[0], te3[1], te3[2], back[0], back[1], back[2]);
        LD dl = fabsl(back[0] - x.lat) * (RA + x.h), dn = fabsl(back[1] - x.lon), dh = fabsl(back[2] - x.h); if (dn > PI) dn = fabsl(2 * PI - dn);
        if (!(std::fabs(back[0]) <= M_PI_2 + 1e-15 && std::fabs(back[1]) <= M_PI + 1e-15)) { c.fail("range", "Cartesian %.9g %.9g %.9g: latitude %.17g longitude %.17g out of range", te3[0], te3[1], te3[2], back[0], back[1]); return; }
        LD deep = x.h < -1e6L ? 50 : 1;   // the conversion is less well conditioned far below the surface
        if (!(dl < deep * (tol + 2e-8L) && dh < deep * (tol + 2e-8L)) || !(dn * P < tol + 1e-8L)) { c.fail("to-geodetic", "Cartesian %.17g %.17g %.17g: latitude %.3Lg m, longitude %.3Lg m, height %.3Lg m off", te3[0], te3[1], te3[2], dl, dn * P, dh); return; }
        double again[3]; wgsllh2ecef(back, again);
        if (!(len(of(again) - of(te3)) < deep * (2 * tol + 4e-8L))) { c.fail("round-trip", "Cartesian %.17g %.17g %.17g comes back %.3Lg m off", te3[0], te3[1], te3[2], len(of(again) - of(te3))); return; }
        double dg[3], rd[3]; llhrad2deg(llh, dg); llhdeg2rad(dg, rd);
        for (int k = 0; k < 3; k++) {
          LD want = k < 2 ? llh[k] * 180 / PI : (LD)llh[k];
          if (!(fabsl(dg[k] - want) <= 1e-15L * fabsl(want) * 4) || !(fabsl((LD)rd[k] - llh[k]) <= 4e-15L * fabsl((LD)llh[k]))) { c.fail("degrees", "%.17g rad is converted to %.17g degrees and back to %.17g", llh[k], dg[k], rd[k]); return; }
        }
        // local frame: compared with the geodetic axes, except within a metre of the axis, where the longitude is not determined
        LD alat = x.lat, alon = x.lon; if (P < 1) { alat = back[0]; alon = back[1]; c.probe("at_a_pole"); }
        Axes A = axes(alat, alon); double M[3][3], M2[3][3], al[3] = {(double)alat, (double)alon, (double)x.h};
        wgs_ecef2ned_matrix(al, M); ecef2ned_matrix(te3, M2);
        LD W[3][3] = {{A.n.x, A.n.y, A.n.z}, {A.e.x, A.e.y, A.e.z}, {A.d.x, A.d.y, A.d.z}}, mtol = 1e-15L + 4e-9L / (P < 1 ? 1 : P) + deep * 4e-9L / (RA + x.h); if (P < 1) mtol = 1e-7L;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
          if (!(fabsl(M[i][j] - W[i][j]) < 4e-15L)) { c.fail("ned-matrix", "local frame at latitude %.15g longitude %.15g: element %d,%d is %.17g, expected %.17Lg", al[0], al[1], i, j, M[i][j], W[i][j]); return; }
          if (!(fabsl(M2[i][j] - W[i][j]) < mtol + 2e-8L / (RA + x.h))) { c.fail("ned-matrix", "local frame at %.9g %.9g %.9g: element %d,%d is %.17g, expected %.17Lg", te3[0], te3[1], te3[2], i, j, M2[i][j], W[i][j]); return; }
        }
        // a target in local coordinates, and back
        LD hz = tr * cosl(te); if (fabsl(te) > PI / 2 - 1e-12L) hz = 0;
        L3 loc = {hz * cosl(tb), hz * sinl(tb), -tr * sinl(te)}, D = loc.x * A.n + loc.y * A.e + loc.z * A.d, Q = of(te3) + D; double q[3] = {(double)Q.x, (double)Q.y, (double)Q.z}, v[3] = {(double)D.x, (double)D.y, (double)D.z}, nd[3], nv[3], qb[3], vb[3];
        LD rtol = tr * mtol * 2 + 1e-15L * tr * 4 + 2e-8L * tr / (RA + x.h), ctol = rtol + 4e-16L * (big + tr) * 4 + 1e-9L;
        about_to("target at %.9g %.9g %.9g seen from %.9g %.9g %.9g", q[0], q[1], q[2], te3[0], te3[1], te3[2]);
        wgsecef2ned(v, te3, nv); wgsecef2ned_d(q, te3, nd);
        if (!(len(of(nv) - loc) < rtol + 1e-12L)) { c.fail("to-local", "vector %.12g %.12g %.12g at %.9g %.9g %.9g: local coordinates are %.3Lg m off", v[0], v[1], v[2], te3[0], te3[1], te3[2], len(of(nv) - loc)); return; }
        if (!(len(of(nd) - loc) < ctol)) { c.fail("to-local", "point %.12g %.12g %.12g from %.9g %.9g %.9g: local coordinates are %.3Lg m off", q[0], q[1], q[2], te3[0], te3[1], te3[2], len(of(nd) - loc)); return; }
        wgsned2ecef(nv, te3, vb); wgsned2ecef_d(nd, te3, qb);
        if (!(len(of(vb) - of(v)) < 1e-15L * tr * 8)) { c.fail("from-local", "local vector %.12g %.12g %.12g at %.9g %.9g %.9g comes back %.3Lg m off", nv[0], nv[1], nv[2], te3[0], te3[1], te3[2], len(of(vb) - of(v))); return; }
        if (!(len(of(qb) - of(q)) < 1e-15L * (tr + big) * 8)) { c.fail("from-local", "local point %.12g %.12g %.12g from %.9g %.9g %.9g comes back %.3Lg m off", nd[0], nd[1], nd[2], te3[0], te3[1], te3[2], len(of(qb) - of(q))); return; }
        double az = 99, el = 99; wgsecef2azel(q, te3, &az, &el);
        LD xt = ctol / tr, se = xt + 1e-15L / (cosl(te) > 1e-8L ? cosl(te) : 1e-8L) + 1e-15L; if (fabsl(te) > PI / 2 - 1e-6L) se += 3e-8L + sqrtl(2 * xt);
        if (!(fabsl(el - te) < se)) { c.fail("elevation", "point %.12g %.12g %.12g from %.9g %.9g %.9g: elevation %.15g, expected %.15Lg", q[0], q[1], q[2], te3[0], te3[1], te3[2], el, te); return; }
        if (!(az >= 0 && az <= 2 * M_PI)) { c.fail("azimuth", "azimuth %.17g is outside [0, 2 pi]", az); return; }
        LD dz = fabsl(az - tb); while (dz > PI) dz = fabsl(dz - 2 * PI);
        if (hz > 0 && !(dz * cosl(te) < xt * 2 + 2e-15L)) { c.fail("azimuth", "point %.12g %.12g %.12g from %.9g %.9g %.9g: azimuth %.15g, expected %.15Lg", q[0], q[1], q[2], te3[0], te3[1], te3[2], az, tb); return; }
        if (x.h > 1e5L) c.probe("in_orbit"); if (x.h < -1e5L) c.probe("deep_inside"); if (hz == 0) c.probe("overhead_or_below"); if (fabsl(x.lon) > PI - 1e-6L) c.probe("at_the_date_line");
        c.nontrivial = true; c.state(mix((U64)(i64)floorl(x.lat * 57.3L / 3) * 1000 + (U64)(i64)floorl(x.lon * 57.3L / 3), (U64)(i64)floorl(log10l(fabsl(x.h) + 1))));
      }
    }
  });
}
// ------------------------------------------------------------------ C43
static const LD CC = 299792458.0L;
// IS-GPS-200 figure 20-4; where the formula jumps (ends of the cosine, midnight), both values are acceptable
static LD klobuchar(LD tow, LD lat, LD lon, LD az, LD el, const LD al[4], const LD be[4], LD &other) {
  LD E = el / PI, psi = 0.0137L / (E + 0.11L) - 0.022L, fi = lat / PI + psi * cosl(az); if (fi > 0.416L) fi = 0.416L; if (fi < -0.416L) fi = -0.416L;
  LD li = lon / PI + psi * sinl(az) / cosl(fi * PI), fm = fi + 0.064L * cosl((li - 1.617L) * PI), t = fmodl(43200 * li + tow, 86400); if (t < 0) t += 86400;
  LD F = 1 + 16 * (0.53L - E) * (0.53L - E) * (0.53L - E), A = 0, P = 0, m = 1; for (int k = 0; k < 4; k++) { A += al[k] * m; P += be[k] * m; m *= fm; } if (A < 0) A = 0; if (P < 72000) P = 72000;
  auto value = [&](LD tt, LD nudge) { LD x = 2 * PI * (tt - 50400) / P; if (fabsl(x) + nudge >= 1.57L) return F * 5e-9L * CC; LD x2 = x * x; return F * (5e-9L + A * (1 - x2 / 2 + x2 * x2 / 24)) * CC; };
  LD x = 2 * PI * (t - 50400) / P; other = value(t, 0);
  if (fabsl(fabsl(x) - 1.57L) < 1e-9L) other = value(t, fabsl(x) >= 1.57L ? -1e-8L : 1e-8L);
  else if (t < 1e-5L) other = value(86400, 0); else if (t > 86400 - 1e-5L) other = value(0, 0);
  return value(t, 0);
}
// UNB3m with Niell mapping functions
static LD lut(LD lat, const LD v[5]) { LD a = fabsl(lat); if (a <= 15) return v[0]; if (a >= 75) return v[4]; int i = (int)floorl((a - 15) / 15); return v[i] + (v[i + 1] - v[i]) * (a - 15 * (i + 1)) / 15; }
static LD niell(LD s, LD a, LD b, LD c) { return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c))); }
static LD unb3m(LD doy, LD latr, LD h, LD elr) {
  static const LD AV[8][5] = {{1013.25L, 1017.25L, 1015.75L, 1011.75L, 1013.00L}, {299.65L, 294.15L, 283.15L, 272.15L, 263.65L}, {6.30L, 6.05L, 5.58L, 5.39L, 4.53L}, {2.77L, 3.15L, 2.57L, 1.81L, 1.55L}, {75.0L, 80.0L, 76.0L, 77.5L, 82.5L},
    {1.2769934e-3L, 1.2683230e-3L, 1.2465397e-3L, 1.2196049e-3L, 1.2045996e-3L}, {2.9153695e-3L, 2.9152299e-3L, 2.9288445e-3L, 2.9022565e-3L, 2.9024912e-3L}, {62.610505e-3L, 62.837393e-3L, 63.721774e-3L, 63.824265e-3L, 64.258455e-3L}};
  static const LD AM[8][5] = {{0, -3.75L, -2.25L, -1.75L, -0.50L}, {0, 7, 11, 15, 14.5L}, {0, 0.25L, 0.32L, 0.81L, 0.62L}, {0, 0.33L, 0.46L, 0.74L, 0.30L}, {0, 0, -1, -2.5L, 2.5L},
    {0, 1.2709626e-5L, 2.6523662e-5L, 3.4000452e-5L, 4.1202191e-5L}, {0, 2.1414979e-5L, 3.0160779e-5L, 7.2562722e-5L, 11.723375e-5L}, {0, 9.0128400e-5L, 4.3497037e-5L, 84.795348e-5L, 170.37206e-5L}};
  static const LD MW[3][5] = {{5.8021897e-4L, 5.6794847e-4L, 5.8118019e-4L, 5.9727542e-4L, 6.1641693e-4L}, {1.4275268e-3L, 1.5138625e-3L, 1.4572752e-3L, 1.5007428e-3L, 1.7599082e-3L}, {4.3472961e-2L, 4.6729510e-2L, 4.3908931e-2L, 4.4626982e-2L, 5.4736038e-2L}};
  if (h > 11000) return 0;
  if (h < 0) h = 0;
  LD lat = latr * 180 / PI, el = elr * 180 / PI; if (el < 0.1L) el = 0.1L;
  LD ph = cosl((doy - 28 + (lat < 0 ? 182.625L : 0)) * 2 * PI / 365.25L), w[8]; for (int k = 0; k < 8; k++) w[k] = lut(lat, AV[k]) - lut(lat, AM[k]) * ph;
  LD P0 = w[0], T0 = w[1], be = w[2] / 1000, la = w[3], RH = w[4];
  LD es = 0.01L * expl(1.2378847e-5L * T0 * T0 - 1.9121316e-2L * T0 + 33.93711047L - 6343.1645L / T0), fw = 1.00062L + 3.14e-6L * P0 + 5.6e-7L * (T0 - 273.15L) * (T0 - 273.15L), e0 = RH / 100 * es * fw;
  LD Rd = 8314.34L / 28.9644L, k2p = 64.79L - 77.604L * (18.0152L / 28.9644L), k3 = 377600, ep = 9.80665L / 287.054L / be, T = T0 - be * h, Pp = P0 * powl(T / T0, ep), ee = e0 * powl(T / T0, ep * (la + 1));
  LD gl = atanl((1 - 6.6943799901413e-3L) * tanl(lat * PI / 180)), dg = 1 - 2.66e-3L * cosl(2 * gl) - 2.8e-7L * h, den = 9.784L * dg * (la + 1), Tm = T * (1 - be * Rd / den);
  LD zh = 2.2768e-3L / dg * Pp, zw = 1e-6L * (k2p + k3 / Tm) * Rd * ee / den, sn = sinl(el * PI / 180);
  LD mh = niell(sn, w[5], w[6], w[7]) + (1 / sn - niell(sn, 2.53e-5L, 5.49e-3L, 1.14e-3L)) * h / 1000, mw = niell(sn, lut(lat, MW[0]), lut(lat, MW[1]), lut(lat, MW[2]));
  return mh * zh + mw * zw;
}
// geoid height: cubic convolution over the 1 degree grid, linear within a degree of the poles; where a point lies within the resolution of a float from a cell's edge, both cells' values are acceptable
static LD gnode(int x, int y) { x %= 360; if (x < 0) x += 360; return GEOID_UM[x][y] * 1e-6L; }
static LD cub(const LD p[4], LD t) { return p[1] + t / 2 * (p[2] - p[0] + t * (2 * p[0] - 5 * p[1] + 4 * p[2] - p[3] + t * (3 * (p[1] - p[2]) + p[3] - p[0]))); }
static LD geoid_cell(int ix, int iy, LD fx, LD fy) {
  if (iy >= 1 && iy <= 178) { LD r[4]; for (int i = 0; i < 4; i++) { LD q[4]; for (int j = 0; j < 4; j++) q[j] = gnode(ix - 1 + i, iy - 1 + j); r[i] = cub(q, fy); } return cub(r, fx); }
  return (1 - fy) * ((1 - fx) * gnode(ix, iy) + fx * gnode(ix + 1, iy)) + fy * ((1 - fx) * gnode(ix, iy + 1) + fx * gnode(ix + 1, iy + 1));
}
static LD geoid_ref(LD lat, LD lon, LD &other) {
  LD y = lat * 180 / PI + 90, x = lon * 180 / PI; if (x < 0) x += 360; int iy = (int)floorl(y), ix = (int)floorl(x); if (iy > 179) iy = 179; if (iy < 0) iy = 0; LD fx = x - ix, fy = y - iy;
  LD v = geoid_cell(ix, iy, fx, fy); other = v; if (fabsl(y - 1) < 1e-4L) other = geoid_cell(ix, iy ? 0 : 1, fx, y - (iy ? 0 : 1)); if (fabsl(y - 179) < 1e-4L) { int k = iy == 179 ? 178 : 179; other = geoid_cell(ix, k, fx, y - k); }
  return v;
}
static void gen_c43(Rng &r, Scenario &s, U64) {
  auto upload = [&] {
    std::vector<i64> a = {(i64)r.below(8)};   // 0: lost, 1: meant for someone else, 2: other data ID, 6, 7: from a BeiDou satellite, else as sent
    bool wild = r.chance(1, 3); for (int k = 0; k < 8; k++) a.push_back(wild ? r.range(-128, 127) : k == 0 ? r.range(5, 30) : k < 4 ? r.range(-4, 4) : k == 4 ? r.range(35, 70) : r.range(-6, 6)); s.op("page", a);
  };
  s.op("clock", {r.range(1400, 4000), r.range(0, 604799999)}); upload(); gen_place(r, s, true); gen_leg(r, s); int n = (int)r.range(4, 16);
  for (int i = 0; i < n; i++) {
    switch (r.below(10)) {
      case 0: gen_place(r, s, true); break;
      case 1: gen_leg(r, s); break;
      case 2: upload(); break;
      case 3: s.op("clock", {r.range(1400, 4000), r.chance(1, 3) ? r.range(0, 7) * 86400000 - (r.chance(1, 2) ? 1 : 0) + (i64)r.below(2) : r.range(0, 604799999)}); break;
      default: s.op("step", {r.chance(1, 3) ? r.range(1, 1000) : r.range(1, 7200) * 1000});
    }
    int q = (int)r.range(1, 3); for (int j = 0; j < q; j++) s.op("sat", {r.range(0, 360000), r.chance(1, 5) ? r.pick<i64>({0, 90000, 100, 99, 101, 5000, -500}) : r.range(0, 90000)});
  }
}
static void run_c43(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); Rx x; ionosphere_t io; memset(&io, 0, sizeof io); bool have = false; i64 sent[8] = {}; i64 wn = 2000, ms = 0;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (place_op(x, o)) { if (o.name == "place") c.fault("teleported"); if (x.h > 13000) x.h = 13000; if (x.h < -1000) x.h = -1000; }
      else if (o.name == "clock") { wn = 1 + (i64)((U64)o.arg(0) % 4000); ms = (i64)((U64)o.arg(1) % 604800000); c.fault("clock_jump"); }
      else if (o.name == "step") { i64 d = (i64)((U64)o.arg(0) % 86400000); ms += d; if (ms >= 604800000) { ms -= 604800000; wn++; } x.move((LD)d / 1000); if (x.h > 13000) x.h = 13000; if (x.h < -1000) x.h = -1000; c.time((double)d / 1000); }
      else if (o.name == "page") {
        int kind = (int)((U64)o.arg(0) % 8); if (kind == 0) { c.fault("page_lost"); continue; }
        u32 b[8]; for (int k = 0; k < 8; k++) b[k] = (u32)(u8)o.arg(1 + (size_t)k);
        if (kind > 5) {   // subframe 1 of a BeiDou satellite: the words' other bits are not about the ionosphere
          u32 f[10]; for (int k = 0; k < 10; k++) f[k] = (u32)(mix(s.seed ^ (U64)o.arg(1), (U64)(k + 100 * ms)) & 0x3fffffff);
          auto put = [&](int word, int bit, int n, u32 v) { int sh = 30 - (bit + n - 1); u32 m = (1u << n) - 1; u32 &y = f[word - 1]; y = (y & ~(m << sh)) | (v & m) << sh; };
          put(5, 7, 8, b[0]); put(5, 15, 8, b[1]); put(6, 1, 8, b[2]); put(6, 9, 8, b[3]); put(6, 17, 6, b[4] >> 2); put(7, 1, 2, b[4]); put(7, 3, 8, b[5]); put(7, 11, 8, b[6]); put(7, 19, 4, b[7] >> 4); put(8, 1, 4, b[7]); put(3, 1, 13, (u32)(wn - 1356) & 0x1fff);
          ionosphere_t got; memset(&got, 0xA5, sizeof got); about_to("decoding a BeiDou subframe"); decode_bds_d1_iono(f, &got);
          if (wn > 1356 && got.toa.wn != wn) { c.fail("page", "BeiDou parameters of week %lld are dated %d", (long long)wn, got.toa.wn); return; }
          io = got; have = true; for (int k = 0; k < 8; k++) sent[k] = (s8)b[k]; c.fault("parameter_upload"); c.probe("beidou_parameters"); continue;
        }
        u32 id = kind == 2 ? 2 : 1, sv = kind == 1 ? 55 : 56, w[8] = {id << 28 | sv << 22 | b[0] << 14 | b[1] << 6, b[2] << 22 | b[3] << 14 | b[4] << 6, b[5] << 22 | b[6] << 14 | b[7] << 6, 0, 0, 0, 0, 0};
        ionosphere_t got; memset(&got, 0xA5, sizeof got); about_to("decoding an ionosphere page"); bool ok = decode_iono_parameters(w, &got);
        if (ok != (kind > 2)) { c.fail("page", "a page with data ID %u and SV ID %u was %s", id, sv, ok ? "accepted" : "refused"); return; }
        if (!ok) { c.fault("foreign_page"); continue; }
        io = got; have = true; for (int k = 0; k < 8; k++) sent[k] = (s8)b[k]; c.fault("parameter_upload");
      } else if (o.name == "sat") {
        LD az = (LD)((U64)o.arg(0) % 360001) / 1000 * PI / 180, el = (LD)(o.arg(1) % 90001) / 1000 * PI / 180; double A = (double)az, E = (double)el, lat = (double)x.lat, lon = (double)x.lon, h = (double)x.h;
        gps_time_t t; memset(&t, 0, sizeof t); t.wn = (s16)wn; t.tow = (double)ms / 1000;
        if (have && E > -0.2) {
          LD al[4], be[4]; static const int SA[4] = {-30, -27, -24, -24}, SB[4] = {11, 14, 16, 16}; for (int k = 0; k < 4; k++) { al[k] = ldexpl((LD)sent[k], SA[k]); be[k] = ldexpl((LD)sent[4 + k], SB[k]); }
          LD alt, want = klobuchar(t.tow, lat, lon, A, E, al, be, alt); ionosphere_t keep = io; about_to("ionospheric delay at %.9g %.9g azimuth %.9g elevation %.9g tow %.3f", lat, lon, A, E, t.tow);
          double d = calc_ionosphere(&t, lat, lon, A, E, &io); c.ev("iono %.6f", d);
          if (memcmp(&keep, &io, sizeof io)) { c.fail("input-changed", "the delay changed its parameters"); return; }
          if (!(fabsl(d - want) < 1e-6L || fabsl(d - alt) < 1e-6L)) { c.fail("ionosphere", "place %.9g %.9g, satellite at azimuth %.9g elevation %.9g, second of week %.3f: delay %.9g m, expected %.9Lg m", lat, lon, A, E, t.tow, d, want); return; }
          if (want > 6) c.probe("daytime_delay"); c.state(mix(1, (U64)(i64)(want * 4)));
        }
        u16 doy = gps2doy(&t); LD dr = doy; { static const int64_t Z = 0; (void)Z; }
        about_to("tropospheric delay on day %u at latitude %.9g height %.6g elevation %.9g", doy, lat, h, E);
        double d = calc_troposphere(doy, lat, h, E); LD want = unb3m(dr, lat, h, E); c.ev("tropo %.6f", d);
        bool edge = fabsl((LD)h - 11000) < 1e-6L;
        if (!edge && !(fabsl(d - want) < 1e-6L + 4e-6L * want)) { c.fail("troposphere", "day %u, latitude %.9g, height %.6g, elevation %.9g: delay %.9g m, expected %.9Lg m", doy, lat, h, E, d, want); return; }
        if (want == 0) c.probe("above_the_troposphere"); c.state(mix(2, (U64)(i64)(want * 10)));
        LD galt, gw = geoid_ref(lat, lon, galt); about_to("geoid height at %.9g %.9g", lat, lon); float g = get_geoid_offset(lat, lon), g2 = lon < 0 ? get_geoid_offset(lat, lon + 2 * M_PI) : g; c.ev("geoid %.4f", (double)g);
        for (float q : {g, g2}) if (!(fabsl(q - gw) < 2e-3L || fabsl(q - galt) < 2e-3L)) { c.fail("geoid", "latitude %.12g longitude %.12g: geoid height %.6f m, expected %.6Lf m", lat, lon, q, gw); return; }
        if (fabsl(x.lat) > 88.9L * PI / 180) c.probe("polar_cap"); c.nontrivial = true; c.state(mix(3, (U64)(i64)(floorl(x.lat * 57.3L) * 400 + floorl(x.lon * 57.3L))));
      }
    }
  });
}
Prop g_props[] = {
  {"C41", gen_c41, run_c41, 120000, 6000000, "every conversion against its long-double definition, every round trip, at every stop of the journey", "coord_system.c, linear_algebra.c: all library code", "none (the receiver's motion is simulated)", "3 degree cell x decade of height"},
  {"C43", gen_c43, run_c43, 120000, 6000000, "every delay and height against long-double implementations of IS-GPS-200, UNB3m with Niell mapping and cubic convolution over a reference copy of the EGM2008 grid", "ionosphere.c, troposphere.c, geoid_model.c, gnss_time.c: all library code", "none (receiver motion, clock and navigation pages are simulated)", "delay and place cells"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
