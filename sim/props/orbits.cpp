// C40: satellites flying along what they broadcast, tracked by a moving receiver while data sets change, clocks jump and weeks roll over.
// The reference propagates every system from its interface document in long double; velocities, accelerations and range rates are differences of its positions.
#include <cmath>
#include <cstdlib>
#include "orbit_ref.h"
#include "shims.h"
#include "sim.h"
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>
// ------------------------------------------------------------------ scenario
static void gen_c40(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 3); i64 w = r.range(2, 4000), base = w * WK + (r.chance(1, 3) ? r.pick<i64>({0, 16, 8, 13, 14, 604784, 604786, 604792, 3600, 7200, 604800 - 3600}) : (i64)r.below(604800 / 8) * 8) * U;
  auto upload = [&](int k) {
    int ci = (int)r.below(NCODE); if (r.chance(1, 3)) ci = (int)r.pick<i64>({0, 6, 12, 16, 17, 18, 18, 21, 28, 35, 37});
    i64 toe = base + (r.chance(1, 2) ? 0 : r.range(-4, 4) * 900 * U); bool alm = r.chance(1, 8);
    s.op("set", {k, ci, (i64)r.below(64), toe, r.chance(3, 4) ? toe : toe + r.range(-3, 3) * 600 * U, (i64)r.below(4), alm, (i64)(r.next() >> 1)});
  };
  for (int k = 0; k < n; k++) upload(k);
  s.op("place", {r.chance(1, 6) ? r.pick<i64>({-90, 0, 90}) * 1000000 : r.range(-90000000, 90000000), r.chance(1, 6) ? r.pick<i64>({0, 180, -180, 90}) * 1000000 : r.range(-180000000, 180000000), r.range(-400, 12000)});
  s.op("speed", {r.range(-300, 300), r.range(-300, 300), r.range(-50, 50)});
  s.op("clock", {base});
  int m = (int)r.range(4, 14);
  for (int i = 0; i < m; i++) {
    switch (r.below(10)) {
      case 0: upload((int)r.below(n)); break;
      case 1: s.op("clock", {base + r.range(-7200, 7200) * U + (i64)r.below(U)}); break;
      case 2: s.op("clock", {base + r.pick<i64>({0, 0, 1, -1, 30, -30, 900, -900, 901}) * U + (r.chance(1, 2) ? 0 : r.range(-3, 3))}); break;
      case 3: s.op("speed", {r.range(-300, 300), r.range(-300, 300), r.range(-50, 50)}); break;
      case 4: s.op(r.chance(1, 2) ? "lostweek" : "gotweek"); break;
      case 5: s.op("place", {r.range(-90000000, 90000000), r.range(-180000000, 180000000), r.range(-400, 12000)}); break;
      default: s.op("step", {r.chance(1, 3) ? (i64)r.below(10 * U) : (i64)r.below(900) * U + (r.chance(1, 3) ? (i64)r.below(U) : 0)});
    }
    int q = (int)r.range(1, 3); for (int j = 0; j < q; j++) s.op("ask", {(i64)r.below(n)});
  }
}
static void run_c40(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); glo_map_init(nullptr, nullptr); for (int i = 1; i <= 28; i++) glo_map_set_slot_id((u16)(1 + (i - 1) % 14), (u16)i);
    Sat S[4]; i64 now = 2000 * WK; bool weekless = false; L3 rp = {6378137, 0, 0}, rv = {0, 0, 0}, up = {1, 0, 0}, north = {0, 0, 1}, east = {0, 1, 0};
    LD lat = 0, lon = 0; i64 spd[3] = {0, 0, 0};
    auto local = [&] { up = {cosl(lat) * cosl(lon), cosl(lat) * sinl(lon), sinl(lat)}; north = {-sinl(lat) * cosl(lon), -sinl(lat) * sinl(lon), cosl(lat)}; east = {-sinl(lon), cosl(lon), 0}; rv = (LD)spd[0] * north + (LD)spd[1] * east + (LD)spd[2] * up; };
    local();
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset(); int k = (int)((U64)o.arg(0) % 4);
      if (o.name == "set") {
        Sat &x = S[k]; if (x.c) c.fault("data_set_cutover"); x = Sat(); x.c = &CODES[(U64)o.arg(1) % NCODE]; memset(&x.e, 0, sizeof x.e); memset((void *)&x.a, 0, sizeof x.a); int sys = x.c->sys;
        x.is_alm = o.arg(6) && (sys == GPS || sys == SBAS); x.geo = sys == BDS && o.arg(5) == 1; x.e.sid.code = (code_t)x.c->code; x.e.sid.sat = (u16)sat_of(sys, o.arg(2));
        x.toe = o.arg(3); if (x.toe < 2 * WK || x.toe > 30000 * WK) x.toe = 2000 * WK; x.toe -= x.toe % U; x.toc = o.arg(4); if (std::llabs(x.toc - x.toe) > 7200 * U) x.toc = x.toe; x.toc -= x.toc % U;
        if (sys != BDS && sys != GAL) x.e.fit_interval = sys == GLO ? 4200 : 14400; else { x.e.fit_interval = 14400; if (x.toc < x.toe) x.toc = x.toe; }
        draw(x, Rng((U64)o.arg(7) + 1)); if (sys == GLO && (U64)o.arg(7) % 4 == 0) x.e.data.glo.gamma = x.e.data.glo.tau = 0;   // a clock without error: the reference time itself is met exactly
        x.e.toe = gt(x.toe); x.e.valid = 1; x.e.ura = 2; x.e.source = EPH_SOURCE_BDS_D1_D2_NAV; 
        if (x.is_alm) {
          auto &a = x.a; x.toc = x.toe; a.sid = x.e.sid; a.toa = x.e.toe; a.fit_interval = 14400; a.valid = 1; a.ura = 2;
          if (sys == GPS) { auto &q = x.e.data.kepler; ephemeris_kepler_t z; memset(&z, 0, sizeof z); z.m0 = q.m0; z.ecc = q.ecc; z.sqrta = q.sqrta; z.omega0 = q.omega0; z.omegadot = q.omegadot; z.w = q.w; z.inc = q.inc; z.af0 = q.af0; z.af1 = q.af1; q = z; auto &d = a.data.kepler; d.m0 = q.m0; d.ecc = q.ecc; d.sqrta = q.sqrta; d.omega0 = q.omega0; d.omegadot = q.omegadot; d.w = q.w; d.inc = q.inc; d.af0 = q.af0; d.af1 = q.af1; }
          else { auto &q = x.e.data.xyz; q.a_gf0 = q.a_gf1 = 0; memcpy(a.data.xyz.pos, q.pos, 24); memcpy(a.data.xyz.vel, q.vel, 24); memcpy(a.data.xyz.acc, q.acc, 24); }
        }
        if (sys != GLO && sys != SBAS) x.e.data.kepler.toc = gt(x.toc);
      } else if (o.name == "clock") { i64 t = o.arg(0); if (t < 2 * WK || t > 30000 * WK) t = 2000 * WK; now = t; c.fault("clock_jump"); }
      else if (o.name == "step") { i64 d = (i64)((U64)o.arg(0) % (U64)WK); if (now / WK != (now + d) / WK) c.fault("week_rollover"); now += d; LD dt = (LD)d / U; rp = rp + dt * rv; c.time((double)dt);
        // the ground under a moving receiver: keep it near the surface
        LD h = len(rp); if (h > 6450e3L || h < 6340e3L) rp = (6370e3L / h) * rp; }
      else if (o.name == "lostweek") { weekless = true; c.fault("week_lost"); } else if (o.name == "gotweek") weekless = false;
      else if (o.name == "speed") { for (int i = 0; i < 3; i++) spd[i] = o.arg(i) % 1000; local(); }
      else if (o.name == "place") {
        lat = (LD)(o.arg(0) % 90000001) * 1e-6L * PI / 180; lon = (LD)(o.arg(1) % 180000001) * 1e-6L * PI / 180; LD h = (LD)(o.arg(2) % 20000), f = 1 / 298.257223563L, e2 = f * (2 - f), N = 6378137.0L / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
        rp = {(N + h) * cosl(lat) * cosl(lon), (N + h) * cosl(lat) * sinl(lon), (N * (1 - e2) + h) * sinl(lat)}; local();
      } else if (o.name == "ask") {
        Sat &x = S[k]; if (!x.c) continue; int sys = x.c->sys; i64 d = now - x.toe; LD ds = (LD)d / U;
        if (std::llabs(d) > (sys == GLO ? 2100 : 86400) * U) { c.probe("too_far_away"); continue; }
        if (now < 2 * WK) continue;
        gps_time_t t = gt(now); if (weekless) t.wn = -1;
        const satellite_orbit_type_t orb = x.geo ? GEO : sys == BDS && x.e.data.kepler.sqrta > 6000 ? IGSO : MEO;
        bool in = sys == BDS || sys == GAL ? d >= 0 && d <= 14400 * U : std::llabs(d) <= (sys == GLO ? 2100 : 7200) * U; if (sys == SBAS) in = true;
        if (in && sys != SBAS && sys != GLO && !x.is_alm) { i64 oc = x.toc - x.toe; in = sys == BDS || sys == GAL ? oc >= 0 : std::llabs(oc) <= 7200 * U; }
        St R = reference(x, now);
        struct Out { double p[3], v[3], a[3], ce, cr; } A; memset(&A, 0xC3, sizeof A);
        about_to("state of code %d sat %d, toe %d %.3f, at %d %.6f", x.c->code, x.e.sid.sat, x.e.toe.wn, x.e.toe.tow, t.wn, t.tow);
        int rc = x.is_alm ? calc_sat_state_almanac(&x.a, &t, A.p, A.v, A.a, &A.ce, &A.cr) : in ? calc_sat_state_orbit_type(&x.e, &t, orb, A.p, A.v, A.a, &A.ce, &A.cr) : calc_sat_state_n(&x.e, &t, orb, A.p, A.v, A.a, &A.ce, &A.cr);
        if (x.is_alm && rc && !in) continue;
        if (rc) { c.fail("no-state", "code %d sat %d: no state %.3Lf s from the reference time", x.c->code, x.e.sid.sat, ds); return; }
        L3 p = {A.p[0], A.p[1], A.p[2]}, v = {A.v[0], A.v[1], A.v[2]}, a = {A.a[0], A.a[1], A.a[2]};
        LD dp = len(p - R.p), dv = len(v - R.v), da = len(a - R.a), dc = fabsl(A.ce - R.clk), dr = fabsl(A.cr - R.rate);
        c.ev("ask %d sat %d dt %.6Lf: %.4f %.4f %.4f clk %.6e", x.c->code, x.e.sid.sat, ds, A.p[0], A.p[1], A.p[2], A.ce);
        const char *who = x.is_alm ? "almanac" : "ephemeris";
        if (!(dp < (sys == GLO ? 5e-3L : 1e-4L))) { c.fail("position", "%s of code %d sat %d%s, %.3Lf s from its reference time: position is %.6Lg m off", who, x.c->code, x.e.sid.sat, x.geo ? " (GEO)" : "", ds, dp); return; }
        if (!(dc < 1e-12L)) { c.fail("clock", "%s of code %d sat %d, %.3Lf s from its reference time: clock is %.6Lg s off", who, x.c->code, x.e.sid.sat, ds, dc); return; }
        if (!(dr < 1e-20L + 1e-9L * fabsl(R.rate))) { c.fail("clock-rate", "%s of code %d sat %d: clock rate is %g, expected %Lg", who, x.c->code, x.e.sid.sat, A.cr, R.rate); return; }
        if (!(dv < 1e-5L)) { c.fail("velocity", "%s of code %d sat %d%s, %.3Lf s from its reference time: velocity is %.6Lg m/s off the derivative of position", who, x.c->code, x.e.sid.sat, x.geo ? " (GEO)" : "", ds, dv); return; }
        if (!(da < 1e-8L)) { c.fail("acceleration", "%s of code %d sat %d%s, %.3Lf s from its reference time: acceleration is %.6Lg m/s2 off the derivative of velocity", who, x.c->code, x.e.sid.sat, x.geo ? " (GEO)" : "", ds, da); return; }
        // what the receiver sees
        double ref[3] = {(double)rp.x, (double)rp.y, (double)rp.z}, sp[3] = {(double)rv.x, (double)rv.y, (double)rv.z}, az = 9, el = 9, dop = 0;
        about_to("azimuth, elevation and Doppler of code %d sat %d", x.c->code, x.e.sid.sat);
        int r1 = x.is_alm ? calc_sat_az_el_almanac(&x.a, &t, ref, &az, &el) : calc_sat_az_el(&x.e, &t, ref, orb, &az, &el, in), r2 = x.is_alm ? calc_sat_doppler_almanac(&x.a, &t, ref, &dop) : in ? calc_sat_doppler(&x.e, &t, ref, sp, orb, &dop) : -9;
        if (r1 || (r2 && r2 != -9)) { c.fail("no-state", "code %d sat %d: no azimuth (%d) or Doppler (%d)", x.c->code, x.e.sid.sat, r1, r2); return; }
        L3 los = R.p - rp; LD range = len(los); L3 un = (1 / range) * los;
        // local axes of the receiver's place now (geodetic, by iteration)
        { LD f = 1 / 298.257223563L, e2 = f * (2 - f), q = hypotl(rp.x, rp.y), B = atan2l(rp.z, q * (1 - e2)); for (int i = 0; i < 50; i++) { LD N = 6378137.0L / sqrtl(1 - e2 * sinl(B) * sinl(B)); B = atan2l(rp.z + e2 * N * sinl(B), q); } LD L = q < 1e-6L ? lon : atan2l(rp.y, rp.x);
          L3 u2 = {cosl(B) * cosl(L), cosl(B) * sinl(L), sinl(B)}, n2 = {-sinl(B) * cosl(L), -sinl(B) * sinl(L), cosl(B)}, e2v = {-sinl(L), cosl(L), 0};
          LD E = asinl(fmaxl(-1, fminl(1, dot(un, u2)))), Z = atan2l(dot(un, e2v), dot(un, n2)); if (Z < 0) Z += 2 * PI;
          if (!(fabsl(el - E) < 1e-6L)) { c.fail("elevation", "code %d sat %d: elevation %.9f, expected %.9Lf", x.c->code, x.e.sid.sat, el, E); return; }
          LD dz = fabsl(az - Z); if (dz > PI) dz = 2 * PI - dz;
          if (q > 1e3L && !(dz * cosl(E) < 1e-6L)) { c.fail("azimuth", "code %d sat %d: azimuth %.9f, expected %.9Lf", x.c->code, x.e.sid.sat, az, Z); return; }
          if (E > 0) c.probe("visible"); }
        if (!r2 && x.c->code != CODE_GLO_L1P && x.c->code != CODE_GLO_L2P) {   // the rate of the range to the moving receiver, by differences; the library counts a growing range positive
          LD h = 0.01L; L3 us = x.is_alm ? L3{0, 0, 0} : rv; LD rr = (len(R.p + h * R.v + (h * h / 2) * R.a - rp - h * us) - len(R.p - h * R.v + (h * h / 2) * R.a - rp + h * us)) / (2 * h), want = x.hz() * rr / CC;
          if (!(fabsl(dop - want) < 1e-3L)) { c.fail("doppler", "code %d sat %d: Doppler is %.4f Hz, the range changes at %.4Lf m/s, which is %.4Lf Hz", x.c->code, x.e.sid.sat, dop, rr, want); return; }
          c.probe("doppler");
        }
        if (x.geo) c.probe("geostationary_beidou"); if (x.is_alm) c.probe("almanac"); if (weekless) c.probe("week_unknown"); if (now / WK != x.toe / WK) c.probe("across_the_week_edge");
        c.nontrivial = true; c.state(mix((U64)x.c->code * 8 + (U64)x.geo * 4 + x.is_alm * 2 + weekless, (U64)((ds + 90000) / 300)));
      }
    }
  });
}
Prop g_props[] = {
  {"C40", gen_c40, run_c40, 72000, 1500000, "position, velocity, acceleration, clock and clock rate against a long-double propagation from the interface documents (velocity and acceleration by differencing positions), azimuth and elevation against geodetic geometry, Doppler against the differenced range to the moving receiver",
   "ephemeris.c, almanac.c, coord_system.c, gnss_time.c, signal.c, glo_map.c: all library code", "none (satellites, receiver motion and clock are simulated)", "signal x orbit kind x time from reference (5 min) x week knowledge"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
