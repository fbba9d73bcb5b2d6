// C46: a receiver tracks signals for milliseconds to months, slips, loses epochs; its observations are corrected for the satellites' clocks, compared, sorted, and relayed from station to station
// over links that lose and repeat messages; GLONASS bias messages come and go.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
#include <swiftnav/glo_map.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/signal.h>
typedef long double LD;
static const LD CC = 299792458.0L, PI = 3.14159265358979323846264338327950288L;
// carrier frequencies in units of 1.023 MHz, by interface specification
struct Code { int code, first, count; LD f; };
static const Code CODES[] = {
  {CODE_GPS_L1CA, 1, 32, 1540}, {CODE_GPS_L1P, 1, 32, 1540}, {CODE_GPS_L1CI, 1, 32, 1540}, {CODE_GPS_L1CQ, 1, 32, 1540}, {CODE_GPS_L1CX, 1, 32, 1540}, {CODE_GPS_L2CM, 1, 32, 1200}, {CODE_GPS_L2CL, 1, 32, 1200}, {CODE_GPS_L2CX, 1, 32, 1200}, {CODE_GPS_L2P, 1, 32, 1200},
  {CODE_GPS_L5I, 1, 32, 1150}, {CODE_GPS_L5Q, 1, 32, 1150}, {CODE_GPS_L5X, 1, 32, 1150}, {CODE_SBAS_L1CA, 120, 19, 1540}, {CODE_SBAS_L5I, 120, 19, 1150}, {CODE_SBAS_L5Q, 120, 19, 1150}, {CODE_SBAS_L5X, 120, 19, 1150},
  {CODE_GLO_L1OF, 1, 28, -1}, {CODE_GLO_L2OF, 1, 28, -2}, {CODE_BDS2_B1, 1, 37, 1526}, {CODE_BDS2_B2, 1, 37, 1180}, {CODE_BDS3_B1CI, 1, 63, 1540}, {CODE_BDS3_B1CQ, 1, 63, 1540}, {CODE_BDS3_B1CX, 1, 63, 1540}, {CODE_BDS3_B5I, 1, 63, 1150}, {CODE_BDS3_B5Q, 1, 63, 1150},
  {CODE_BDS3_B5X, 1, 63, 1150}, {CODE_BDS3_B7I, 1, 63, 1180}, {CODE_BDS3_B7Q, 1, 63, 1180}, {CODE_BDS3_B7X, 1, 63, 1180}, {CODE_BDS3_B3I, 1, 63, 1240}, {CODE_BDS3_B3Q, 1, 63, 1240}, {CODE_BDS3_B3X, 1, 63, 1240},
  {CODE_GAL_E1B, 1, 36, 1540}, {CODE_GAL_E1C, 1, 36, 1540}, {CODE_GAL_E1X, 1, 36, 1540}, {CODE_GAL_E6B, 1, 36, 1250}, {CODE_GAL_E6C, 1, 36, 1250}, {CODE_GAL_E6X, 1, 36, 1250}, {CODE_GAL_E7I, 1, 36, 1180}, {CODE_GAL_E7Q, 1, 36, 1180}, {CODE_GAL_E7X, 1, 36, 1180},
  {CODE_GAL_E8I, 1, 36, 1165}, {CODE_GAL_E8Q, 1, 36, 1165}, {CODE_GAL_E8X, 1, 36, 1165}, {CODE_GAL_E5I, 1, 36, 1150}, {CODE_GAL_E5Q, 1, 36, 1150}, {CODE_GAL_E5X, 1, 36, 1150},
  {CODE_QZS_L1CA, 193, 10, 1540}, {CODE_QZS_L1CI, 193, 10, 1540}, {CODE_QZS_L1CQ, 193, 10, 1540}, {CODE_QZS_L1CX, 193, 10, 1540}, {CODE_QZS_L2CM, 193, 10, 1200}, {CODE_QZS_L2CL, 193, 10, 1200}, {CODE_QZS_L2CX, 193, 10, 1200}, {CODE_QZS_L5I, 193, 10, 1150}, {CODE_QZS_L5Q, 193, 10, 1150}, {CODE_QZS_L5X, 193, 10, 1150}};
static const int NC = (int)(sizeof CODES / sizeof *CODES);
static int rank_of(int code) {   // constellations in the order of constellation_t
  if (code >= CODE_GPS_L1CI && code <= CODE_GPS_L1CX) return CONSTELLATION_GPS;
  for (int i = 0; i < NC; i++) if (CODES[i].code == code) return i < 12 ? CONSTELLATION_GPS : i < 16 ? CONSTELLATION_SBAS : i < 18 ? CONSTELLATION_GLO : i < 32 ? CONSTELLATION_BDS : i < 47 ? CONSTELLATION_GAL : CONSTELLATION_QZS;
  abort();
}
struct Sig { gnss_signal_t sid; LD f, phi, af0, af1; LD amb; i64 locked; bool tracked, have; navigation_measurement_t last; LD last_amb; int ind[5]; bool seen[5]; };
static int df402(i64 us) { i64 ms = us / 1000; if (ms < 32) return 0; int k = 0; while (k < 15 && ms >= (i64)32 << k) k++; return k; }
static i64 lock_span(Rng &r) {
  if (r.chance(1, 4)) { i64 ms = (i64)32 << r.below(16); return ms * 1000 + r.pick<i64>({0, 0, 1, -1, 1000, -1000}); }
  return (i64)std::pow(10.0, r.uniform(2, 13.1));   // 100 us to 140 days
}
static void gen_c46(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 5); for (int i = 0; i < n; i++) s.op("signal", {(i64)r.below(NC), (i64)r.below(64), (i64)r.range(-7, 6), r.range(-1000000, 1000000), r.range(-100000, 100000), (i64)r.below(1000)});
  int m = (int)r.range(6, 30);
  for (int i = 0; i < m; i++) {
    switch (r.below(12)) {
      case 0: s.op("slip", {(i64)r.below(5), r.range(-1000000, 1000000)}); break;
      case 1: s.op("run", {lock_span(r)}); break;
      case 2: s.op("signal", {(i64)r.below(NC), (i64)r.below(64), (i64)r.range(-7, 6), r.range(-1000000, 1000000), r.range(-100000, 100000), (i64)r.below(1000)}); break;
      case 3: s.op("bias", {(i64)r.below(4), (i64)r.below(r.chance(1, 2) ? 16 : 256), r.range(-500, 500), r.range(-500, 500), r.range(-500, 500), r.range(-500, 500)}); break;
      case 4: s.op("copy", {(i64)r.below(5), (i64)r.below(26), (i64)r.below(3)}); break;
      case 5: s.op("sort", {(i64)r.next() >> 1}); break;
      case 6: s.op("flags", {(i64)r.below(5), (i64)r.below(128)}); break;
      default: s.op("run", {r.chance(1, 2) ? lock_span(r) : r.range(1, 2000) * 1000}); s.op("epoch", {(i64)r.below(1024), (i64)r.below(1024), (i64)r.below(16)});
    }
  }
}
static void run_c46(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); std::vector<Sig> S; i64 now = 0; LD rc0 = 1e-4L, rc1 = 3e-7L;   // receiver clock
    glo_biases_t bias; memset(&bias, 0, sizeof bias); LD bval[4] = {}; unsigned bmask = 0; std::vector<int> fcn(29, 99);
    for (u16 k = 1; k <= 28; k++) glo_map_clear_slot_id(k);
    auto range = [&](const Sig &q, i64 us, LD &rho, LD &rate) { LD t = us * 1e-6L, w = 2 * PI / 43082; rho = 2.3e7L + 2.5e6L * sinl(w * t + q.phi); rate = 2.5e6L * w * cosl(w * t + q.phi); };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "signal") {
        const Code &k = CODES[(U64)o.arg(0) % NC]; Sig q; memset((void *)&q, 0, sizeof q); int sat = k.first + (int)((U64)o.arg(1) % (U64)k.count); q.sid = construct_sid((code_t)k.code, (u16)sat);
        int ch = (int)(((o.arg(2) + 7) % 14 + 14) % 14) - 7;
        if (k.f < 0) { if (fcn[(size_t)sat] == 99) { fcn[(size_t)sat] = ch; glo_map_set_slot_id((u16)(ch + 8), (u16)sat); } ch = fcn[(size_t)sat]; q.f = k.f == -1 ? 1602e6L + 562500.0L * ch : 1246e6L + 437500.0L * ch; } else q.f = k.f * 1.023e6L;
        q.phi = (LD)o.arg(5) / 100; q.af0 = (LD)o.arg(3) * 1e-9L; q.af1 = (LD)o.arg(4) * 1e-15L; q.amb = (LD)(o.arg(5) * 977); q.locked = now; q.tracked = true;
        bool dup = false; for (auto &p : S) if (p.sid.code == q.sid.code && p.sid.sat == q.sid.sat) dup = true;
        if (!dup && S.size() < 10) S.push_back(q);
      } else if (o.name == "run") { i64 d = (i64)((U64)o.arg(0) % 20000000000000ULL); now += d; c.time((double)d * 1e-6); if (d > 86400LL * 1000000 * 49) c.probe("tracked_for_more_than_seven_weeks"); }
      else if (o.name == "slip") { if (S.empty()) continue; Sig &q = S[(U64)o.arg(0) % S.size()]; q.amb += (LD)o.arg(1); q.locked = now; for (auto &x : q.seen) x = false; q.have = false; c.fault("loss_of_lock"); }
      else if (o.name == "flags") {
        if (S.empty()) continue; navigation_measurement_t m = S[(U64)o.arg(0) % S.size()].last; m.flags = (nav_meas_flags_t)(o.arg(1) & 127);
        bool want = (m.flags & 1) && !(m.flags & 64); if (pseudorange_valid(&m) != want) { c.fail("flags", "a pseudorange with flags 0x%x reads %s", m.flags, want ? "invalid" : "valid"); return; }
      } else if (o.name == "epoch") {
        LD t = now * 1e-6L, dtr = rc0 + rc1 * 1e-3L * sinl(t / 1000), ddtr = rc1 * 1e-6L * cosl(t / 1000); unsigned i = 0;
        for (auto &q : S) {
          i++; if ((o.arg(0) >> (i % 10)) & 1 && i > 1) { c.fault("epoch_missed"); continue; }
          LD rho, rate; range(q, now, rho, rate); LD dts = q.af0 + q.af1 * (fmodl(t, 7200)), P = rho + CC * (dtr - dts), PD = rate + CC * (ddtr - q.af1);
          navigation_measurement_t m; memset(&m, 0, sizeof m); m.sid = q.sid; m.raw_pseudorange = (double)P; m.raw_carrier_phase = (double)(P * q.f / CC + q.amb); m.raw_measured_doppler = (double)(-PD * q.f / CC); m.raw_computed_doppler = m.raw_measured_doppler;
          m.sat_clock_err = (double)dts; m.sat_clock_err_rate = (double)q.af1; m.lock_time = (double)(now - q.locked) / 1e6; m.flags = 0x3f; m.cn0 = 40; m.elevation = 45; m.tot.wn = 2000; m.tot.tow = (double)fmodl(t, 604800);
          for (int k = 0; k < 3; k++) { m.sat_pos[k] = 1e7 + k; m.sat_vel[k] = 1000 + k; m.sat_acc[k] = k; } m.eph_key = 7;
          navigation_measurement_t keep = m; about_to("correcting an observation of code %d satellite %d", m.sid.code, m.sid.sat);
          double cp = nav_meas_cor_sat_clk_on_pseudorange(&m), cd = nav_meas_cor_sat_clk_on_measured_doppler(&m), cl = nav_meas_cor_sat_clk_on_carrier_phase(&m);
          if (memcmp(&m, &keep, sizeof m)) { c.fail("input-changed", "correcting an observation changed it"); return; }
          c.ev("epoch %lld code %d sat %d: %.6f %.6f %.6f", (long long)now, m.sid.code, m.sid.sat, cp, cl, cd);
          if (!(fabsl(cp - (rho + CC * dtr)) < 1e-6L)) { c.fail("pseudorange", "code %d satellite %d: the corrected pseudorange is %.3Lg m off", m.sid.code, m.sid.sat, cp - (rho + CC * dtr)); return; }
          if (!(fabsl(cd + (rate + CC * ddtr) * q.f / CC) < 1e-6L)) { c.fail("doppler", "code %d satellite %d: the corrected Doppler is %.3Lg Hz off", m.sid.code, m.sid.sat, cd + (rate + CC * ddtr) * q.f / CC); return; }
          if (!(fabsl(cl - q.amb - (rho + CC * dtr) * q.f / CC) < 1e-5L)) { c.fail("phase", "code %d satellite %d: the corrected phase and the corrected pseudorange drift apart by %.3Lg cycles", m.sid.code, m.sid.sat, cl - q.amb - (rho + CC * dtr) * q.f / CC); return; }
          if (!(fabsl(sid_to_lambda(q.sid) * q.f - CC) < 1e-6L)) { c.fail("wavelength", "code %d satellite %d: wavelength %.12g", m.sid.code, m.sid.sat, sid_to_lambda(q.sid)); return; }
          // the lock time as it is passed on from station to station
          i64 held = now - q.locked; about_to("encoding lock time %.9g", m.lock_time); int ind = encode_lock_time(m.lock_time), want = df402(held);
          if (ind != want) { c.fail("lock-time", "locked for %lld us: indicator %d, expected %d", (long long)held, ind, want); return; }
          for (int st = 0; st < 5; st++) {
            if ((o.arg(1) >> (st * 2)) & 1 && (o.arg(1) >> (st * 2 + 1)) & 1) { c.fault("relay_message_lost"); break; }
            u8 wire = (u8)(ind | ((unsigned)o.arg(2) & 15) << 4); double est = decode_lock_time(wire);
            if (!(est <= m.lock_time + 1e-9) || !(ind == 15 || m.lock_time < (ind ? est * 2 : 0.032))) { c.fail("lock-time", "locked for %.6f s: station %d reads %.6f s", m.lock_time, st, est); return; }
            if (q.seen[st] && ind < q.ind[st]) { c.fail("lock-time", "station %d sees the lock time of an uninterrupted signal fall from %d to %d", st, q.ind[st], ind); return; }
            q.seen[st] = true; q.ind[st] = ind; int again = encode_lock_time(est);
            if (again != ind) { c.fail("lock-time", "a lock time received as indicator %d (%.3f s) is passed on as %d", ind, est, again); return; }
            ind = again; c.probe("relayed");
          }
          if (q.have) {   // both epochs without a slip between: the phase moves as the range does
            LD r0 = nav_meas_cor_sat_clk_on_pseudorange(&q.last), l0 = nav_meas_cor_sat_clk_on_carrier_phase(&q.last), dL = (cl - l0) - (cp - r0) * q.f / CC;
            if (!(fabsl(dL) < 1e-5L)) { c.fail("phase", "code %d satellite %d: phase and range moved differently between two epochs, by %.3Lg cycles", m.sid.code, m.sid.sat, dL); return; }
          }
          q.last = m; q.have = true; c.nontrivial = true; c.state(mix((U64)m.sid.code * 16 + (U64)want, (U64)S.size()));
        }
      } else if (o.name == "copy") {
        if (S.empty()) continue; Sig &q = S[(U64)o.arg(0) % S.size()]; if (!q.have) continue;
        navigation_measurement_t a = q.last, b = a; int k = (int)((U64)o.arg(1) % 26); double d = o.arg(2) == 0 ? 1e-3 : o.arg(2) == 1 ? -1e-6 : 10; double *F[] = {&b.raw_pseudorange, &b.raw_carrier_phase, &b.raw_measured_doppler, &b.raw_computed_doppler, &b.sat_pos[0], &b.sat_pos[1], &b.sat_pos[2], &b.sat_vel[0], &b.sat_vel[1], &b.sat_vel[2],
          &b.sat_acc[0], &b.sat_acc[1], &b.sat_acc[2], &b.sat_clock_err, &b.sat_clock_err_rate, &b.cn0, &b.lock_time, &b.elevation, &b.tot.tow};
        if (k < 18) *F[k] += d; else if (k == 18) b.tot.tow += o.arg(2) == 1 ? -1e-3 : d; else if (k == 19) b.tot.wn++; else if (k == 20) b.eph_key ^= 0x8001; else if (k == 21) b.sid.sat ^= 1; else if (k == 22) b.flags ^= (nav_meas_flags_t)(1 << (o.arg(2) * 2));
        bool differ = k < 23, differ_std = true; about_to("comparing observations");
        if (nav_meas_equal(&a, &b) == differ || nav_meas_equal(&b, &a) == differ || !nav_meas_equal(&a, &a)) { c.fail("duplicate", "observations that %s are taken as %s", differ ? "differ in one field" : "are the same", differ ? "the same" : "different"); return; }
        measurement_std_t x, y; memset(&x, 0, sizeof x); x.sid = a.sid; x.iono_std = 0.5; x.tropo_std = 0.1; x.range_std = 2; x.flags = 3; y = x;
        switch (k % 7) { case 0: y.iono_std += d; break; case 1: y.tropo_std += d; break; case 2: y.range_std += d; break; case 3: y.flags ^= 8; break; case 4: y.sid.sat++; break; case 5: y.sid.code = a.sid.code == CODE_GPS_L1CA ? CODE_GPS_L1P : CODE_GPS_L1CA; break; default: differ_std = false; }
        if (measurement_std_equal(&x, &y) == differ_std || measurement_std_equal(&y, &x) == differ_std) { c.fail("duplicate", "standard deviations that %s are taken as %s", differ_std ? "differ" : "are the same", differ_std ? "the same" : "different"); return; }
        c.fault(differ ? "message_altered" : "message_repeated");
      } else if (o.name == "sort") {
        std::vector<navigation_measurement_t> v; Rng z((U64)o.arg(0)); for (auto &q : S) { navigation_measurement_t m = q.last; m.sid = q.sid; v.push_back(m); if (z.chance(1, 4)) v.push_back(m); }
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[z.below(i)]);
        auto key = [](const navigation_measurement_t &m) { return ((U64)rank_of(m.sid.code) << 32) | (U64)m.sid.code << 16 | m.sid.sat; };
        std::vector<U64> want; for (auto &m : v) want.push_back(key(m)); std::sort(want.begin(), want.end()); about_to("sorting observations");
        if (!v.empty()) qsort(v.data(), v.size(), sizeof v[0], nav_meas_cmp);
        for (size_t i = 0; i < v.size(); i++) if (key(v[i]) != want[i]) { c.fail("sort", "sorted observations are out of order or not those that were received"); return; }
      } else if (o.name == "bias") {
        if (o.arg(0) % 4 == 0) { c.fault("bias_message_lost"); } else {
          glo_biases_t nb; memset(&nb, 0, sizeof nb); nb.mask = (u8)o.arg(1); nb.l1of_bias_m = (double)o.arg(2) / 50; nb.l1p_bias_m = (double)o.arg(3) / 50; nb.l2of_bias_m = (double)o.arg(4) / 50; nb.l2p_bias_m = (double)o.arg(5) / 50;
          bool same = bmask == nb.mask; for (int k = 0; k < 4; k++) if (fabsl(bval[k] - (LD)o.arg(2 + (size_t)k) / 50) > 1e-6L) same = false;
          if (glonass_biases_are_equal(bias, nb) != same || glonass_biases_are_equal(nb, bias) != same || !glonass_biases_are_equal(nb, nb)) { c.fail("bias", "bias messages are compared the wrong way"); return; }
          bias = nb; bmask = nb.mask; for (int k = 0; k < 4; k++) bval[k] = (LD)o.arg(2 + (size_t)k) / 50;
        }
        for (int k = 0; k < NC; k++) {   // mask bits from the lowest: L2 P, L2 OF, L1 P, L1 OF; the receiver's own biases are zero
          int code = CODES[k].code; LD want = 0; if (code == CODE_GLO_L1OF) want = bmask & 8 ? -bval[0] : bmask & 4 ? -bval[1] : 0; if (code == CODE_GLO_L2OF) want = bmask & 2 ? -bval[2] : bmask & 1 ? -bval[3] : 0;
          if (!(fabsl(get_glonass_bias((code_t)code, bias) - want) < 1e-12L)) { c.fail("bias", "mask 0x%x: the bias of code %d is %.6f, expected %.6Lf", bmask, code, get_glonass_bias((code_t)code, bias), want); return; }
        }
        c.nontrivial = true; c.state(mix(99, bmask));
      }
    }
  });
}
Prop g_props[] = {
  {"C46", gen_c46, run_c46, 120000, 6000000, "every corrected observation against the simulated ranges and clocks; the lock indicator by the definition of DF402 in exact time, at every station of the chain; copies, order and biases against the messages received", "nav_meas.c, glonass_phase_biases.c, signal.c, glo_map.c: all library code", "none (satellites, receiver, stations and links are simulated)", "signal x lock indicator x signals tracked"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
