// C14..C19: navigation messages broadcast over a lossy, noisy, reordering channel into reused storage.
// Each reference decoder works from a table of fields taken from the interface documents: bit runs, sign, scale.
#include <cmath>
#include <cstdlib>
#include "bcast.h"
#include "leaps.h"
#include "shims.h"
#include "sim.h"
#include <swiftnav/almanac.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/ionosphere.h>

// ---- C14
static void gen_c14(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; i++) {
    i64 style = (i64)r.below(5);
    U64 a = style == 0 ? 0 : style == 1 ? ~0ULL : style == 2 ? 1ULL << r.below(64) : r.next(), b = style == 0 ? 0 : style == 1 ? ~0ULL : style == 2 ? 0 : r.next();
    s.op("string", {(i64)a, (i64)(b & 0x1fff)});
    int m = (int)r.range(1, 4);
    for (int j = 0; j < m; j++) switch (r.below(5)) {
      case 0: s.op("clean"); break;
      case 1: s.op("flip", {r.range(9, 85)}); break;
      case 2: s.op("flip", {r.range(1, 8)}); break;
      default: s.op("flip2", {r.range(9, 85), r.range(1, 85)});
    }
    if (r.chance(1, 30)) s.op("all1");
    if (r.chance(1, 200)) s.op("all2");
  }
}
static void run_c14(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    Str base; memset(&base, 0, sizeof base); hamming_encode(base);
    auto det = [&](const Str &x) { glo_string_t g = gstr(x); int r = error_detection_glo(&g); if (memcmp(&g.word, x.w, 12)) c.fail("hamming-string-changed", "the check changed the string"); return r; };
    auto one = [&](int b) {
      Str x = base; gset(x, b, !gbit(x, b)); int r = det(x);
      int want = b >= 9 ? b : b == 8 ? -1 : 0;
      if (b == 8 ? r > 0 : r != want) c.fail("hamming-single", "bit %d flipped: the check says %d", b, r);
      c.state(mix((U64)b, (U64)(r + 2)));
    };
    auto two = [&](int a, int b) {
      if (a == b) return;
      Str x = base; gset(x, a, !gbit(x, a)); gset(x, b, !gbit(x, b)); int r = det(x);
      if (r != -1) c.fail("hamming-double", "bits %d and %d flipped: the check says %d", a, b, r);
      c.state(mix((U64)a * 100 + (U64)b, (U64)(r + 2)));
    };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "string") {
        memset(&base, 0, sizeof base); gput(base, 9, 64, (U64)o.arg(0)); gput(base, 73, 13, (U64)o.arg(1)); hamming_encode(base);
        if (gbit(base, 85)) c.probe("top_bit_set");
        about_to("error_detection_glo on %08x %08x %08x", base.w[0], base.w[1], base.w[2]);
        int r = det(base); if (r) c.fail("hamming-clean", "an intact string is answered with %d", r);
        c.ev("string %08x %08x %08x -> %d", base.w[0], base.w[1], base.w[2], r);
      } else if (o.name == "clean") { int r = det(base); if (r) c.fail("hamming-clean", "an intact string is answered with %d", r); }
      else if (o.name == "flip") { int b = (int)(((U64)o.arg(0) - 1) % 85) + 1; c.fault(b > 8 ? "data_bit_error" : "check_bit_error"); one(b); c.nontrivial = true; c.ev("flip %d", b); }
      else if (o.name == "flip2") { int a = (int)((U64)(o.arg(0) - 9) % 77) + 9, b = (int)(((U64)o.arg(1) - 1) % 85) + 1; c.fault("double_bit_error"); two(a, b); c.nontrivial = true; c.ev("flip %d %d", a, b); }
      else if (o.name == "all1") { for (int b = 1; b <= 85 && !c.failed(); b++) one(b); c.fault("data_bit_error", 77); c.fault("check_bit_error", 8); c.nontrivial = true; }
      else if (o.name == "all2") { for (int a = 9; a <= 85 && !c.failed(); a++) for (int b = 1; b < a && !c.failed(); b++) two(a, b); c.fault("double_bit_error", 77 * 8 + 77 * 38); c.nontrivial = true; }
    }
  });
}

// ---- C15
// One frame's content as the satellite sends it, as raw field values.
static U64 sgnmag(Rng &r, int magbits, U64 maxmag, bool good) {   // sign-magnitude value, at, below or beyond the limit
  U64 top = (1ULL << magbits) - 1, m;
  if (maxmag > top) maxmag = top;
  if (good) m = r.chance(1, 6) ? maxmag : r.chance(1, 8) ? 0 : r.below(maxmag + 1);
  else m = r.chance(1, 2) && maxmag < top ? maxmag + 1 : maxmag + r.below(top - maxmag + 1);
  return m | (U64)r.below(2) << magbits;
}
static void gen_c15(Rng &r, Scenario &s, U64) {
  s.op("dest", {(i64)r.below(3), (i64)r.next()});
  if (r.chance(1, 3)) s.op("utc", {(i64)r.below(40), r.range(2, 80), (i64)r.below(2)});   // broadcast leap second parameters
  int frames = (int)r.range(1, 5);
  U64 NT = (U64)r.range(1, 1461), N4 = (U64)r.range(1, 31);
  if (r.chance(1, 3)) NT = r.pick<U64>({1, 2, 366, 367, 731, 732, 1096, 1097, 1460, 1461, 365});
  if (r.chance(1, 3)) N4 = r.pick<U64>({1, 31, 7, 6, 2});
  U64 tb = (U64)r.range(1, 95);
  for (int f = 0; f < frames; f++) {
    bool badframe = r.chance(1, 4);
    std::vector<i64> a;
    int badfield = badframe ? (int)r.below((U64)NGF) : -1;
    for (int i = 0; i < NGF; i++) {
      const GField &g = GF[i]; bool good = i != badfield; std::string n = g.name; U64 v;
      if (n == "x" || n == "y" || n == "z") v = sgnmag(r, 26, 55296000, good);
      else if (n[0] == 'v') v = sgnmag(r, 23, 4508876, good);
      else if (n[0] == 'a') v = sgnmag(r, 4, 6, good);
      else if (n == "tk") { U64 h = good ? r.below(24) : r.chance(1, 2) ? 24 + r.below(8) : r.below(24), m = good ? r.below(60) : 60 + r.below(4); v = h << 7 | m << 1 | r.below(2); }
      else if (n == "tb") { v = good ? tb : r.pick<U64>({0, 96, 97, 127}); }
      else if (n == "gamma") v = sgnmag(r, 10, 1024, true);
      else if (n == "tau") v = sgnmag(r, 21, 2097152, true);
      else if (n == "dtau") v = sgnmag(r, 4, 15, good);
      else if (n == "NT") v = good ? NT : r.pick<U64>({0, 0, 1462, 1463, 2047});
      else if (n == "n") v = good ? (U64)r.range(1, 28) : r.pick<U64>({0, 29, 30, 31});
      else if (n == "M") v = r.chance(1, 10) ? r.below(4) : 1;
      else if (n == "N4") v = good ? N4 : 0;
      else if (n == "taugps") v = sgnmag(r, 21, 2040109, good);
      else if (n == "P1") v = r.below(4);
      else if (n == "B" ) v = r.chance(1, 4) ? r.below(8) : r.below(4);
      else if (n == "l") v = r.chance(1, 5);
      else v = r.next() & ((g.len < 64 ? 1ULL << g.len : 0) - 1);
      a.push_back((i64)v);
    }
    s.op("frame", a);
    for (int i = 1; i <= 5; i++) {   // channel
      if (r.chance(1, 14)) continue;               // lost: the receiver's buffer keeps what it had
      i64 slot = r.chance(1, 25) ? r.range(1, 5) : i;   // filed in the wrong place
      i64 num = r.chance(1, 40) ? (i64)r.below(16) : i; // satellite sends another string number
      int nf = r.chance(1, 6) ? (int)r.range(1, 3) : 0;
      std::vector<i64> q = {i, slot, num};
      for (int j = 0; j < nf; j++) q.push_back(r.range(1, 85));
      s.op("send", q);
    }
    s.op("decode", {(i64)r.below(6)});
    tb++; if (tb > 95) { tb = 1; NT++; if (NT > 1461) { NT = 1; N4 = N4 % 31 + 1; } }
  }
}
static void run_c15(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    Str sent[6], rx[6]; memset(sent, 0, sizeof sent); memset(rx, 0, sizeof rx);
    ephemeris_t e; memset(&e, 0, sizeof e);
    utc_params_t up, *u = nullptr; LeapRule rule;
    int valid_frames = 0, refused = 0;
    double last = -1;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "dest") {
        Rng q((U64)o.arg(1)); uint8_t *p = (uint8_t *)&e;
        if (o.arg(0) == 1) memset(&e, 0xff, sizeof e);
        if (o.arg(0) == 2) { for (size_t i = 0; i < sizeof e; i++) p[i] = (uint8_t)q.next(); }
        if (o.arg(0)) { c.fault("dirty_destination"); e.fit_interval = q.chance(1, 2) ? 2400 : 0; }
      } else if (o.name == "utc") {   // a broadcast with a leap second of 0 or 1 s at the end of some day after the table
        memset(&up, 0, sizeof up);
        int wn = 2000 + (int)(o.arg(1) & 127), dn = (int)((U64)o.arg(0) % 7) + 1, d = (int)(o.arg(2) & 1);
        up.dt_ls = 18; up.dt_lsf = (s8)(18 + d);
        up.t_lse.wn = (s16)wn; up.t_lse.tow = dn * 86400.0 + 18; if (up.t_lse.tow >= 604800) { up.t_lse.tow -= 604800; up.t_lse.wn++; }
        up.tot.wn = (s16)wn; up.tot.tow = 0;
        u = &up; rule.set_broadcast(18, 18 + d, (i64)up.t_lse.wn * 604800 + (i64)up.t_lse.tow);
        c.probe("broadcast_utc");
      } else if (o.name == "frame") {
        for (int k = 1; k <= 5; k++) { memset(&sent[k], 0, sizeof sent[k]); gput(sent[k], 81, 4, (U64)k); }
        for (int i = 0; i < NGF; i++) gput(sent[GF[i].str], GF[i].lo, GF[i].len, (U64)o.arg((size_t)i));
        for (int k = 1; k <= 5; k++) hamming_encode(sent[k]);
      } else if (o.name == "send") {
        int k = (int)((U64)(o.arg(0) - 1) % 5) + 1, slot = (int)((U64)(o.arg(1) - 1) % 5) + 1;
        Str x = sent[k];
        if ((o.arg(2) & 15) != k) { gput(x, 81, 4, (U64)o.arg(2)); hamming_encode(x); c.fault("foreign_string"); }
        for (size_t i = 3; i < o.a.size(); i++) { int b = (int)((U64)(o.a[i] - 1) % 85) + 1; gset(x, b, !gbit(x, b)); c.fault("bit_error"); }
        if (slot != k) c.fault("misfiled_string");
        rx[slot] = x;
      } else if (o.name == "decode") {
        glo_string_t g[5]; for (int k = 0; k < 5; k++) g[k] = gstr(rx[k + 1]);
        u32 fit0 = e.fit_interval;
        gnss_signal_t sid = {(u16)(o.arg(0) + 1), o.arg(0) & 1 ? CODE_GLO_L2OF : CODE_GLO_L1OF};
        // reference
        const char *why = nullptr; double val[16] = {0};
        auto F = [&](int str, int lo, int len) { return gget(rx[str], lo, len); };
        auto SM = [&](int str, int lo, int mag, double sc) { double v = (double)F(str, lo, mag) * sc; return F(str, lo + mag, 1) ? -v : v; };
        for (int k = 1; k <= 5 && !why; k++) { if (!hamming_accepts(rx[k])) why = "a string fails its check"; else if ((int)F(k, 81, 4) != k) why = "a string is not in its place"; }
        for (int k = 0; k < 3; k++) {
          val[k] = SM(k + 1, 9, 26, 1000.0 / 2048); val[3 + k] = SM(k + 1, 41, 23, 1000.0 / 1048576); val[6 + k] = SM(k + 1, 36, 4, 1000.0 / 1073741824);
          if (!why && std::fabs(val[k]) > 2.7e7) why = "position out of range";
          if (!why && std::fabs(val[3 + k]) > 4300) why = "velocity out of range";
          if (!why && std::fabs(val[6 + k]) > 6.2e-6) why = "acceleration out of range";
        }
        U64 h = F(1, 72, 5), m = F(1, 66, 6), tb = F(2, 70, 7), slot = F(4, 11, 5), NT = F(4, 16, 11), N4 = F(5, 32, 5), p1 = F(1, 77, 2);
        val[9] = SM(3, 69, 10, std::ldexp(1.0, -40)); val[10] = SM(4, 59, 21, std::ldexp(1.0, -30)); val[11] = SM(4, 54, 4, std::ldexp(1.0, -30));
        double taug = SM(5, 10, 21, std::ldexp(1.0, -30));
        if (!why && (h > 23 || m > 59)) why = "frame time out of range";
        if (!why && (tb < 1 || tb > 95)) why = "reference time out of range";
        if (!why && std::fabs(val[9]) > std::ldexp(1.0, -30)) why = "frequency offset out of range";
        if (!why && std::fabs(val[10]) > std::ldexp(1.0, -9)) why = "clock offset out of range";
        if (!why && std::fabs(val[11]) > 13.97e-9) why = "delay difference out of range";
        if (!why && (slot < 1 || slot > 28)) why = "slot out of range";
        if (!why && (NT < 1 || NT > 1461)) why = "day out of range";
        if (!why && N4 < 1) why = "four-year interval out of range";
        if (!why && std::fabs(taug) > 1.9e-3) why = "GPS offset out of range";
        about_to("decode_glo_ephemeris (%s)", why ? why : "all in order");
        decode_glo_ephemeris(g, sid, u, &e);
        c.ev("decode: valid %d, expected %s", e.valid, why ? why : "valid");
        for (int k = 0; k < 5; k++) if (memcmp(g[k].word, rx[k + 1].w, 12)) c.fail("glo-input-changed", "string %d was changed", k + 1);
        if (why ? e.valid != 0 : e.valid == 0) { c.fail("glo-validity", "ephemeris marked %svalid although %s", e.valid ? "" : "in", why ? why : "every string is in order"); return; }
        if (!why) {
          valid_frames++;
          static const double ft[15] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512};
          U64 F_t = F(4, 30, 4);
          for (int k = 0; k < 3; k++) {
            if (!near_rel(e.data.glo.pos[k], val[k])) c.fail("glo-field", "position %d is %.12g, sent %.12g", k, e.data.glo.pos[k], val[k]);
            if (!near_rel(e.data.glo.vel[k], val[3 + k])) c.fail("glo-field", "velocity %d is %.12g, sent %.12g", k, e.data.glo.vel[k], val[3 + k]);
            if (!near_rel(e.data.glo.acc[k], val[6 + k])) c.fail("glo-field", "acceleration %d is %.12g, sent %.12g", k, e.data.glo.acc[k], val[6 + k]);
          }
          if (!near_rel(e.data.glo.gamma, val[9])) c.fail("glo-field", "gamma is %.12g, sent %.12g", e.data.glo.gamma, val[9]);
          if (!near_rel(e.data.glo.tau, val[10])) c.fail("glo-field", "tau is %.12g, sent %.12g", e.data.glo.tau, val[10]);
          if (!near_rel(e.data.glo.d_tau, val[11])) c.fail("glo-field", "d_tau is %.12g, sent %.12g", e.data.glo.d_tau, val[11]);
          if (e.data.glo.iod != ((tb * 900) & 0x7f)) c.fail("glo-field", "issue is %u for tb %u", (unsigned)e.data.glo.iod, (unsigned)tb);
          if (e.sid.sat != slot || e.sid.code != sid.code) c.fail("glo-field", "satellite is %u/%d, sent slot %u on code %d", e.sid.sat, (int)e.sid.code, (unsigned)slot, (int)sid.code);
          if (F_t < 15 ? !near_rel(e.ura, ft[F_t], 1e-6) : e.ura >= 0) c.fail("glo-field", "accuracy is %g for index %u", e.ura, (unsigned)F_t);
          unsigned health = (unsigned)(F(2, 80, 1) | F(3, 65, 1));
          if ((e.health_bits != 0) != (health != 0)) c.fail("glo-health", "health bits are %u, satellite sent %s", e.health_bits, health ? "unhealthy" : "healthy");
          static const u32 fits[4] = {0, 2400, 3300, 4200};
          u32 fit = p1 ? fits[p1] : fit0 ? fit0 : 4200;
          if (e.fit_interval != fit) c.fail("glo-field", "fit interval is %u s for P1 = %u (it was %u)", e.fit_interval, (unsigned)p1, fit0);
          if (e.source != 0) c.fail("glo-field", "source is %d", (int)e.source);
          // Moscow day and interval number to GPS time, by the calendar
          i64 mskday = civil_days(1996 + 4 * ((int)N4 - 1), 1, 1) + (i64)NT - 1;   // days since 1970, interval starts 1 January
          if (1996 + 4 * ((int)N4 - 1) + 3 < 2100) {   // 2100 is no leap year: the numbering of later years is not settled by the document
            i64 utc = mskday * 86400 + (i64)tb * 900 - 3 * 3600 - 315964800;      // UTC seconds since the GPS epoch, leap seconds left out
            i64 gps = rule.gps_of_utc(utc);
            double got = (double)e.toe.wn * 604800 + e.toe.tow;
            if (std::fabs(got - (double)gps) > 1e-6 || !gps_time_valid(&e.toe)) c.fail("glo-toe", "reference time is week %d %.6f, expected week %lld %lld", e.toe.wn, e.toe.tow, (long long)(gps / 604800), (long long)(gps % 604800));
            if (last >= 0) c.time(std::fabs(got - last)); last = got;
          }
          if (health) c.probe("unhealthy_satellite"); if (!p1) c.probe("no_update_interval"); if (F_t == 15) c.probe("accuracy_unknown");
          c.state(mix(mix(tb * 32 + slot, NT), (U64)e.toe.wn * 4 + p1));
        } else { refused++; c.state(hash_bytes(why, strlen(why), fit0)); c.probe("refused"); }
        // each string decoder on its own, for the times and the two values that do not go into the ephemeris
        {
          ephemeris_t q; memset(&q, 0x5a, sizeof q); q.sid = sid; glo_time_t tk, te; memset(&tk, 0x5a, sizeof tk); memset(&te, 0x5a, sizeof te); u8 age = 99; float tg = 99;
          auto okay = [&](int k) { return hamming_accepts(rx[k]) && (int)F(k, 81, 4) == k; };
          auto xyz = [&](int k) { return std::fabs(val[k - 1]) <= 2.7e7 && std::fabs(val[k + 2]) <= 4300 && std::fabs(val[k + 5]) <= 6.2e-6; };
          bool w1 = okay(1) && xyz(1) && h <= 23 && m <= 59, w2 = okay(2) && xyz(2) && tb >= 1 && tb <= 95, w3 = okay(3) && xyz(3) && std::fabs(val[9]) <= std::ldexp(1.0, -30);
          bool w4 = okay(4) && std::fabs(val[10]) <= std::ldexp(1.0, -9) && std::fabs(val[11]) <= 13.97e-9 && slot >= 1 && slot <= 28 && NT <= 1461, w5 = okay(5) && N4 >= 1 && std::fabs(taug) <= 1.9e-3;
          about_to("the five string decoders");
          bool r1 = decode_glo_string_1(&g[0], &q, &tk), r2 = decode_glo_string_2(&g[1], &q, &te), r3 = decode_glo_string_3(&g[2], &q, &te), r4 = decode_glo_string_4(&g[3], &q, &tk, &te, &age), r5 = decode_glo_string_5(&g[4], &q, &tk, &te, &tg);
          if (r1 != w1 || r2 != w2 || r3 != w3 || r4 != w4 || r5 != w5) c.fail("glo-string", "string decoders answer %d %d %d %d %d, expected %d %d %d %d %d", r1, r2, r3, r4, r5, w1, w2, w3, w4, w5);
          if (w1 && (tk.h != h || tk.m != m || tk.s != (F(1, 65, 1) ? 30.0 : 0.0))) c.fail("glo-string", "frame time is %d:%d:%g, sent %u:%u:%d", tk.h, tk.m, tk.s, (unsigned)h, (unsigned)m, (int)F(1, 65, 1) * 30);
          if (w2 && te.h * 3600 + te.m * 60 + te.s != (double)tb * 900) c.fail("glo-string", "reference time is %d:%d:%g for tb %u", te.h, te.m, te.s, (unsigned)tb);
          if (w4 && (tk.nt != NT || te.nt != NT || age != F(4, 49, 5))) c.fail("glo-string", "day is %u %u, age %u, sent %u and %u", tk.nt, te.nt, age, (unsigned)NT, (unsigned)F(4, 49, 5));
          if (w5 && (tk.n4 != N4 || te.n4 != N4 || !near_rel(tg, taug, 1e-6))) c.fail("glo-string", "interval is %u %u, GPS offset %g, sent %u and %g", tk.n4, te.n4, (double)tg, (unsigned)N4, taug);
        }
        // whatever came out can be asked about
        gps_time_t t = {why ? 1000.0 : e.toe.tow, (s16)(why ? 2100 : e.toe.wn)};
        about_to("validity of the decoded ephemeris");
        u8 v = ephemeris_valid(&e, &t); int st = (int)ephemeris_valid_detailed(&e, &t), st2 = (int)get_ephemeris_status_t(&e); (void)st2;
        if (why && (v || st == EPH_VALID)) c.fail("glo-unusable", "a refused ephemeris counts as usable");
        if (!why && e.health_bits == 0 && e.ura >= 0 && (!v || st != EPH_VALID)) c.fail("glo-usable", "a fresh healthy ephemeris is not usable at its reference time (status %d)", st);
        c.ev("usable %d status %d toe %d %.3f", v, st, e.toe.wn, is_unknown(e.toe) ? -1.0 : e.toe.tow);
      }
    }
    c.nontrivial = valid_frames > 0 || refused > 0;
    if (valid_frames && refused) c.probe("valid_and_refused");
  });
}

static U64 fieldval(Rng &r, unsigned len) {   // corners of a field of len bits
  U64 m = (1ULL << len) - 1;
  switch (r.below(6)) { case 0: return r.pick<U64>({0, m, 1ULL << (len - 1), (1ULL << (len - 1)) - 1, 1}) & m; default: return r.next() & m; }
}
struct KeplerWant { const char *name; double got; };
#define KW(k) {{"crs", k.crs}, {"dn", k.dn}, {"m0", k.m0}, {"cuc", k.cuc}, {"ecc", k.ecc}, {"cus", k.cus}, {"sqrta", k.sqrta}, {"cic", k.cic}, {"omega0", k.omega0}, {"cis", k.cis}, {"inc", k.inc}, {"crc", k.crc}, {"w", k.w}, {"omegadot", k.omegadot}, {"idot", k.inc_dot}, {"af0", k.af0}, {"af1", k.af1}, {"af2", k.af2}}

// ---- C16
static void gen_c16(Rng &r, Scenario &s, U64) {
  s.op("dest", {(i64)r.below(3), (i64)r.next()});
  int sets = (int)r.range(1, 4);
  i64 ref = r.chance(1, 3) ? 1876 : r.range(1, 20000);
  i64 W = ref + r.range(0, 1023); if (r.chance(1, 6)) W = r.pick<i64>({ref, ref + 1023, ref + 1, ref + 1022}); if (r.chance(1, 8)) W = std::max<i64>(ref, (W / 1024) * 1024);
  if (W > ref + 1023) W = ref + 1023;
  i64 tot = r.chance(1, 3) ? r.pick<i64>({0, 6, 604794, 604788, 302400, 302406}) : r.below(100800) * 6;
  U64 iodc = r.below(1024);
  for (int k = 0; k < sets; k++) {
    uint32_t w[3][11]; for (auto &x : w) for (auto &y : x) y = (uint32_t)(r.next() & 0x3fffffff);
    auto setw = [&](int sub, int word) -> uint32_t & { return w[sub][word]; };
    for (auto &f : GPSF) { unsigned len; raw_field(f, [&](int a, int b) { return w[a][b]; }, &len); if (r.chance(1, 2)) put_field(f, fieldval(r, len), setw); }
    if (r.chance(1, 8)) iodc = r.pick<U64>({239, 240, 247, 248, 255, 256, 495, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 758, 1020, 1021, 1023});
    put_field(GPS_FLD("iodc"), iodc, setw); put_field(GPS_FLD("iode2"), iodc & 255, setw); put_field(GPS_FLD("iode3"), iodc & 255, setw);
    put_field(GPS_FLD("wn"), (U64)W % 1024, setw);
    i64 toe = r.chance(1, 5) ? r.range(0, 37799) : ((tot + (r.chance(1, 4) ? r.range(-14400, 14400) : 7200) + 604800) / 16) % 37800;
    if (r.chance(1, 14)) toe = r.pick<i64>({37800, 37799, 37801, 65535, 40000});
    put_field(GPS_FLD("toe"), (U64)toe, setw);
    if (r.chance(1, 2)) put_field(GPS_FLD("toc"), (U64)toe, setw);
    if (r.chance(1, 12)) put_field(GPS_FLD(r.chance(1, 2) ? "iode2" : "iode3"), (iodc & 255) ^ (1u << r.below(8)), setw);
    if (r.chance(1, 40)) put_field(GPS_FLD("iodc"), iodc ^ (1u << r.below(10)), setw);
    for (int q = 0; q < 3; q++) {
      if (k && r.chance(1, 6)) continue;   // lost: the receiver still holds the previous issue's subframe
      std::vector<i64> a = {q}; for (int j = 3; j <= 10; j++) a.push_back((i64)(w[q][j] | (r.chance(1, 4) ? (uint32_t)r.below(4) << 30 : 0)));
      s.op("sf", a);
    }
    if (r.chance(7, 8)) s.op("decode", {tot, ref, (i64)r.below(3), (i64)(r.chance(1, 5) ? 1 : 0)});
    iodc = (iodc + (U64)r.range(0, 3)) & 1023; tot += 7200; if (tot >= 604800) { tot -= 604800; if (W < ref + 1023) W++; }
  }
}
static void dirty(Ctx &c, ephemeris_t &e, i64 style, U64 seed) {
  if (style == 1) memset(&e, 0xff, sizeof e);
  if (style == 2) { Rng q(seed); uint8_t *p = (uint8_t *)&e; for (size_t i = 0; i < sizeof e; i++) p[i] = (uint8_t)q.next(); }
  if (style) c.fault("dirty_destination");
}
static void run_c16(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    u32 fw[3][8]; memset(fw, 0, sizeof fw);
    ephemeris_t e; memset(&e, 0, sizeof e);
    int valid = 0, refused = 0; i64 last = -1;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "dest") dirty(c, e, o.arg(0), (U64)o.arg(1));
      else if (o.name == "sf") { int q = (int)((U64)o.arg(0) % 3); for (int j = 0; j < 8; j++) fw[q][j] = (u32)o.arg((size_t)j + 1); }
      else if (o.name == "decode") {
        auto get = [&](int sub, int word) { return fw[sub][word - 3]; };
        auto raw = [&](const char *n) { return raw_field(GPS_FLD(n), get); };
        double tot = (double)(o.arg(0) % 604800); unsigned ref = (unsigned)(o.arg(1) & 0x7fff); if (!ref) ref = 1;
        bool dflt = o.arg(3) && ref == 1876;
        e.sid.code = o.arg(2) == 2 ? CODE_QZS_L1CA : CODE_GPS_L1CA; e.sid.sat = o.arg(2) == 2 ? 193 : (u16)(1 + o.arg(0) % 32);
        gnss_signal_t sid0 = e.sid;
        u32 copy[3][8]; memcpy(copy, fw, sizeof fw);
        unsigned iodc = (unsigned)raw("iodc"), i2 = (unsigned)raw("iode2"), i3 = (unsigned)raw("iode3"); U64 toe = raw("toe") * 16;
        bool same = i2 == i3 && i3 == (iodc & 255), inrange = toe < 604800;
        about_to("decode_ephemeris iodc %u iode %u %u toe %llu tot %.0f ref %u", iodc, i2, i3, (unsigned long long)toe, tot, ref);
        if (dflt) decode_ephemeris(fw, &e, tot); else decode_ephemeris_with_wn_ref(fw, &e, tot, (u16)ref);
        c.ev("decode iodc %u iode %u %u toe %llu: valid %d toe week %d", iodc, i2, i3, (unsigned long long)toe, e.valid, e.toe.wn);
        if (memcmp(copy, fw, sizeof fw)) c.fail("gps-input-changed", "the subframe words were changed");
        if (!!e.valid != (same && inrange)) { c.fail("gps-validity", "ephemeris marked %svalid: issues %u %u %u, reference time %llu", e.valid ? "" : "in", iodc, i2, i3, (unsigned long long)toe); return; }
        if (!same) c.fault("mixed_issues");
        if (!inrange) c.fault("reference_time_out_of_range");
        if (!e.valid) { refused++; c.state(mix(iodc * 256 + i2, i3)); continue; }
        valid++;
        const ephemeris_kepler_t &k = e.data.kepler;
        KeplerWant kw[] = KW(k);
        for (auto &x : kw) {
          unsigned len; const WField &f = GPS_FLD(x.name); U64 v = raw_field(f, get, &len);
          double want = (f.sgn ? (double)sx(v, len) : (double)v) * f.scale;
          if (!near_rel(x.got, want)) c.fail("gps-field", "%s is %.17g, sent %.17g", x.name, x.got, want);
        }
        if (k.iodc != iodc || k.iode != i2) c.fail("gps-field", "issues are %u %u, sent %u %u", k.iodc, k.iode, iodc, i2);
        if (!near_rel(k.tgd.gps_s[0], (double)sx(raw("tgd"), 8) * P2(31), 1e-6) || k.tgd.gps_s[1] != 0) c.fail("gps-field", "group delay is %g %g", (double)k.tgd.gps_s[0], (double)k.tgd.gps_s[1]);
        if (k.toc.tow != (double)raw("toc") * 16) c.fail("gps-field", "clock reference time is %.1f", k.toc.tow);
        if (!near_rel(e.ura, GPS_URA[raw("ura")], 1e-6)) c.fail("gps-field", "accuracy is %g for index %u", (double)e.ura, (unsigned)raw("ura"));
        if (e.health_bits != raw("health")) c.fail("gps-field", "health is %u, sent %u", e.health_bits, (unsigned)raw("health"));
        if (e.fit_interval != gps_fit_hours((unsigned)raw("fit"), iodc) * 3600) c.fail("gps-field", "fit interval is %u for flag %u issue %u", e.fit_interval, (unsigned)raw("fit"), iodc);
        if (e.toe.tow != (double)toe) c.fail("gps-field", "reference time is %.1f, sent %llu", e.toe.tow, (unsigned long long)toe);
        if (e.sid.sat != sid0.sat || e.sid.code != sid0.code) c.fail("gps-field", "the satellite changed");
        if (e.source != 0) c.fail("gps-field", "source is %d", (int)e.source);
        i64 wn = (i64)raw("wn"); if (wn < (i64)ref) wn += ((ref - wn + 1023) / 1024) * 1024;   // unique congruent week in [ref, ref+1023], or the raw one beyond
        double off = ((double)e.toe.wn - (double)wn) * 604800 + (double)toe - tot;
        if (std::fabs(off) > 302400) c.fail("gps-week", "reference week %d puts the reference time %.0f s from the transmission in week %lld", e.toe.wn, off, (long long)wn);
        double offc = ((double)k.toc.wn - (double)wn) * 604800 + k.toc.tow - tot;   // either the same week, or the one nearest the transmission
        if (k.toc.wn != e.toe.wn && std::fabs(offc) > 302400) c.fail("gps-week", "clock reference week is %d, reference week %d", k.toc.wn, e.toe.wn);
        if (e.toe.wn != wn) c.probe("week_matched_across_rollover");
        if (std::fabs(off) == 302400) c.probe("half_week_tie");
        if (last >= 0) c.time((double)std::llabs((i64)tot - last)); last = (i64)tot;
        c.state(mix((U64)e.toe.wn * 65536 + toe / 16, iodc));
      }
    }
    c.nontrivial = valid > 0 || refused > 0;
    if (valid && refused) c.probe("valid_and_refused");
  });
}

// ---- C17: Galileo I/NAV word types 1..5, 128 bits each
static void gen_c17(Rng &r, Scenario &s, U64) {
  s.op("dest", {(i64)r.below(3), (i64)r.next()});
  int sets = (int)r.range(1, 4);
  U64 iod = r.below(1024); i64 wn = r.chance(1, 5) ? r.pick<i64>({0, 1, 4095, 4094}) : r.range(0, 4095), tow = r.chance(1, 3) ? r.pick<i64>({0, 1, 604799, 302400, 302399, 302401}) : r.range(0, 604799);
  for (int k = 0; k < sets; k++) {
    u8 pg[5][16]; for (auto &p : pg) for (auto &b : p) b = (u8)r.next();
    auto put = [&](const char *n, U64 v) { const BField &f = gal(n); bput(pg[f.page], f.pos, f.len, v); };
    for (auto &f : GALF) if (r.chance(1, 2)) bput(pg[f.page], f.pos, f.len, fieldval(r, (unsigned)f.len));
    for (int q = 0; q < 5; q++) { char n[8]; snprintf(n, sizeof n, "type%d", q); put(n, (U64)q + 1); if (q < 4) { snprintf(n, sizeof n, "iod%d", q); put(n, iod); } }
    i64 toe = r.chance(1, 5) ? r.range(0, 10079) : ((tow + (r.chance(1, 4) ? r.range(-14400, 14400) : -600) + 604800) / 60) % 10080, toc = r.chance(1, 2) ? toe : r.range(0, 10079);
    if (r.chance(1, 12)) toe = r.range(10080, 16383); if (r.chance(1, 12)) toc = r.range(10080, 16383);
    put("toe", (U64)toe); put("toc", (U64)toc); put("gstwn", (U64)wn); put("gsttow", (U64)tow);
    if (r.chance(3, 4)) { put("e5bhs", r.chance(1, 4) ? 2 : 0); put("e1bhs", r.chance(1, 4) ? 2 : 0); }
    if (r.chance(1, 14)) { char n[8]; snprintf(n, sizeof n, "iod%d", (int)r.below(4)); put(n, iod ^ (1u << r.below(10))); }
    for (int q = 0; q < 5; q++) {
      if (k && r.chance(1, 7)) continue;   // lost page: still the previous issue's
      U64 hi, lo; memcpy(&hi, pg[q], 8); memcpy(&lo, pg[q] + 8, 8);
      s.op("page", {q, (i64)hi, (i64)lo});
    }
    if (r.chance(7, 8)) s.op("decode", {(i64)r.below(3)});
    iod = (iod + (U64)r.range(0, 2)) & 1023; tow += 600; if (tow >= 604800) { tow -= 604800; wn = (wn + 1) & 4095; }
  }
}
static double gal_sisa(unsigned i) { return i < 50 ? i * 0.01 : i < 75 ? 0.5 + (i - 50) * 0.02 : i < 100 ? 1.0 + (i - 75) * 0.04 : i < 126 ? 2.0 + (i - 100) * 0.16 : i < 255 ? 6.0 : -1.0; }
static void run_c17(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    u8 pg[5][GAL_INAV_CONTENT_BYTE]; memset(pg, 0, sizeof pg);
    ephemeris_t e; memset(&e, 0, sizeof e);
    int valid = 0, refused = 0; double last = -1;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "dest") dirty(c, e, o.arg(0), (U64)o.arg(1));
      else if (o.name == "page") { int q = (int)((U64)o.arg(0) % 5); U64 a = (U64)o.arg(1), b = (U64)o.arg(2); memcpy(pg[q], &a, 8); memcpy(pg[q] + 8, &b, 8); }
      else if (o.name == "decode") {
        auto raw = [&](const char *n) { const BField &f = gal(n); return bget(pg[f.page], f.pos, f.len); };
        static const code_t codes[3] = {CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E1C};
        e.sid.code = codes[o.arg(0) % 3];
        u8 copy[5][16]; memcpy(copy, pg, sizeof pg);
        bool same = raw("iod0") == raw("iod1") && raw("iod0") == raw("iod2") && raw("iod0") == raw("iod3");
        double toe = (double)raw("toe") * 60, toc = (double)raw("toc") * 60, tow = (double)raw("gsttow"); i64 wn = (i64)raw("gstwn") + 1024;
        if (tow >= 604800) continue;   // no system time: outside the property
        bool inrange = toe < 604800 && toc < 604800;
        bool healthy = (raw("e5bhs") == 0 || raw("e5bhs") == 2) && (raw("e1bhs") == 0 || raw("e1bhs") == 2);
        about_to("decode_gal_ephemeris_safe toe %.0f toc %.0f issues %u %u %u %u", toe, toc, (unsigned)raw("iod0"), (unsigned)raw("iod1"), (unsigned)raw("iod2"), (unsigned)raw("iod3"));
        ephemeris_t plain; memcpy(&plain, &e, sizeof e); bool ok = decode_gal_ephemeris_safe(pg, &e);
        if (ok) { decode_gal_ephemeris(pg, &plain); if (memcmp(&plain, &e, sizeof e)) { c.fail("gal-entry-points", "the two decoders disagree on the same pages"); return; } }
        c.ev("decode: %d valid %d toe %d %.0f", ok, e.valid, e.toe.wn, e.toe.tow);
        if (memcmp(copy, pg, sizeof pg)) c.fail("gal-input-changed", "the pages were changed");
        if (!same) c.fault("mixed_issues"); if (!inrange) c.fault("reference_time_out_of_range"); if (!healthy) c.fault("unhealthy_signal");
        if (!inrange && ok) { c.fail("gal-accepts", "a reference time beyond the week is accepted (%.0f, %.0f)", toe, toc); return; }
        if (inrange && same && !ok) { c.fail("gal-refuses", "a consistent set is refused"); return; }
        if (!ok && e.valid) { c.fail("gal-refused-valid", "decoding failed but the ephemeris is marked valid"); return; }
        if (e.valid && !(same && inrange && healthy)) { c.fail("gal-validity", "ephemeris marked valid with issues %u %u %u %u, health %u %u", (unsigned)raw("iod0"), (unsigned)raw("iod1"), (unsigned)raw("iod2"), (unsigned)raw("iod3"), (unsigned)raw("e5bhs"), (unsigned)raw("e1bhs")); return; }
        if (same && inrange && healthy && !e.valid) { c.fail("gal-validity", "a consistent healthy set is not marked valid"); return; }
        if (!ok || !same) { refused++; c.state(mix(raw("iod0") * 1024 + raw("iod1"), raw("iod2") * 1024 + raw("iod3"))); continue; }
        valid++;
        const ephemeris_kepler_t &k = e.data.kepler;
        KeplerWant kw[] = KW(k);
        for (auto &x : kw) {
          const BField &f = gal(x.name); U64 v = raw(x.name); double want = (f.sgn ? (double)sx(v, (unsigned)f.len) : (double)v) * f.scale;
          if (!near_rel(x.got, want)) c.fail("gal-field", "%s is %.17g, sent %.17g", x.name, x.got, want);
        }
        for (int q = 0; q < 2; q++) { double want = (double)sx(raw(q ? "bgdb" : "bgda"), 10) * P2(32); if (!near_rel(k.tgd.gal_s[q], want, 1e-6)) c.fail("gal-field", "group delay %d is %g, sent %g", q, (double)k.tgd.gal_s[q], want); }
        if (k.iode != raw("iod0") || k.iodc != raw("iod0")) c.fail("gal-field", "issues are %u %u, sent %u", k.iodc, k.iode, (unsigned)raw("iod0"));
        if (e.sid.sat != raw("svid") || e.sid.code != codes[o.arg(0) % 3]) c.fail("gal-field", "satellite is %u, sent %u", e.sid.sat, (unsigned)raw("svid"));
        double sisa = gal_sisa((unsigned)raw("sisa")); if (sisa < 0 ? e.ura >= 0 : std::fabs(e.ura - sisa) > 1e-5) c.fail("gal-field", "accuracy is %g for index %u", (double)e.ura, (unsigned)raw("sisa"));
        if (e.fit_interval != 4 * 3600) c.fail("gal-field", "fit interval is %u", e.fit_interval);
        if (e.toe.tow != toe || k.toc.tow != toc) c.fail("gal-field", "reference times are %.1f %.1f, sent %.1f %.1f", e.toe.tow, k.toc.tow, toe, toc);
        if (e.source != 0) c.fail("gal-field", "source is %d", (int)e.source);
        if (e.health_bits != 0) c.fail("gal-health", "health bits are %u for a satellite whose health is in the validity", e.health_bits);
        if (e.valid && inrange && !c.failed() && toe <= toc && toc - toe <= 14400 && sisa >= 0) {   // whatever was stored before, a fresh healthy set is usable at its clock reference time
          gps_time_t t = k.toc; about_to("usability of the decoded ephemeris");
          if (std::fabs(((double)e.toe.wn - (double)k.toc.wn) * 604800 + toe - toc) <= 14400 && e.toe.wn > 0 && !ephemeris_valid(&e, &t)) c.fail("gal-usable", "a fresh healthy set is not usable at its clock reference time (status %d)", (int)ephemeris_valid_detailed(&e, &t));
        }
        double o1 = ((double)e.toe.wn - (double)wn) * 604800 + toe - tow, o2 = ((double)k.toc.wn - (double)wn) * 604800 + toc - tow;
        if (std::fabs(o1) > 302400) c.fail("gal-week", "reference week %d puts the reference time %.0f s from system time in week %lld", e.toe.wn, o1, (long long)wn);
        if (std::fabs(o2) > 302400) c.fail("gal-week", "clock reference week %d puts the clock reference time %.0f s from system time in week %lld", k.toc.wn, o2, (long long)wn);
        if (e.toe.wn != wn) c.probe("week_matched_across_rollover");
        if (last >= 0) c.time(std::fabs(tow - last)); last = tow;
        c.state(mix((U64)e.toe.wn * 65536 + raw("toe"), raw("iod0")));
      }
    }
    c.nontrivial = valid > 0 || refused > 0;
    if (valid && refused) c.probe("valid_and_refused");
  });
}

// ---- C18: BeiDou D1 subframes 1..3 (BDS-SIS-ICD-2.1 figures 5-8..5-10), words 1..10, 22 information bits in word 2.. and 26 - 11 in word 1
static void gen_c18(Rng &r, Scenario &s, U64) {
  s.op("dest", {(i64)r.below(3), (i64)r.next()});
  int sets = (int)r.range(1, 4);
  for (int k = 0; k < sets; k++) {
    uint32_t w[3][11]; for (auto &x : w) for (auto &y : x) y = (uint32_t)(r.next() & 0x3fffffff);
    if (r.chance(1, 8)) for (auto &x : w) for (auto &y : x) y = r.chance(1, 2) ? 0 : 0x3fffffff;
    for (auto &f : BDSF) { unsigned len; raw_field(f, [&](int a, int b) { return w[a][b]; }, &len); if (r.chance(1, 2)) put_field(f, fieldval(r, len), [&](int a, int b) -> uint32_t & { return w[a][b]; }); }
    for (int q = 0; q < 3; q++) { if (k && r.chance(1, 6)) continue; std::vector<i64> a = {q}; for (int j = 1; j <= 10; j++) a.push_back((i64)w[q][j]); s.op("sf", a); }
    s.op("decode", {r.range(1, 63), (i64)r.below(3)});
  }
}
static void run_c18(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    u32 fw[3][10]; memset(fw, 0, sizeof fw);
    ephemeris_t e; memset(&e, 0, sizeof e); ionosphere_t io; memset(&io, 0, sizeof io);
    int decodes = 0;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "dest") { dirty(c, e, o.arg(0), (U64)o.arg(1)); memcpy(&io, &e, sizeof io); }
      else if (o.name == "sf") { int q = (int)((U64)o.arg(0) % 3); for (int j = 0; j < 10; j++) fw[q][j] = (u32)o.arg((size_t)j + 1); }
      else if (o.name == "decode") {
        auto get = [&](int sub, int word) { return fw[sub][word - 1]; };
        auto raw = [&](const char *n) { return raw_field(BDS_FLD(n), get); };
        auto val = [&](const char *n) { unsigned len; const WField &f = BDS_FLD(n); U64 v = raw_field(f, get, &len); return (f.sgn ? (double)sx(v, len) : (double)v) * f.scale; };
        static const code_t codes[3] = {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B1CI};
        gnss_signal_t sid = {(u16)o.arg(0), codes[o.arg(1) % 3]};
        u32 copy[3][10]; memcpy(copy, fw, sizeof fw);
        about_to("decode_bds_d1_ephemeris");
        decode_bds_d1_ephemeris(fw, sid, &e);
        decode_bds_d1_iono(fw[0], &io);
        decodes++;
        if (memcmp(copy, fw, sizeof fw)) c.fail("bds-input-changed", "the subframe words were changed");
        const ephemeris_kepler_t &k = e.data.kepler;
        KeplerWant kw[] = KW(k);
        for (auto &x : kw) { double want = val(x.name); if (!near_rel(x.got, want)) c.fail("bds-field", "%s is %.17g, sent %.17g", x.name, x.got, want); }
        KeplerWant iw[] = {{"al0", io.a0}, {"al1", io.a1}, {"al2", io.a2}, {"al3", io.a3}, {"be0", io.b0}, {"be1", io.b1}, {"be2", io.b2}, {"be3", io.b3}};
        for (auto &x : iw) { double want = val(x.name); if (!near_rel(x.got, want)) c.fail("bds-iono", "%s is %.17g, sent %.17g", x.name, x.got, want); }
        U64 toe = raw("toe"), toc = raw("toc"), wn = raw("wn");
        if (e.toe.tow != (double)toe * 8 || k.toc.tow != (double)toc * 8) c.fail("bds-field", "reference times are %.1f %.1f, sent %llu %llu", e.toe.tow, k.toc.tow, (unsigned long long)toe * 8, (unsigned long long)toc * 8);
        if (e.toe.wn != (s16)(wn + 1356) || k.toc.wn != e.toe.wn || io.toa.wn != e.toe.wn) c.fail("bds-field", "reference weeks are %d %d %d, sent %llu", e.toe.wn, k.toc.wn, io.toa.wn, (unsigned long long)wn);
        if (k.iode != (toe * 8 / 720) % 240 || k.iodc != (toc * 8 / 720) % 240) c.fail("bds-field", "issues are %u %u for reference times %llu %llu", k.iode, k.iodc, (unsigned long long)toe * 8, (unsigned long long)toc * 8);
        for (int q = 0; q < 2; q++) { double want = val(q ? "tgd2" : "tgd1"); if (!near_rel(k.tgd.bds_s[q], want, 1e-6)) c.fail("bds-field", "group delay %d is %g, sent %g", q + 1, (double)k.tgd.bds_s[q], want); }
        if (e.health_bits != raw("health")) c.fail("bds-field", "health is %u, sent %u", e.health_bits, (unsigned)raw("health"));
        unsigned u = (unsigned)raw("urai"); if (u < 15 ? !near_rel(e.ura, GPS_URA[u], 1e-6) : e.ura >= 0) c.fail("bds-field", "accuracy is %g for index %u", (double)e.ura, u);
        if (e.sid.sat != sid.sat || e.sid.code != sid.code) c.fail("bds-field", "satellite is %u/%d", e.sid.sat, (int)e.sid.code);
        if (e.source != 0) c.fail("bds-field", "source is %d", (int)e.source);
        { // the issue checksum other receivers compute: CRC-24Q of the transmitted fields, in the published order
          static const struct { const char *n; int len; } F[] = {{"idot", 14}, {"af2", 11}, {"af1", 22}, {"af0", 24}, {"crs", 18}, {"dn", 16}, {"m0", 32}, {"cuc", 18}, {"ecc", 32}, {"cus", 18}, {"sqrta", 32}, {"cic", 18}, {"omega0", 32}, {"cis", 18}, {"inc", 32}, {"crc", 18}, {"w", 32}, {"omegadot", 24}};
          uint32_t reg = 0; auto bit = [&](unsigned b) { reg = (reg << 1) ^ ((((reg >> 23) ^ b) & 1) ? 0x1864cfbu : 0); reg &= 0xffffff; };
          for (auto &x : F) { U64 v = raw(x.n); for (int i = x.len - 1; i >= 0; i--) bit((unsigned)(v >> i & 1)); }
          for (int i = 0; i < 5; i++) bit(0);
          about_to("get_bds2_iod_crc");
          u32 got = get_bds2_iod_crc(&e);
          if (got != reg) c.fail("bds-issue-crc", "issue checksum is %06x, of the transmitted fields %06x", got, reg);
        }
        c.ev("decoded toe %d %.0f af0 %.17g m0 %.17g", e.toe.wn, e.toe.tow, k.af0, k.m0);
        c.state(mix(wn * 131072 + toe, toc)); if (u == 15) c.probe("accuracy_unknown"); if (raw("health")) c.probe("unhealthy_satellite"); c.time(30);
      }
    }
    c.nontrivial = decodes > 0; if (decodes > 1) c.probe("storage_reused");
  });
}

// ---- C19: GPS subframe 4/5 pages through every page decoder
static const WField ALMF[] = {
  {"ecc", false, P2(21), {{0, 3, 9, 16}}}, {"toa", false, 4096, {{0, 4, 1, 8}}}, {"dinc", true, P2(19) * PI_GPS, {{0, 4, 9, 16}}}, {"omegadot", true, P2(38) * PI_GPS, {{0, 5, 1, 16}}}, {"health", false, 1, {{0, 5, 17, 8}}},
  {"sqrta", false, P2(11), {{0, 6, 1, 24}}}, {"omega0", true, P2(23) * PI_GPS, {{0, 7, 1, 24}}}, {"w", true, P2(23) * PI_GPS, {{0, 8, 1, 24}}}, {"m0", true, P2(23) * PI_GPS, {{0, 9, 1, 24}}}, {"af0", true, P2(20), {{0, 10, 1, 8}, {0, 10, 20, 3}}}, {"af1", true, P2(38), {{0, 10, 9, 11}}},
  {"dataid", false, 1, {{0, 3, 1, 2}}}, {"svid", false, 1, {{0, 3, 3, 6}}},
  {"reftoa", false, 4096, {{0, 3, 9, 8}}}, {"refwn", false, 1, {{0, 3, 17, 8}}},
  {"a1", true, P2(50), {{0, 6, 1, 24}}}, {"a0", true, P2(30), {{0, 7, 1, 24}, {0, 8, 1, 8}}}, {"tot", false, 4096, {{0, 8, 9, 8}}}, {"wnt", false, 1, {{0, 8, 17, 8}}}, {"dtls", true, 1, {{0, 9, 1, 8}}}, {"wnlsf", false, 1, {{0, 9, 9, 8}}}, {"dn", false, 1, {{0, 9, 17, 8}}}, {"dtlsf", true, 1, {{0, 10, 1, 8}}},
  {"al0", true, P2(30), {{0, 3, 9, 8}}}, {"al1", true, P2(27), {{0, 3, 17, 8}}}, {"al2", true, P2(24), {{0, 4, 1, 8}}}, {"al3", true, P2(24), {{0, 4, 9, 8}}}, {"be0", true, 2048, {{0, 4, 17, 8}}}, {"be1", true, 16384, {{0, 5, 1, 8}}}, {"be2", true, 65536, {{0, 5, 9, 8}}}, {"be3", true, 65536, {{0, 5, 17, 8}}},
};
#define ALM_FLD(n) (*fld(ALMF, sizeof ALMF / sizeof *ALMF, n))
static void gen_c19(Rng &r, Scenario &s, U64) {
  s.op("dest", {(i64)r.below(3), (i64)r.next()});
  int n = (int)r.range(1, 12);
  i64 ref = r.chance(1, 3) ? 1876 : r.range(1, 20000);
  for (int i = 0; i < n; i++) {
    uint32_t w[11]; for (auto &y : w) y = (uint32_t)(r.next() & 0x3fffffff);
    auto setw = [&](int, int b) -> uint32_t & { return w[b]; };
    for (auto &f : ALMF) { unsigned len; raw_field(f, [&](int, int b) { return w[b]; }, &len); if (r.chance(1, 4)) put_field(f, fieldval(r, len), setw); }
    put_field(ALM_FLD("dataid"), r.chance(1, 8) ? r.below(4) : 1, setw);
    U64 sv = r.chance(1, 4) ? r.below(64) : r.pick<U64>({51, 63, 56, 56, 0, 1, 32, 33, 52, 55, 57, 62, (U64)r.range(1, 32)});
    put_field(ALM_FLD("svid"), sv, setw);
    if (sv == 56) { put_field(ALM_FLD("dn"), r.chance(1, 6) ? r.below(256) : (U64)r.range(1, 7), setw); if (r.chance(1, 2)) { put_field(ALM_FLD("dtls"), 18, setw); put_field(ALM_FLD("dtlsf"), r.chance(1, 2) ? 19 : 18, setw); } }
    std::vector<i64> a = {ref, (i64)r.below(2)}; for (int j = 3; j <= 10; j++) a.push_back((i64)w[j]);
    if (r.chance(1, 20)) continue;  // lost
    s.op("page", a);
    if (r.chance(1, 12)) s.ops.push_back(s.ops.back());   // received twice
  }
}
static bool allzero(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) if (b[i]) return false; return true; }
static void run_c19(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    almanac_t al; almanac_ref_week_t rw; almanac_health_t ah; utc_params_t up; ionosphere_t io;
    memset(&al, 0, sizeof al); memset(&rw, 0, sizeof rw); memset(&ah, 0, sizeof ah); memset(&up, 0, sizeof up); memset(&io, 0, sizeof io);
    int took = 0, passed = 0;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "dest") {
        Rng q((U64)o.arg(1)); struct { void *p; size_t n; } d[] = {{&al, sizeof al}, {&rw, sizeof rw}, {&ah, sizeof ah}, {&up, sizeof up}, {&io, sizeof io}};
        if (o.arg(0)) c.fault("dirty_destination");
        for (auto &x : d) for (size_t i = 0; i < x.n; i++) ((uint8_t *)x.p)[i] = o.arg(0) == 0 ? 0 : o.arg(0) == 1 ? 0xff : (uint8_t)q.next();
      } else if (o.name == "page") {
        u32 w[8], copy[8]; for (int j = 0; j < 8; j++) w[j] = (u32)o.arg((size_t)j + 2); memcpy(copy, w, sizeof w);
        auto get = [&](int, int word) { return w[word - 3]; };
        auto raw = [&](const char *n) { return raw_field(ALM_FLD(n), get); };
        auto sval = [&](const char *n) { unsigned len; const WField &f = ALM_FLD(n); U64 v = raw_field(f, get, &len); return (f.sgn ? (double)sx(v, len) : (double)v) * f.scale; };
        auto same = [&](const char *what, const char *n, double got, double want) { if (!near_rel(got, want)) c.fail(what, "%s is %.17g, sent %.17g", n, got, want); };
        unsigned id = (unsigned)raw("dataid"), sv = (unsigned)raw("svid"), ref = (unsigned)(o.arg(0) & 0x7fff); if (!ref) ref = 1;
        bool dflt = o.arg(1) && ref == 1876;
        auto wk256 = [&](U64 v) { return v >= ref ? (i64)v : (i64)(v + ((ref - v + 255) / 256) * 256); };
        about_to("page data ID %u SV ID %u", id, sv);
        bool ra = almanac_decode(w, &al), rwk = dflt ? almanac_decode_week(w, &rw) : almanac_decode_week_with_wn_ref(w, &rw, (u16)ref), rh = almanac_decode_health(w, &ah), ri = decode_iono_parameters(w, &io);
        bool ru = dflt ? decode_utc_parameters(w, &up) : decode_utc_parameters_with_wn_ref(w, &up, (u16)ref);
        if (memcmp(copy, w, sizeof w)) c.fail("page-input-changed", "the page was changed");
        U64 dn = raw("dn");
        bool wa = id == 1 && sv >= 1 && sv <= 32, ww = id == 1 && sv == 51, wh = id == 1 && (sv == 51 || sv == 63), wi = id == 1 && sv == 56, wu = wi && dn >= 1 && dn <= 7;
        c.ev("page %u/%u: almanac %d week %d health %d utc %d iono %d", id, sv, ra, rwk, rh, ru, ri);
        if (ra != wa || rwk != ww || rh != wh || ru != wu || ri != wi) { c.fail("page-gate", "page data ID %u SV ID %u (day %u) taken by almanac %d week %d health %d utc %d iono %d", id, sv, (unsigned)dn, ra, rwk, rh, ru, ri); return; }
        if (!wa && (al.valid || !allzero(&al.data, sizeof al.data))) c.fail("page-leftover", "a refused almanac page leaves an almanac behind");
        if (!ww && (rw.wna || rw.toa)) c.fail("page-leftover", "a refused page leaves a reference week behind");
        if (!wh && (ah.health_bits_valid || !allzero(ah.health_bits, 32))) c.fail("page-leftover", "a refused page leaves health bits behind");
        if (!wi && (up.t_lse.wn || up.dt_ls || up.dt_lsf || up.a0 != 0 || up.a1 != 0)) c.fail("page-leftover", "a refused page leaves UTC parameters behind");
        if (!wi && (io.a0 != 0 || io.b0 != 0 || io.a3 != 0 || io.b3 != 0)) c.fail("page-leftover", "a refused page leaves ionosphere parameters behind");
        if (wa) {
          same("almanac-field", "eccentricity", al.data.kepler.ecc, sval("ecc"));
          { double want = sval("dinc") + 0.3 * PI_GPS; if (std::fabs(al.data.kepler.inc - want) > 1e-13) c.fail("almanac-field", "inclination is %.17g, sent %.17g", al.data.kepler.inc, want); }
          same("almanac-field", "node rate", al.data.kepler.omegadot, sval("omegadot")); same("almanac-field", "semi-axis root", al.data.kepler.sqrta, sval("sqrta")); same("almanac-field", "node", al.data.kepler.omega0, sval("omega0"));
          same("almanac-field", "perigee", al.data.kepler.w, sval("w")); same("almanac-field", "anomaly", al.data.kepler.m0, sval("m0")); same("almanac-field", "clock offset", al.data.kepler.af0, sval("af0")); same("almanac-field", "clock drift", al.data.kepler.af1, sval("af1"));
          if (!al.valid || al.sid.sat != sv || al.sid.code != CODE_GPS_L1CA || al.toa.wn != -1 || al.toa.tow != sval("toa") || al.health_bits != raw("health") || al.fit_interval != 140 * 3600 || al.ura != 900)
            c.fail("almanac-field", "almanac of satellite %u: valid %d satellite %u reference %d %.0f health %u fit %u", sv, al.valid, al.sid.sat, al.toa.wn, al.toa.tow, al.health_bits, al.fit_interval);
        }
        if (ww && (rw.toa != (s32)sval("reftoa") || rw.wna != (s16)wk256(raw("refwn")))) c.fail("almanac-week", "reference week is %d %d, sent %u %u with reference %u", rw.wna, rw.toa, (unsigned)raw("refwn"), (unsigned)raw("reftoa"), ref);
        if (wh) {
          u32 mask = sv == 51 ? 0x00ffffffu : 0xff000000u;
          if (ah.health_bits_valid != mask) c.fail("health-mask", "page %u gives validity mask %08x", sv, ah.health_bits_valid);
          for (int k = 1; k <= 32; k++) {
            unsigned want = 0;
            if (sv == 51 && k <= 24) want = (unsigned)wbits(w[4 - 3 + (k - 1) / 4], 1 + 6 * ((k - 1) % 4), 6);
            if (sv == 63 && k == 25) want = (unsigned)wbits(w[8 - 3], 19, 6);
            if (sv == 63 && k > 25) want = (unsigned)wbits(w[9 - 3 + (k - 26) / 4], 1 + 6 * ((k - 26) % 4), 6);
            if (ah.health_bits[k - 1] != want) { c.fail("health-field", "page %u gives satellite %d health %u, sent %u", sv, k, ah.health_bits[k - 1], want); break; }
          }
        }
        if (wi) { KeplerWant iw[] = {{"al0", io.a0}, {"al1", io.a1}, {"al2", io.a2}, {"al3", io.a3}, {"be0", io.b0}, {"be1", io.b1}, {"be2", io.b2}, {"be3", io.b3}}; for (auto &x : iw) same("iono-field", x.name, x.got, sval(x.name)); }
        if (wu) {
          same("utc-field", "a0", up.a0, sval("a0")); same("utc-field", "a1", up.a1, sval("a1"));
          if (up.tot.tow != sval("tot") || up.tot.wn != (s16)wk256(raw("wnt")) || up.dt_ls != (int)sval("dtls") || up.dt_lsf != (int)sval("dtlsf"))
            c.fail("utc-field", "UTC reference %d %.0f leap seconds %d -> %d, sent %u %u %d -> %d", up.tot.wn, up.tot.tow, up.dt_ls, up.dt_lsf, (unsigned)raw("wnt"), (unsigned)raw("tot"), (int)sval("dtls"), (int)sval("dtlsf"));
          // start of the leap second in GPS time: midnight after day dn of week wnlsf, plus the offset in force there
          double mid = (double)wk256(raw("wnlsf")) * 604800 + (double)dn * 86400, tot = (double)wk256(raw("wnt")) * 604800 + sval("tot");
          double rest = (double)dn * 86400 + sval("dtls") + sval("a0") + sval("a1") * (mid - tot), got = ((double)up.t_lse.wn - (double)wk256(raw("wnlsf"))) * 604800 + up.t_lse.tow, want = rest;
          if (std::fabs(got - want) > 1e-7 || up.t_lse.tow < 0 || up.t_lse.tow >= 604800) c.fail("utc-lse", "leap second at week %d %.9f, expected %.9f s later", up.t_lse.wn, up.t_lse.tow, want - got);
          c.probe("utc_page");
        }
        if (wa || ww || wh || wi) took++; else passed++;
        if (id != 1) c.fault("foreign_data_id"); if (wi && !wu) c.fault("bad_leap_day"); if (!(wa || ww || wh || wi)) c.fault("other_page");
        c.state(mix(id * 64 + sv, ref)); c.time(30);
      }
    }
    c.nontrivial = took > 0; if (took && passed) c.probe("mixed_pages");
  });
}

#define REAL "the message decoders in src/decode_glo.c, src/ephemeris.c, src/almanac.c, src/gnss_time.c, src/ionosphere.c, src/bits.c with everything they call"
#define STUB "satellite transmitter, channel and receiver buffers (model), log output (discarded)"
Prop g_props[] = {
  {"C14", gen_c14, run_c14, 144000, 2000000, "every answer of the check against the code's definition, for intact strings and strings with one or two flipped bits", REAL, STUB, "distinct (flipped bits, answer)"},
  {"C15", gen_c15, run_c15, 320000, 8000000, "validity and every field against a reference decoder of the strings actually received", REAL, STUB, "distinct (reference time, slot, day, week, interval) or refusal reasons"},
  {"C16", gen_c16, run_c16, 400000, 12000000, "validity, every field and the resolved weeks against a table-driven reference decoder of the subframes actually received", REAL, STUB, "distinct (week, reference time, issue)"},
  {"C17", gen_c17, run_c17, 400000, 12000000, "acceptance, validity, every field and the resolved weeks against a table-driven reference decoder of the pages actually received", REAL, STUB, "distinct (week, reference time, issue)"},
  {"C18", gen_c18, run_c18, 400000, 12000000, "every field against a table-driven reference decoder of the subframes actually received", REAL, STUB, "distinct (week, reference times)"},
  {"C19", gen_c19, run_c19, 400000, 12000000, "which decoder takes which page, and every field, against a table-driven reference decoder", REAL, STUB, "distinct (data ID, SV ID, reference week)"},
};
const int g_nprops = (int)(sizeof g_props / sizeof *g_props);
