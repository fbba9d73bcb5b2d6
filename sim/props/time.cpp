// C20..C23: clocks that step, drift, jump and roll over, against integer calendar and week arithmetic.
#include <cmath>
#include <cstdlib>
#include "leaps.h"
#include "shims.h"
#include "sim.h"
#include <swiftnav/gnss_time.h>
static const i64 WK = 604800;
// A GPS instant split exactly: whole seconds since the GPS epoch and a fraction in [0, 1).
struct Inst { i64 s; double f; };
static Inst inst(const gps_time_t &t) { double k = std::floor(t.tow); return {(i64)t.wn * WK + (i64)k, t.tow - k}; }
static gps_time_t gpst(i64 s, double f) { gps_time_t t; i64 w = s / WK; t.wn = (s16)w; t.tow = (double)(s - w * WK) + f; if (t.tow >= 604800) { t.tow -= 604800; t.wn++; } return t; }
static double minus(const Inst &a, const Inst &b) { return (double)(a.s - b.s) + (a.f - b.f); }

// The UTC scale the receiver should show: table or broadcast.
struct Utc {
  bool bc = false; utc_params_t p; LeapRule table;
  i64 lse_mid = 0;               // UTC midnight (no leap seconds counted) at the end of the leap second's day
  double d = 0;                  // polynomial at that midnight
  int ls = 0, lsf = 0;
  double poly(const Inst &t) const { if (!bc) return 0; double x = minus(t, inst(p.tot)); return p.a0 + p.a1 * x + p.a2 * x * x; }
  // offset without polynomial, leap flag and distance to the nearest edge at which either changes
  void at(const Inst &t, int &off, bool &leap, double &edge) const {
    off = 0; leap = false; edge = 1e9;
    if (bc) {
      double x = (double)(t.s - (lse_mid + ls)) + t.f - d;
      off = x >= 1 ? lsf : ls; leap = lsf > ls && x >= 0 && x < 1; edge = std::fmin(std::fabs(x), std::fabs(x - 1));
    } else for (auto &l : table.l) {
      if (t.s >= l.gps_start + 1) off = l.after;
      if (t.s == l.gps_start) leap = true;
      double x = (double)(t.s - l.gps_start) + t.f; edge = std::fmin(edge, std::fmin(std::fabs(x), std::fabs(x - 1)));
    }
  }
};
static void load_params(Utc &u, const Op &o) {
  // {style, week, day, ls, lsf, a0, a1, a2, tot week, tot steps}
  memset(&u.p, 0, sizeof u.p);
  if (o.arg(0) == 0) { u.bc = false; return; }
  int wn = (int)((U64)o.arg(1) % 4000) + 1, dn = (int)((U64)(o.arg(2) - 1) % 7) + 1;
  u.ls = (int)((U64)o.arg(3) % 40); u.lsf = u.ls + (int)((U64)o.arg(4) & 1);
  u.p.a0 = i2d(o.arg(5)); u.p.a1 = i2d(o.arg(6)); u.p.a2 = i2d(o.arg(7));
  if (!(std::fabs(u.p.a0) <= 1e-6) || !(std::fabs(u.p.a1) <= 2.3e-13) || !(std::fabs(u.p.a2) <= 1e-20)) u.p.a0 = u.p.a1 = u.p.a2 = 0;
  i64 tw = std::max<i64>(1, wn + (i64)((U64)o.arg(8) % 127) - 63);
  u.p.tot.wn = (s16)tw; u.p.tot.tow = (double)((U64)o.arg(9) % 148) * 4096; if (u.p.tot.tow >= 604800) u.p.tot.tow = 0;
  u.p.dt_ls = (s8)u.ls; u.p.dt_lsf = (s8)u.lsf;
  u.lse_mid = (i64)wn * WK + dn * 86400;
  double x = minus(Inst{u.lse_mid, 0}, inst(u.p.tot)); u.d = u.p.a0 + u.p.a1 * x + u.p.a2 * x * x;
  u.p.t_lse = gpst(u.lse_mid + u.ls, 0); u.p.t_lse.tow += u.d;
  if (u.p.t_lse.tow < 0) { u.p.t_lse.tow += 604800; u.p.t_lse.wn--; } if (u.p.t_lse.tow >= 604800) { u.p.t_lse.tow -= 604800; u.p.t_lse.wn++; }
  u.bc = true;
  if (o.arg(0) == 2) { u.bc = false; u.p.t_lse.wn = (s16)-(o.arg(1) & 1); }   // unusable parameters: no leap second week
}
static void gen_params(Rng &r, Scenario &s, i64 wn) {
  auto small = [&](double m) { return d2i(r.chance(1, 3) ? 0.0 : r.uniform(-m, m)); };
  s.op("params", {r.chance(1, 12) ? 2 : 1, wn, r.range(1, 7), r.chance(1, 2) ? 18 : (i64)r.below(40), (i64)r.below(2), small(1e-6), small(2.3e-13), r.chance(4, 5) ? 0 : small(1e-20), (i64)r.below(127), (i64)r.below(148)});
}
static double gen_step(Rng &r) {
  double x;
  switch (r.below(9)) {
    case 0: x = r.pick<double>({1, 0.5, 0.25, 60, 3600, 86400, 604800}); break;
    case 1: x = r.uniform(0, 2); break;
    case 2: x = r.uniform(0, 1e-3); break;
    case 3: x = r.pick<double>({0.1, 0.2, 0.01, 0.001, 0.999, 1.001}); break;
    case 4: x = r.uniform(0, 86400); break;
    case 5: x = std::ldexp(1.0, -(int)r.range(1, 33)); break;
    case 6: x = r.uniform(0, 604800 * 3.0); break;
    default: x = r.uniform(0, 1.0);
  }
  return r.chance(1, 6) ? -x : x;
}
// ---- C20
static void gen_c20(Rng &r, Scenario &s, U64 idx) {
  LeapRule L;
  bool bc = r.chance(1, 2); i64 wn = r.chance(1, 4) ? r.range(1000, 2300) : r.range(1, 4000), base;
  if (bc) { gen_params(r, s, wn); }
  int eras = (int)r.range(1, 3);
  for (int e = 0; e < eras; e++) {
    if (s.ops.size() && s.ops.back().name == "params" && r.chance(2, 3)) { const Op &o = s.ops.back(); base = o.arg(1) * WK + o.arg(2) * 86400 + o.arg(3); }   // at the broadcast leap second
    else if (bc && r.chance(1, 2)) base = (wn + r.range(-60, 60)) * WK + (i64)r.below(WK);
    else switch (r.below(6)) {
      case 0: case 1: base = L.l[r.below(L.l.size())].gps_start; break;
      case 2: base = (i64)r.below(32000) * WK; break;                                    // week edge
      case 3: { i64 y = r.range(1980, 2590); if (r.chance(1, 3)) y = r.pick<i64>({1999, 2000, 2099, 2100, 2200, 2400, 2000, 1980, 2096}); base = civil_days(y, r.pick<int>({1, 3, 12, 2}), r.pick<int>({1, 1, 28, 31})) * 86400 - 315964800 + r.pick<i64>({0, 18, 17, -1}); break; }
      case 4: base = (i64)r.below(4000) * WK + (i64)r.below(7) * 86400; break;
      default: base = (i64)(r.next() % (U64)(32000 * WK));
    }
    double f = r.chance(1, 2) ? 0 : r.unit();
    if (base < 40) base = 40;
    s.op("jump", {base + r.range(-3, 3), d2i(f)});
    int n = (int)r.range(2, 14);
    for (int i = 0; i < n; i++) {
      if (r.chance(1, 14)) gen_params(r, s, std::max<i64>(1, base / WK + r.range(-60, 60)));
      else if (r.chance(1, 20)) s.op("noparams");
      s.op("step", {d2i(r.chance(1, 2) ? r.pick<double>({0.25, 0.125, 0.5, 1.0, 0.1}) : gen_step(r))});
    }
  }
  if (r.chance(1, 6)) s.op("edges");
  (void)idx;
}
static void run_c20(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    Utc U; bool given = false; gps_time_t now = gpst(40, 0); bool havelast = false; Inst lt{}; i64 ltotal = 0; double lfrac = 0; utc_tm last; memset(&last, 0, sizeof last);
    int reads = 0;
    auto read = [&] {
      if (now.wn < 0 || now.wn > 32700 || !(now.tow >= 0 && now.tow < 604800)) { now = gpst(4000, 0); havelast = false; }
      Inst t = inst(now);
      if (U.bc && std::llabs(t.s - (U.lse_mid)) > 200 * WK) { U.bc = false; given = false; havelast = false; c.probe("parameters_expired"); }   // broadcast parameters are used near their time
      if (t.s < 40 && U.bc) return;
      budget_reset();
      const utc_params_t *p = given ? &U.p : nullptr;
      int off; bool leap; double edge; U.at(t, off, leap, edge); bool blur = edge < 1e-6 && !(t.f == 0 && (!U.bc || (U.p.a0 == 0 && U.p.a1 == 0 && U.p.a2 == 0)));   // whole seconds are exact
      utc_tm u; memset(&u, 0xee, sizeof u);
      about_to("gps2utc week %d %.12f (%s)", now.wn, now.tow, U.bc ? "broadcast" : "table");
      gps2utc(&now, &u, p);
      reads++;
      c.ev("week %d %.10f -> %u-%u-%u %u:%u:%u %.9f", now.wn, now.tow, u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac);
      static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      auto ly = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
      bool valid = u.month >= 1 && u.month <= 12 && u.month_day >= 1 && u.month_day <= md[u.month - 1] + (u.month == 2 && ly(u.year)) && u.hour < 24 && u.minute < 60 && u.second_int <= 60 && u.second_frac >= 0 && u.second_frac < 1;
      if (!valid) { c.fail("utc-invalid", "week %d %.9f shows %u-%u-%u %u:%u:%u %.9f", now.wn, now.tow, u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac); return; }
      i64 day = civil_days(u.year, u.month, u.month_day);
      if (days_in_month(u.year, u.month) != md[u.month - 1] + (u.month == 2 && ly(u.year))) c.fail("utc-month", "month %u of %u has %u days", u.month, u.year, days_in_month(u.year, u.month));
      if (u.year_day != day - civil_days(u.year, 1, 1) + 1) c.fail("utc-yearday", "%u-%u-%u is given as day %u of the year", u.year, u.month, u.month_day, u.year_day);
      if (u.week_day != (day + 3) % 7 + 1) c.fail("utc-weekday", "%u-%u-%u is given as week day %u", u.year, u.month, u.month_day, u.week_day);   // 1 January 1970 was a Thursday
      double sc = day + 40587 > 131000 ? 4 : 1;   // the day number has fewer fractional bits from 2217 on
      bool sixty = u.second_int == 60;
      if (sixty != leap && !blur) c.fail("utc-sixty", "second %u shown %s the leap second (week %d %.9f, %.9f s from its edge)", u.second_int, leap ? "during" : "outside", now.wn, now.tow, edge);
      if (sixty && (u.hour != 23 || u.minute != 59)) c.fail("utc-sixty", "second 60 shown at %u:%u", u.hour, u.minute);
      i64 total = day * 86400 - 315964800 + u.hour * 3600 + u.minute * 60 + u.second_int; double frac = u.second_frac;
      double err = (double)(total - (t.s - off)) + (frac - t.f) + U.poly(t), tol = blur ? 2e-6 : 1e-8;
      if (std::fabs(err) > tol && !(blur && std::fabs(std::fabs(err) - 1) < 2e-6)) c.fail("utc-value", "week %d %.9f shows %u-%u-%u %u:%u:%u %.9f, %.9f s from the right time", now.wn, now.tow, u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac, err);
      // order of what is shown
      if (havelast && !blur) {
        auto key = [](const utc_tm &x) { return ((((((U64)x.year * 16 + x.month) * 32 + x.month_day) * 32 + x.hour) * 64 + x.minute) * 64 + x.second_int); };
        double dt = minus(t, lt); U64 a = key(last), b = key(u);
        if (dt > 1e-5 && (b < a || (b == a && frac <= lfrac))) c.fail("utc-order", "%.9f s later the time shown is no later (second %u after %u)", dt, u.second_int, last.second_int);
        if (dt < -1e-5 && (b > a || (b == a && frac >= lfrac))) c.fail("utc-order", "%.9f s earlier the time shown is no earlier (second %u after %u)", -dt, u.second_int, last.second_int);
      }
      if (!blur) { havelast = true; lt = t; ltotal = total; lfrac = frac; last = u; }
      (void)ltotal;
      // the offset and the event flag on their own
      double o1 = get_gps_utc_offset(&now, p); bool e1 = is_leap_second_event(&now, p);
      if (!blur && std::fabs(o1 - (off + U.poly(t))) > 1e-9) c.fail("utc-offset", "offset is %.9f, expected %.9f", o1, off + U.poly(t));
      if (!blur && e1 != leap) c.fail("utc-event", "leap second event %d, expected %d at week %d %.9f", e1, leap, now.wn, now.tow);
      // and back
      about_to("utc2gps");
      gps_time_t back; memset(&back, 0xee, sizeof back); utc2gps(&u, &back, p);
      if (edge > 1e-4) {
        double e = minus(inst(back), t);
        if (!(std::fabs(e) < 2e-6 * sc) || !(back.tow >= 0 && back.tow < 604800)) c.fail("utc-back", "%u-%u-%u %u:%u:%u %.9f goes back to week %d %.9f, %.9f s off", u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac, back.wn, back.tow, e);
      }
      { // calendar variants
        s32 Y, M, D, h, m; double sec; if (p || total % 2) gps2date_params(&now, &Y, &M, &D, &h, &m, &sec, p); else gps2date(&now, &Y, &M, &D, &h, &m, &sec);
        if (Y != u.year || M != u.month || D != u.month_day || h != u.hour || m != u.minute || std::fabs(sec - (u.second_int + u.second_frac)) > 1e-12) c.fail("utc-date", "gps2date gives %d-%d-%d %d:%d:%.9f", Y, M, D, h, m, sec);
        if (!leap && edge > 1e-4) { gps_time_t b2 = p || total % 2 ? date2gps_params(Y, M, D, h, m, sec, p) : date2gps(Y, M, D, h, m, sec); double e = minus(inst(b2), t); if (!(std::fabs(e) < 2e-6 * sc)) c.fail("utc-back", "date2gps is %.9f s off", e); }
        if (!leap) {
          double mjd = gps2mjd_params(&now, p), want = (double)day + 40587 + (u.hour * 3600 + u.minute * 60 + u.second_int + frac) / 86400.0;
          if (std::fabs(mjd - want) > 3e-11 * sc) c.fail("utc-mjd", "Modified Julian Day is %.12f, expected %.12f", mjd, want);
          gps_time_t b3 = mjd2gps_params(mjd, p); double e = minus(inst(b3), t); if (edge > 1e-4 && !(std::fabs(e) < 2e-6 * sc)) c.fail("utc-back", "mjd2gps is %.9f s off", e);
          // and the calendar of that day number, with a guard against the day's edge
          double sod = u.hour * 3600 + u.minute * 60 + u.second_int + frac;
          if (sod > 1e-3 && sod < 86399.999) {
            s32 a[5]; double ss; mjd2date(mjd, &a[0], &a[1], &a[2], &a[3], &a[4], &ss);
            double sd = a[3] * 3600.0 + a[4] * 60.0 + ss;
            if (a[0] != u.year || a[1] != u.month || a[2] != u.month_day || std::fabs(sd - sod) > 3e-6 * sc) c.fail("utc-mjd", "day %.9f goes back to %d-%d-%d %.6f s of day, expected %u-%u-%u %.6f", mjd, a[0], a[1], a[2], sd, u.year, u.month, u.month_day, sod);
            utc_tm v = mjd2utc(mjd); double sv = v.hour * 3600.0 + v.minute * 60.0 + v.second_int + v.second_frac;
            if (v.year != u.year || v.month != u.month || v.month_day != u.month_day || v.year_day != u.year_day || v.week_day != u.week_day || std::fabs(sv - sod) > 3e-6 * sc) c.fail("utc-mjd", "day %.9f shows %u-%u-%u %.6f s of day", mjd, v.year, v.month, v.month_day, sv);
          }
        }
        { s32 a[5]; double ss; utc2date(&u, &a[0], &a[1], &a[2], &a[3], &a[4], &ss);
          if (a[0] != u.year || a[1] != u.month || a[2] != u.month_day || a[3] != u.hour || a[4] != u.minute || ss != u.second_int + u.second_frac) c.fail("utc-date", "utc2date gives %d-%d-%d %d:%d:%.9f", a[0], a[1], a[2], a[3], a[4], ss); }
        if (!sixty) {
          about_to("date2utc");
          utc_tm v = date2utc(u.year, u.month, u.month_day, u.hour, u.minute, u.second_int + frac);
          bool ok = v.month >= 1 && v.month <= 12 && v.month_day >= 1 && v.month_day <= md[v.month - 1] + (v.month == 2 && ly(v.year)) && v.hour < 24 && v.minute < 60 && v.second_int < 60 && v.second_frac >= 0 && v.second_frac < 1;
          i64 vd = ok ? civil_days(v.year, v.month, v.month_day) : 0;
          double e = (double)((vd - day) * 86400 + (v.hour - u.hour) * 3600 + (v.minute - u.minute) * 60 + v.second_int - u.second_int) + (v.second_frac - frac);
          if (!ok || std::fabs(e) > 3e-6 * sc || v.year_day != vd - civil_days(v.year, 1, 1) + 1 || v.week_day != (vd + 3) % 7 + 1)
            c.fail("utc-date", "date2utc of %u-%u-%u %u:%u:%.9f gives %u-%u-%u %u:%u:%u %.9f, day %u of the year, week day %u", u.year, u.month, u.month_day, u.hour, u.minute, u.second_int + frac, v.year, v.month, v.month_day, v.hour, v.minute, v.second_int, v.second_frac, v.year_day, v.week_day);
          // Greenwich mean sidereal time (IAU 1982) of that instant, for some UT1-UTC
          double ut1 = ((double)((U64)t.s % 19) - 9) * 0.1; long double sod = u.hour * 3600.0L + u.minute * 60 + u.second_int + frac + ut1; i64 d0 = day;
          if (sod < 0) { sod += 86400; d0--; } if (sod >= 86400) { sod -= 86400; d0++; }
          long double T = ((long double)(d0 + 40587) - 51544.5L) / 36525, g = 24110.54841L + T * (8640184.812866L + T * (0.093104L - 6.2e-6L * T)) + 1.002737909350795L * sod;
          g = fmodl(g, 86400); if (g < 0) g += 86400;
          about_to("utc2gmst");
          double got = utc2gmst(u, ut1); long double diff = got * 43200 / M_PIl - g; diff -= 86400 * roundl(diff / 86400);
          if (!(fabsl(diff) < 5e-5 * sc)) c.fail("utc-sidereal", "sidereal time of %u-%u-%u %u:%u:%.6f (UT1 %.1f s ahead) is %.9f rad, %.9f s off", u.year, u.month, u.month_day, u.hour, u.minute, u.second_int + frac, ut1, got, (double)diff);
          if (!(got >= 0 && got <= 2 * M_PI + 1e-9)) c.fail("utc-sidereal-range", "sidereal time of %u-%u-%u is %.9f rad", u.year, u.month, u.month_day, got);
        }
        if (!p) {
          u16 doy = gps2doy(&now); if (doy != u.year_day - 1) c.fail("utc-yearday", "day of year is %u", doy);
          time_t ut = gps2time(&now); i64 want = t.s - off + 315964800; if ((i64)ut != want) c.fail("utc-unix", "Unix time is %lld, expected %lld", (long long)ut, (long long)want);
        }
      }
      if (leap) c.probe(U.bc ? "inside_broadcast_leap_second" : "inside_table_leap_second");
      if (blur) c.probe("within_1us_of_an_edge");
      if (U.bc && U.lsf == U.ls && edge < 2) c.probe("no_leap_second_announced");
      c.state(mix((U64)(t.s / 86400), (U64)u.second_int * 2 + leap));
    };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      if (o.name == "params") { bool was = given; load_params(U, o); given = true; havelast = false; c.fault(U.bc ? "parameter_upload" : "unusable_parameters"); (void)was; }
      else if (o.name == "noparams") { U.bc = false; given = false; havelast = false; c.fault("parameters_lost"); }
      else if (o.name == "jump") { i64 x = o.arg(0); if (x < 0) x = 0; if (x > 32700 * WK) x = 32700 * WK; double f = i2d(o.arg(1)); if (!(f >= 0 && f < 1)) f = 0; now = gpst(x, f); c.fault("clock_jump"); c.nontrivial = true; read(); }
      else if (o.name == "step") {
        double d = i2d(o.arg(0)); if (!(std::fabs(d) <= 604800 * 4.0)) d = 1;
        if (inst(now).s + d < 40) d = -d;
        if (d < 0) c.fault("clock_backwards"); now.tow += d; while (now.tow < 0) { now.tow += 604800; now.wn--; } while (now.tow >= 604800) { now.tow -= 604800; now.wn++; }
        c.time(std::fabs(d)); c.nontrivial = true; read();
      } else if (o.name == "edges") {   // exactly at, and one representable step around, every edge of the leap second in force
        std::vector<gps_time_t> es;
        if (U.bc) { es.push_back(U.p.t_lse); gps_time_t e = U.p.t_lse; e.tow += 1; if (e.tow >= 604800) { e.tow -= 604800; e.wn++; } es.push_back(e); }
        else for (auto &l : U.table.l) { es.push_back(gpst(l.gps_start, 0)); es.push_back(gpst(l.gps_start + 1, 0)); }
        for (auto &e : es) for (int k = -2; k <= 2 && !c.failed(); k++) { now = e; for (int j = 0; j < std::abs(k); j++) now.tow = std::nextafter(now.tow, k < 0 ? -1 : 1e6); if (now.tow >= 0 && now.tow < 604800) { havelast = false; read(); } }
      }
    }
    if (reads > 1) c.probe("clock_followed");
  });
}

// ---- C21: a receiver whose firmware knows a reference week, listening to truncated week numbers while time goes on
static void gen_c21(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; i++) {
    i64 ref = r.chance(1, 4) ? r.pick<i64>({0, 1, 255, 256, 1023, 1024, 1025, 1876, 2047, 2048, 60000, 59999, 32767}) : r.range(0, 60000);
    s.op("reference", {ref});
    int m = (int)r.range(2, 12);
    for (int j = 0; j < m; j++) switch (r.below(4)) {
      case 0: s.op("hear1024", {r.chance(1, 3) ? r.pick<i64>({0, 1, 1022, 1023, 512}) : (i64)r.below(1024)}); break;
      case 1: s.op("hear256", {r.chance(1, 3) ? r.pick<i64>({0, 1, 254, 255, 128}) : (i64)r.below(256)}); break;
      case 2: s.op("raw", {(i64)r.below(2), r.range(0, 65535)}); break;
      default: {
        i64 wn = r.chance(1, 8) ? -1 : r.chance(1, 5) ? r.pick<i64>({0, 1, 32766}) : r.range(0, 4000);
        auto tow = [&] { return r.chance(1, 3) ? r.pick<double>({0, 604799.999, 302400, 302400.5, 302399.5, 604800 - 1e-9, 1, 302400 + 1e-9}) : r.uniform(0, 604800); };
        double a = tow(), b = r.chance(1, 5) ? std::fmod(a + 302400 + r.pick<double>({0, 0, 1e-6, -1e-6}), 604800) : tow();
        if (r.chance(1, 15)) a = r.pick<double>({-1, 604800, 1e9, NAN, INFINITY, -1e-9});
        s.op("match", {d2i(a), wn, d2i(b), r.range(-1, 4000)});
      }
    }
  }
}
static void run_c21(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    u16 ref = 0; i64 lastt = -1;
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      auto one = [&](u16 raw, int mod) {
        about_to("resolve %u modulo %d, reference %u", raw, mod, ref);
        u16 got = mod == 1024 ? gps_adjust_week_cycle(raw, ref) : gps_adjust_week_cycle256(raw, ref);
        i64 want = raw; if (raw < ref) { want = ref; while ((want - raw) % mod) want++; }
        if (got != want) c.fail("week-resolve", "%u modulo %d with reference %u resolves to %u, expected %lld", raw, mod, ref, got, (long long)want);
        c.ev("%u/%d ref %u -> %u", raw, mod, ref, got); c.state(mix((U64)raw * 2 + (mod == 256), ref)); c.nontrivial = true;
        if (raw < ref && want - ref == mod - 1) c.probe("last_week_of_window"); if (raw < ref && want == ref) c.probe("first_week_of_window");
        if (lastt >= 0) c.time((double)std::llabs(want - lastt) * 604800); lastt = want;
      };
      if (o.name == "reference") { ref = (u16)((U64)o.arg(0) % 60001); c.fault("reference_changed"); }
      else if (o.name == "hear1024") one((u16)((U64)o.arg(0) & 1023), 1024);
      else if (o.name == "hear256") one((u16)((U64)o.arg(0) & 255), 256);
      else if (o.name == "raw") { c.fault("week_beyond_its_field"); one((u16)o.arg(1), o.arg(0) & 1 ? 256 : 1024); }
      else if (o.name == "match") {
        gps_time_t t, rf; t.tow = i2d(o.arg(0)); t.wn = (s16)o.arg(3); rf.wn = (s16)o.arg(1); rf.tow = i2d(o.arg(2));
        if (rf.wn < -1) rf.wn = -1; if (!(rf.tow >= 0 && rf.tow < 604800)) rf.tow = 0;
        gps_time_t t0 = t;
        about_to("match %.9f to week %d %.9f", t.tow, rf.wn, rf.tow);
        bool ok = gps_time_match_weeks_safe(&t, &rf);
        c.ev("match %.9f to %d %.9f: %d week %d", t0.tow, rf.wn, rf.tow, ok, t.wn); c.nontrivial = true;
        if (memcmp(&t.tow, &t0.tow, 8)) c.fail("week-match", "the time of week changed");
        if (rf.wn == -1) { c.probe("unknown_reference"); if (!ok || t.wn != t0.wn) c.fail("week-match", "unknown reference week: answer %d, week %d was %d", ok, t.wn, t0.wn); continue; }
        bool okt = std::isfinite(t.tow) && t.tow >= 0 && t.tow < 604800;
        if (!okt) { c.fault("invalid_time_of_week"); if (ok) c.fail("week-match", "time of week %g accepted", t.tow); continue; }
        double d = t.tow - rf.tow; int k = d > 302400 ? -1 : d < -302400 ? 1 : 0; bool tie = std::fabs(d) == 302400;
        if (rf.wn + k < 0) { c.probe("before_gps_time"); if (ok) c.fail("week-match", "a time before the start of GPS time is accepted (week %d)", t.wn); continue; }
        if (rf.wn + k > 32767) continue;
        if (!ok) { if (!(tie && rf.wn == 0)) c.fail("week-match", "%.9f near week %d %.9f refused", t.tow, rf.wn, rf.tow); continue; }
        double off = ((double)t.wn - rf.wn) * 604800 + t.tow - rf.tow;
        if (std::fabs(off) > 302400) c.fail("week-match", "%.9f near week %d %.9f gets week %d, %.9f s away", t.tow, rf.wn, rf.tow, t.wn, off);
        if (!tie && t.wn != rf.wn + k) c.fail("week-match", "%.9f near week %d %.9f gets week %d", t.tow, rf.wn, rf.tow, t.wn);
        if (tie) c.probe("half_week_tie"); if (k) c.probe("other_week");
        gps_time_t t2 = t0; gps_time_match_weeks(&t2, &rf); if (t2.wn != t.wn) c.fail("week-match", "the asserting variant gives week %d", t2.wn);
        c.state(mix((U64)t.wn, (U64)(k + 1)));
      }
    }
  });
}

// ---- C22
static void gen_c22(Rng &r, Scenario &s, U64) {
  LeapRule L; bool bc = r.chance(1, 3); i64 wn = r.range(840, 3500);
  if (bc) { gen_params(r, s, wn); auto &o = s.ops.back(); o.a[5] = r.chance(1, 2) ? 0 : d2i(r.chance(1, 2) ? r.uniform(-4e-7, 4e-7) : r.pick<double>({-4e-9, 4e-9, 1e-9, -1e-9})); o.a[6] = o.a[7] = 0; }
  int eras = (int)r.range(1, 3);
  for (int e = 0; e < eras; e++) {
    i64 base;
    if (bc && r.chance(2, 3)) { const Op &o = s.ops[0]; base = o.arg(1) * WK + o.arg(2) * 86400 + o.arg(3); }
    else switch (r.below(5)) {
      case 0: base = L.l[10 + r.below(8)].gps_start; break;
      case 1: { i64 y = r.range(1996, 2099); base = civil_days(y, 1, 1) * 86400 - 315964800 + r.pick<i64>({0, -10800, 18, 17, -10782}); break; }   // year edges in UTC and Moscow
      case 2: { i64 y = r.range(1996, 2099); base = civil_days(y, r.pick<int>({3, 2, 7}), 1) * 86400 - 315964800 + r.pick<i64>({0, -10800}); break; }
      case 3: base = 834 * WK + 75610 + (i64)r.below(100); break;
      default: base = 834 * WK + 75611 + (i64)(r.next() % (U64)((civil_days(2099, 12, 31) * 86400 - 315964800) - 834 * WK - 75700));
    }
    s.op("jump", {base + r.range(-3, 3), d2i(r.chance(1, 2) ? 0 : r.unit())});
    int n = (int)r.range(2, 12);
    for (int i = 0; i < n; i++) s.op("step", {d2i(r.chance(1, 2) ? r.pick<double>({0.25, 0.5, 1.0, 0.1, 10800}) : gen_step(r))});
  }
  if (r.chance(1, 8)) s.op("edges");
  if (r.chance(1, 3)) s.op("bad", {r.pick<i64>({0, 1462, 1463, 2047, 65535, 1, 1461}), r.pick<i64>({0, 32, 33, 255, 1, 31}), (i64)r.below(24), (i64)r.below(60)});
}
static void run_c22(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    Utc U; bool given = false; gps_time_t now = gpst(900 * WK, 0);
    const i64 LO = 834 * WK + 75610, HI = civil_days(2099, 12, 31) * 86400 - 315964800;
    auto read = [&] {
      Inst t = inst(now);
      if (t.s < LO || t.s > HI) { now = gpst(std::max(LO, std::min(HI, t.s)), 0); t = inst(now); }
      const utc_params_t *p = given ? &U.p : nullptr;
      int off; bool leap; double edge; U.at(t, off, leap, edge);
      const double drift = U.bc ? U.p.a0 : 0; const bool blur = edge < 1e-6 && !(t.f == 0 && drift == 0);
      if (drift != 0 && (edge < 1e-5 || t.s < 834 * WK + 75700)) return;   // which side of an edge a drifting scale is on is C20's
      i64 msk = t.s - off - (leap ? 1 : 0) + 3 * 3600 + 315964800;   // Moscow seconds since 1970, the leap second shown as second 60
      i64 day = msk / 86400, sod = msk % 86400; if (day < civil_days(1996, 1, 1) || day >= civil_days(2100, 1, 1)) return;
      budget_reset();
      about_to("gps2glo week %d %.9f (%s)", now.wn, now.tow, U.bc ? "broadcast" : "table");
      glo_time_t g = gps2glo(&now, p);
      c.ev("week %d %.9f -> N4 %u NT %u %u:%u:%.9f", now.wn, now.tow, g.n4, g.nt, g.h, g.m, g.s);
      if (g.n4 < 1 || g.n4 > 31 || g.nt < 1 || g.nt > 1461 || g.h > 23 || g.m > 59 || !(g.s >= 0 && g.s < 61)) { c.fail("glo-clock", "week %d %.9f is interval %u day %u %u:%u:%.17g Moscow time", now.wn, now.tow, g.n4, g.nt, g.h, g.m, g.s); return; }
      if (blur) { c.probe("within_1us_of_an_edge"); return; }
      if (g.s >= 60 && !leap) { c.fail("glo-clock", "week %d %.9f shows second %.17g", now.wn, now.tow, g.s); return; }
      int n4 = 1; while (civil_days(1996 + 4 * n4, 1, 1) <= day) n4++;
      i64 nt = day - civil_days(1996 + 4 * (n4 - 1), 1, 1) + 1;
      double sec = (double)(sod % 60) + (leap ? 1 : 0) + t.f;
      if (drift != 0) {   // the shown time may be on the other side of a second, minute, day: compare it as a whole
        c.probe("drifting_utc"); double shown = (double)((civil_days(1996 + 4 * (g.n4 - 1), 1, 1) + g.nt - 1) * 86400 + g.h * 3600 + g.m * 60 - msk) + g.s, want = (leap ? 1 : 0) + t.f - drift;
        if (g.n4 < 1 || g.n4 > 31 || g.nt < 1 || g.nt > 1461 || g.h > 23 || g.m > 59 || !(g.s >= 0 && g.s < 61) || (g.s >= 60) != leap || std::fabs(shown - want) > 1e-8) c.fail("glo-clock", "week %d %.9f with a0 %g is interval %u day %u %u:%u:%.9f Moscow time, %.9f s off", now.wn, now.tow, drift, g.n4, g.nt, g.h, g.m, g.s, shown - want);
      } else if (g.n4 != n4 || g.nt != nt) c.fail("glo-day", "week %d %.6f is interval %u day %u, expected %d day %lld", now.wn, now.tow, g.n4, g.nt, n4, (long long)nt);
      else if (g.h != sod / 3600 || g.m != sod / 60 % 60 || std::fabs(g.s - sec) > 1e-8) c.fail("glo-clock", "week %d %.9f is %u:%u:%.9f Moscow time, expected %lld:%lld:%.9f", now.wn, now.tow, g.h, g.m, g.s, (long long)(sod / 3600), (long long)(sod / 60 % 60), sec);
      about_to("glo2gps N4 %u NT %u %u:%u:%.9f", g.n4, g.nt, g.h, g.m, g.s);
      gps_time_t b = glo2gps(&g, p); double e = minus(inst(b), t);
      if (!(std::fabs(e) < 1e-6) || !gps_time_valid(&b)) c.fail("glo-back", "N4 %u NT %u %u:%u:%.9f goes back to week %d %.9f, %.9f s off", g.n4, g.nt, g.h, g.m, g.s, b.wn, b.tow, e);
      if (leap) c.probe(U.bc ? "inside_broadcast_leap_second" : "inside_table_leap_second"); if (nt == 1) c.probe("first_day_of_interval"); if (nt == 1461) c.probe("last_day_of_interval"); if (sod < 10800) c.probe("moscow_day_ahead");
      c.state(mix((U64)day, leap)); c.nontrivial = true;
    };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      if (o.name == "params") { load_params(U, o); U.p.a1 = U.p.a2 = 0; if (!(std::fabs(U.p.a0) <= 4e-7)) U.p.a0 = 0; U.d = U.p.a0; if (U.bc) { U.p.t_lse = gpst(U.lse_mid + U.ls, 0); U.p.t_lse.tow += U.d; if (U.p.t_lse.tow < 0) { U.p.t_lse.tow += 604800; U.p.t_lse.wn--; } } given = true; c.fault(U.bc ? "parameter_upload" : "unusable_parameters"); }
      else if (o.name == "jump") { i64 x = std::max(LO, std::min(HI, o.arg(0))); double f = i2d(o.arg(1)); if (!(f >= 0 && f < 1)) f = 0; now = gpst(x, f); c.fault("clock_jump"); read(); }
      else if (o.name == "step") {
        double d = i2d(o.arg(0)); if (!(std::fabs(d) <= 604800 * 4.0)) d = 1;
        if (d < 0) c.fault("clock_backwards"); now.tow += d; while (now.tow < 0) { now.tow += 604800; now.wn--; } while (now.tow >= 604800) { now.tow -= 604800; now.wn++; }
        c.time(std::fabs(d)); read();
      } else if (o.name == "edges") {   // exactly at, and one representable step around, every edge of the leap second in force
        std::vector<gps_time_t> es;
        if (given && U.bc) { es.push_back(U.p.t_lse); gps_time_t e = U.p.t_lse; e.tow += 1; if (e.tow >= 604800) { e.tow -= 604800; e.wn++; } es.push_back(e); }
        else for (auto &l : U.table.l) { es.push_back(gpst(l.gps_start, 0)); es.push_back(gpst(l.gps_start + 1, 0)); }
        for (auto &e : es) for (int k = -2; k <= 2 && !c.failed(); k++) { now = e; for (int j = 0; j < std::abs(k); j++) now.tow = std::nextafter(now.tow, k < 0 ? -1 : 1e6); if (now.tow >= 0 && now.tow < 604800 && inst(now).s >= LO) read(); }
      } else if (o.name == "bad") {
        glo_time_t g; g.nt = (u16)o.arg(0); g.n4 = (u8)o.arg(1); g.h = (u8)((U64)o.arg(2) % 24); g.m = (u8)((U64)o.arg(3) % 60); g.s = 0;
        bool ok = g.nt >= 1 && g.nt <= 1461 && g.n4 >= 1 && g.n4 <= 31;
        budget_reset();
        about_to("glo2gps N4 %u NT %u", g.n4, g.nt);
        gps_time_t b = glo2gps(&g, given ? &U.p : nullptr);
        if (ok != (b.wn != WN_UNKNOWN)) c.fail("glo-range", "interval %u day %u gives week %d", g.n4, g.nt, b.wn);
        if (!ok) { c.fault("field_out_of_range"); if (gps_time_valid(&b) || b.tow != TOW_UNKNOWN) c.fail("glo-range", "interval %u day %u gives the time %d %.3f", g.n4, g.nt, b.wn, b.tow); c.nontrivial = true; }
      }
    }
  });
}

// ---- C23
static void gen_c23(Rng &r, Scenario &s, U64) {
  i64 w = r.chance(1, 5) ? r.pick<i64>({1, 2, 1023, 1024, 32000}) : r.range(10, 4000);
  s.op("set", {w, d2i(r.chance(1, 3) ? r.pick<double>({0, 604799.5, 302400, 604800 - 1e-9, 1e-9}) : r.uniform(0, 604800))});
  int n = (int)r.range(2, 20);
  for (int i = 0; i < n; i++) {
    double d = gen_step(r); if (r.chance(1, 12)) d *= r.pick<double>({10, 100, 1e-3}); if (r.chance(1, 20)) d = r.pick<double>({-1e-20, 1e-20, 604800, -604800, 0, -0.0});
    switch (r.below(9)) {
      case 8: s.op("dur", {r.range(-50, 50), d2i(gen_step(r) * r.range(1, 4)), r.range(0, 3000)}); break;
      case 0: s.op("round", {r.range(1, 100), 0}); break;
      case 1: s.op("round", {r.range(1, 100), 1}); break;
      case 2: s.op("near", {d2i(d), (i64)r.below(2)}); break;
      case 3: s.op("range", {d2i(gen_step(r)), d2i(std::fabs(gen_step(r))), (i64)r.below(8)}); break;
      case 4: s.op("mark"); break;
      default: s.op("step", {d2i(d)});
    }
  }
}
static void run_c23(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging();
    gps_time_t t = {0, 100}, mark = t; long double exact = 0, exmark = 0;  // exact: seconds since "set", starting point added separately
    int steps = 0, msteps = 0; gps_time_t start = t; double sumabs = 0, msum = 0;
    auto normal = [&](const gps_time_t &x, const char *who) { if (!(x.tow >= 0 && x.tow < 604800)) c.fail("time-normal", "%s leaves second of week %.12f", who, x.tow); };
    auto secs = [&](double d) { return std::fabs(d) <= 6.1e7 ? d : 1.0; };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset();
      if (o.name == "set") { t.wn = (s16)((U64)o.arg(0) % 32001); t.tow = i2d(o.arg(1)); if (!(t.tow >= 0 && t.tow < 604800)) t.tow = 0; start = mark = t; exact = exmark = 0; steps = msteps = 0; sumabs = msum = 0; }
      else if (o.name == "mark") { mark = t; exmark = exact; msteps = steps; msum = sumabs; }
      else if (o.name == "step") {
        double d = secs(i2d(o.arg(0))); long double tot = (long double)start.wn * 604800 + start.tow + exact + d;
        if (tot < 604800 || tot > 32700.0L * 604800) d = tot < 604800 ? std::fabs(d) : -std::fabs(d);
        gps_time_t b = t; about_to("add_secs %d %.12f %+.12g", t.wn, t.tow, d);
        add_secs(&t, d); exact += d; steps++; sumabs += std::fabs(d); normal(t, "stepping");
        c.ev("step %.12g -> %d %.10f", d, t.wn, t.tow); c.time(std::fabs(d)); if (d < 0) c.fault("clock_backwards"); if (std::fabs(d) >= 604800) c.fault("clock_jump");
        double tol = 2.5e-10 * (steps + 1) + 4e-16 * sumabs;
        long double whole = ((long double)t.wn - start.wn) * 604800 + ((long double)t.tow - start.tow);
        if (fabsl(whole - exact) > tol + 5e-10) c.fail("time-sum", "after %d steps summing to %.10Lf s the time has moved %.10Lf s", steps, exact, whole);
        double df = gpsdifftime(&t, &b); if (std::fabs(df - d) > 5e-10 + 1e-15 * std::fabs(d)) c.fail("time-diff", "a step of %.12g s is a difference of %.12g s", d, df);
        // both ways, weeks and seconds, and against the mark
        for (int q = 0; q < 3; q++) {
          const gps_time_t &hi = q == 1 ? b : t, &lo = q == 0 ? b : q == 1 ? t : mark; long double want = q == 0 ? (long double)d : q == 1 ? -(long double)d : exact - exmark;
          double tl = q == 2 ? 5e-10 * (steps - msteps + 2) + 4e-16 * (sumabs - msum) : 6e-10 + 4e-16 * std::fabs(d); double v = gpsdifftime(&hi, &lo);
          if (fabsl(v - want) > tl + 1e-15 * fabsl(want)) c.fail("time-diff", "difference is %.12g, expected %.12Lg", v, want);
          gps_time_duration_t du; memset(&du, 0xee, sizeof du);
          if (!gpsdifftime_week_second(&hi, &lo, &du)) c.fail("time-weeksec", "refused for week %d %.9f and %d %.9f", hi.wn, hi.tow, lo.wn, lo.tow);
          else {
            if (std::fabs(du.seconds) >= 604800) c.fail("time-weeksec", "%d weeks %.9f s", du.weeks, du.seconds);
            if ((du.weeks > 0 && du.seconds < 0) || (du.weeks < 0 && du.seconds > 0)) c.fail("time-weeksec", "signs differ: %d weeks %.9f s", du.weeks, du.seconds);
            long double all = (long double)du.weeks * 604800 + du.seconds; if (fabsl(all - want) > tl) c.fail("time-weeksec", "%d weeks %.9f s, expected %.12Lg s in all", du.weeks, du.seconds, want);
          }
        }
        // operators
        gps_time_t p = b + d; if (p.wn != t.wn || p.tow != t.tow) c.fail("time-sum", "operator + differs from add_secs");
        if (std::fabs(d) > 1e-6 && ((t > b) != (d > 0) || (t < b) != (d < 0))) c.fail("time-order", "order of times a step of %g apart is wrong", d);
        gps_time_t n = t; if (!normalize_gps_time_safe(&n) || n.wn != t.wn || n.tow != t.tow) c.fail("time-normal", "a normal time changes when normalised");
        n = b; n.tow += d; if (!normalize_gps_time_safe(&n) || n.wn != t.wn || n.tow != t.tow) c.fail("time-normal", "normalising gives week %d %.9f, stepping %d %.9f", n.wn, n.tow, t.wn, t.tow);
        if (t.wn != b.wn) c.probe("week_edge_crossed");
        c.state(mix((U64)t.wn, (U64)(i64)t.tow)); c.nontrivial = true;
      } else if (o.name == "dur") {   // a duration out of its normal form, the whole second as Unix time of GPS scale, and the current week cycle
        i64 wk = o.arg(0) % 1000; double x = i2d(o.arg(1)); if (!(std::fabs(x) < 1e8)) x = 0;
        gps_time_duration_t du; memset(&du, 0, sizeof du); du.weeks = (s16)wk; du.seconds = x; about_to("normalize duration %lld weeks %.9f s", (long long)wk, x); normalize_gps_time_duration(&du);
        long double all = (long double)du.weeks * 604800 + du.seconds, want = (long double)wk * 604800 + x;
        if (std::fabs(du.seconds) >= 604800 || (du.weeks > 0 && du.seconds < 0) || (du.weeks < 0 && du.seconds > 0) || fabsl(all - want) > 1e-9 + 1e-15 * std::fabs(x) + 1e-9 * (std::fabs(x) > 6e6)) c.fail("time-weeksec", "%lld weeks %.9f s are normalised to %d weeks %.9f s", (long long)wk, x, du.weeks, du.seconds);
        if (t.wn > GPS_WEEK_REFERENCE && t.wn < 32000) {
          i64 ut = 315964800 + (i64)t.wn * 604800 + (i64)t.tow; about_to("time2gps_t %lld", (long long)ut); gps_time_t g = time2gps_t((time_t)ut);
          if (g.wn != t.wn || g.tow != std::floor(t.tow)) c.fail("time-unix", "Unix %lld of GPS scale is week %d %.9f, expected %d %.0f", (long long)ut, g.wn, g.tow, t.wn, std::floor(t.tow));
          u16 ref = (u16)((U64)o.arg(2) % 30000); if (o.arg(2) % 3 == 0) ref = (u16)t.wn; if (o.arg(2) % 7 == 0) ref = (u16)std::max(0, t.wn - 1022);
          bool cur = gps_current_time_valid_with_wn_ref(&t, ref), near = t.wn >= (i64)ref && t.wn < (i64)ref + 1000, far = t.wn < (i64)ref || t.wn >= (i64)ref + 1024;
          if ((near && !cur) || (far && cur)) c.fail("time-current", "week %d is given as %s the cycle starting at week %u", t.wn, cur ? "in" : "outside", ref);
        }
        c.nontrivial = true;
      } else if (o.name == "near") {   // one week unknown
        double d = secs(i2d(o.arg(0))); gps_time_t a = t, b = t; add_secs(&a, d); long double want = (long double)a.tow - b.tow;
        if (o.arg(1)) a.wn = -1; else b.wn = -1;
        while (want > 302400) want -= 604800; while (want < -302400) want += 604800;
        double v = gpsdifftime(&a, &b);
        if (std::fabs(v) > 302400 || (fabsl(v - want) > 1e-9 && !(fabsl(fabsl(want) - 302400) < 1e-9 && std::fabs(std::fabs(v) - 302400) < 1e-9))) c.fail("time-unknown", "with a week unknown the difference is %.9f, expected %.9Lf", v, want);
        gps_time_duration_t du; if (gpsdifftime_week_second(&a, &b, &du)) c.fail("time-weeksec", "a difference from an unknown week is given");
        gps_time_t n = a; n.tow += d; if (o.arg(1) && (!normalize_gps_time_safe(&n) || n.wn != -1 || !(n.tow >= 0 && n.tow < 604800))) c.fail("time-unknown", "normalising a time of unknown week gives week %d %.9f", n.wn, n.tow);
        c.fault("unknown_week"); c.nontrivial = true;
      } else if (o.name == "range") {
        gps_time_t b = t, e, q; double x = secs(i2d(o.arg(0))), w = std::fabs(secs(i2d(o.arg(1)))); if (t.wn < 110 || t.wn > 32500) continue;
        e = b; add_secs(&e, w); q = b;
        switch (o.arg(2) & 7) { case 0: q = b; break; case 1: q = e; break; case 2: q = e; q.tow = std::nextafter(q.tow, 1e9); break; case 3: q = b; q.tow = std::nextafter(q.tow, -1); break; case 4: q.wn = -1; q.tow = std::fmod(std::fabs(x), 604800); break; default: add_secs(&q, x); }
        if (q.tow < 0 || q.tow >= 604800 || e.wn > 32760) continue;
        double sb = q.tow - b.tow; if (q.wn == -1) { if (sb > 302400) sb -= 604800; if (sb < -302400) sb += 604800; } else sb += ((double)q.wn - b.wn) * 604800;
        double rg = e.tow - b.tow + ((double)e.wn - b.wn) * 604800; bool want = sb >= 0 && sb <= rg;
        about_to("gpstime_in_range");
        if (gpstime_in_range(&b, &e, &q) != want && std::fabs(std::fabs(sb) - 302400) > 1e-6) c.fail("time-range", "%.9f s after the beginning of a range of %.9f s is given as %s", sb, rg, want ? "outside" : "inside");
        c.probe(want ? "in_range" : "out_of_range"); c.nontrivial = true;
      } else if (o.name == "round") {
        double f = (double)((U64)(o.arg(0) - 1) % 100 + 1); bool fl = o.arg(1) & 1;
        if (t.wn < 1 || t.wn > 32700) continue;
        about_to("%s %d %.12f at %g Hz", fl ? "floor_to_epoch" : "round_to_epoch", t.wn, t.tow, f);
        gps_time_t g = fl ? floor_to_epoch(&t, f) : round_to_epoch(&t, f); normal(g, "rounding");
        double off = ((double)g.wn - t.wn) * 604800 + g.tow - t.tow, k = g.tow * f;
        if (std::fabs(k - std::round(k)) > 1e-7) c.fail("time-grid", "%.9f is not on the %g Hz grid", g.tow, f);
        if (fl ? (off > 1e-9 || off < -1 / f - 1e-9) : std::fabs(off) > 0.5 / f + 1e-9) c.fail("time-grid", "%d %.9f goes to %d %.9f at %g Hz", t.wn, t.tow, g.wn, g.tow, f);
        if (g.wn != t.wn) c.probe("rounded_into_next_week");
        gps_time_t un = t; un.wn = -1; gps_time_t g2 = fl ? floor_to_epoch(&un, f) : round_to_epoch(&un, f); if (g2.wn != -1 || std::fabs(g2.tow - g.tow) > 1e-9) c.fail("time-unknown", "rounding a time of unknown week gives week %d %.9f", g2.wn, g2.tow);
        c.state(mix((U64)g.wn, (U64)(i64)f)); c.nontrivial = true;
      }
    }
  });
}
#define REAL "src/gnss_time.c and include/swiftnav/gnss_time.h"
#define STUB "the receiver's clock and the broadcast of UTC parameters (model), log output (discarded)"
Prop g_props[] = {
  {"C20", gen_c20, run_c20, 120000, 3000000, "every reading of the stepped clock against integer calendar arithmetic and an independent leap second list, order of successive readings, and the way back", REAL, STUB, "distinct (day, second)"},
  {"C21", gen_c21, run_c21, 320000, 4000000, "every resolved week against the congruence and the nearest-week rule", REAL, STUB, "distinct (raw, modulus, reference) and matches"},
  {"C22", gen_c22, run_c22, 320000, 4000000, "every reading against integer calendar arithmetic, and the way back", REAL, STUB, "distinct (Moscow day, leap second)"},
  {"C23", gen_c23, run_c23, 320000, 4000000, "every step, difference, range test and rounding against extended precision arithmetic", REAL, STUB, "distinct (week, second) reached"},
};
const int g_nprops = (int)(sizeof g_props / sizeof *g_props);
