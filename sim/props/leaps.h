// Independent calendar and leap-second model.
#pragma once
#include "sim.h"
// days since 1970-01-01 of a civil date (proleptic Gregorian)
static inline i64 civil_days(i64 y, int m, int d) {
  i64 days = 0;
  auto leap = [](i64 v) { return (v % 4 == 0 && v % 100 != 0) || v % 400 == 0; };
  i64 a = y - 1; days = a * 365 + a / 4 - a / 100 + a / 400 - 719162;   // days before 1 January of y
  static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  for (int i = 1; i < m; i++) days += md[i - 1] + (i == 2 && leap(y));
  return days + d - 1;
}
// GPS time = UTC + offset; a leap second occupies the GPS second [start, start+1), after which the offset is one more.
struct LeapRule {
  struct L { i64 gps_start; int after; };
  std::vector<L> l; int before = 0;
  LeapRule() {
    // dates (UTC) at whose preceding midnight a second was inserted, from the IERS bulletins
    static const int when[18][2] = {{1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
    for (int i = 0; i < 18; i++) l.push_back({civil_days(when[i][0], when[i][1], 1) * 86400 - 315964800 + i, i + 1});
  }
  void set_broadcast(int dtls, int dtlsf, i64 gps_start) { l.clear(); before = dtls; if (dtlsf != dtls) l.push_back({gps_start, dtlsf}); }
  // UTC seconds since the GPS epoch with leap seconds left out (no leap second in progress)
  i64 gps_of_utc(i64 utc) const { int off = before; for (auto &x : l) if (utc + (x.after - 1) >= x.gps_start) off = x.after; return utc + off; }
  int offset_at(double gps) const { int off = before; for (auto &x : l) if (gps >= (double)x.gps_start + 1) off = x.after; return off; }
  bool in_leap(double gps) const { for (auto &x : l) if (gps >= (double)x.gps_start && gps < (double)x.gps_start + 1) return true; return false; }
};
