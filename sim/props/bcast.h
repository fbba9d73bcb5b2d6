// What satellites send: bit layouts of the navigation messages from the interface documents, and reading and writing of their fields.
#pragma once
#include <cmath>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
[[maybe_unused]] static const double PI_GPS = 3.1415926535898;
[[maybe_unused]] static i64 sx(U64 v, unsigned len) { return len >= 64 ? (i64)v : (i64)(v << (64 - len)) >> (64 - len); }
[[maybe_unused]] static bool near_rel(double a, double b, double rel = 1e-13) { return a == b || std::fabs(a - b) <= rel * std::fabs(b); }
[[maybe_unused]] static bool is_unknown(const gps_time_t &t) { return t.wn == -1; }

// =========================================================================== GLONASS strings
// A string is 85 bits, numbered as in the interface document; bit n is word[(n-1)/32] bit (n-1)%32.
struct Str { uint32_t w[3]; };
[[maybe_unused]] static unsigned gbit(const Str &s, int n) { return (s.w[(n - 1) / 32] >> ((n - 1) % 32)) & 1; }
[[maybe_unused]] static void gset(Str &s, int n, unsigned v) { uint32_t m = 1u << ((n - 1) % 32); uint32_t &x = s.w[(n - 1) / 32]; x = v ? x | m : x & ~m; }
[[maybe_unused]] static U64 gget(const Str &s, int lo, int len) { U64 v = 0; for (int i = len - 1; i >= 0; i--) v = v << 1 | gbit(s, lo + i); return v; }
[[maybe_unused]] static void gput(Str &s, int lo, int len, U64 v) { for (int i = 0; i < len; i++) gset(s, lo + i, (unsigned)(v >> i) & 1); }
[[maybe_unused]] static int hpos(int bit) {   // Hamming position of data bit 9..85: the positions that are no power of two, in order
  int p = 0, b = 8;
  while (b < bit) { p++; if (p & (p - 1)) b++; }
  return p;
}
[[maybe_unused]] static int g_hpos[86];
[[maybe_unused]] static void hamming_init() { if (!g_hpos[9]) for (int b = 9; b <= 85; b++) g_hpos[b] = hpos(b); }
[[maybe_unused]] static void hamming_encode(Str &s) {
  hamming_init();
  unsigned x = 0, par = 0;
  for (int b = 9; b <= 85; b++) if (gbit(s, b)) { x ^= (unsigned)g_hpos[b]; par ^= 1; }
  for (int i = 0; i < 7; i++) { gset(s, i + 1, (x >> i) & 1); par ^= (x >> i) & 1; }
  gset(s, 8, par);
}
[[maybe_unused]] static bool hamming_accepts(const Str &s) {   // the rule of section 4.7 for "no error in the data bits"
  hamming_init();
  unsigned x = 0, par = 0;
  for (int b = 9; b <= 85; b++) if (gbit(s, b)) { x ^= (unsigned)g_hpos[b]; par ^= 1; }
  for (int i = 0; i < 7; i++) { unsigned c = gbit(s, i + 1); x ^= c << i; par ^= c; }
  par ^= gbit(s, 8);
  return (x == 0 && !par) || (par && __builtin_popcount(x) == 1);
}
[[maybe_unused]] static glo_string_t gstr(const Str &s) { glo_string_t g; for (int i = 0; i < 3; i++) g.word[i] = s.w[i]; return g; }
struct GField { int str, lo, len; const char *name; };
[[maybe_unused]] static const GField GF[] = {
  {1, 9, 27, "x"}, {1, 41, 24, "vx"}, {1, 36, 5, "ax"}, {1, 65, 12, "tk"}, {1, 77, 2, "P1"},
  {2, 9, 27, "y"}, {2, 41, 24, "vy"}, {2, 36, 5, "ay"}, {2, 70, 7, "tb"}, {2, 78, 3, "B"}, {2, 77, 1, "P2"},
  {3, 9, 27, "z"}, {3, 41, 24, "vz"}, {3, 36, 5, "az"}, {3, 69, 11, "gamma"}, {3, 65, 1, "l"}, {3, 66, 2, "P"}, {3, 80, 1, "P3"},
  {4, 59, 22, "tau"}, {4, 54, 5, "dtau"}, {4, 49, 5, "En"}, {4, 34, 1, "P4"}, {4, 30, 4, "Ft"}, {4, 16, 11, "NT"}, {4, 11, 5, "n"}, {4, 9, 2, "M"},
  {5, 70, 11, "NA"}, {5, 38, 32, "tauc"}, {5, 32, 5, "N4"}, {5, 10, 22, "taugps"}, {5, 9, 1, "l5"},
};
[[maybe_unused]] static const int NGF = (int)(sizeof GF / sizeof *GF);
// =========================================================================== field tables for word-oriented messages
struct Part { int sub, word, bit, len; };   // subframe index, word 1-based, first bit 1-based (MSB), length
struct WField { const char *name; bool sgn; double scale; Part p[3]; };
[[maybe_unused]] static U64 wbits(uint32_t w, int bit, int len) { return (w >> (30 - (bit + len - 1))) & ((1u << len) - 1u); }
template <class GETW> [[maybe_unused]] static U64 raw_field(const WField &f, GETW getw, unsigned *len = nullptr) {
  U64 v = 0; unsigned n = 0;
  for (auto &p : f.p) if (p.len) { v = v << p.len | wbits(getw(p.sub, p.word), p.bit, p.len); n += (unsigned)p.len; }
  if (len) *len = n;
  return v;
}
template <class SETW> [[maybe_unused]] static void put_field(const WField &f, U64 v, SETW setw) {
  for (int i = 2; i >= 0; i--) if (f.p[i].len) {
    const Part &p = f.p[i]; U64 m = (1ULL << p.len) - 1;
    uint32_t &w = setw(p.sub, p.word); int sh = 30 - (p.bit + p.len - 1);
    w = (w & ~((uint32_t)m << sh)) | (uint32_t)(v & m) << sh; v >>= p.len;
  }
}
#define P2(n) (1.0 / (double)(1ULL << (n)))
// GPS LNAV subframes 1..3 (IS-GPS-200 tables 20-I, 20-III), words 3..10
[[maybe_unused]] static const WField GPSF[] = {
  {"wn", false, 1, {{0, 3, 1, 10}}}, {"ura", false, 1, {{0, 3, 13, 4}}}, {"health", false, 1, {{0, 3, 17, 6}}}, {"iodc", false, 1, {{0, 3, 23, 2}, {0, 8, 1, 8}}},
  {"tgd", true, P2(31), {{0, 7, 17, 8}}}, {"toc", false, 16, {{0, 8, 9, 16}}}, {"af2", true, P2(55), {{0, 9, 1, 8}}}, {"af1", true, P2(43), {{0, 9, 9, 16}}}, {"af0", true, P2(31), {{0, 10, 1, 22}}},
  {"iode2", false, 1, {{1, 3, 1, 8}}}, {"crs", true, P2(5), {{1, 3, 9, 16}}}, {"dn", true, P2(43) * PI_GPS, {{1, 4, 1, 16}}}, {"m0", true, P2(31) * PI_GPS, {{1, 4, 17, 8}, {1, 5, 1, 24}}},
  {"cuc", true, P2(29), {{1, 6, 1, 16}}}, {"ecc", false, P2(33), {{1, 6, 17, 8}, {1, 7, 1, 24}}}, {"cus", true, P2(29), {{1, 8, 1, 16}}}, {"sqrta", false, P2(19), {{1, 8, 17, 8}, {1, 9, 1, 24}}},
  {"toe", false, 16, {{1, 10, 1, 16}}}, {"fit", false, 1, {{1, 10, 17, 1}}},
  {"cic", true, P2(29), {{2, 3, 1, 16}}}, {"omega0", true, P2(31) * PI_GPS, {{2, 3, 17, 8}, {2, 4, 1, 24}}}, {"cis", true, P2(29), {{2, 5, 1, 16}}}, {"inc", true, P2(31) * PI_GPS, {{2, 5, 17, 8}, {2, 6, 1, 24}}},
  {"crc", true, P2(5), {{2, 7, 1, 16}}}, {"w", true, P2(31) * PI_GPS, {{2, 7, 17, 8}, {2, 8, 1, 24}}}, {"omegadot", true, P2(43) * PI_GPS, {{2, 9, 1, 24}}}, {"iode3", false, 1, {{2, 10, 1, 8}}}, {"idot", true, P2(43) * PI_GPS, {{2, 10, 9, 14}}},
};
[[maybe_unused]] static const WField *fld(const WField *t, size_t n, const char *name) { for (size_t i = 0; i < n; i++) if (!strcmp(t[i].name, name)) return &t[i]; abort(); }
#define GPS_FLD(n) (*fld(GPSF, sizeof GPSF / sizeof *GPSF, n))
[[maybe_unused]] static const double GPS_URA[16] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
[[maybe_unused]] static u32 gps_fit_hours(unsigned flag, unsigned iodc) {   // IS-GPS-200 tables 20-XI, 20-XII
  if (!flag) return 4;
  if (iodc >= 240 && iodc <= 247) return 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  return 6;
}
struct BField { const char *name; bool sgn; double scale; int page, pos, len; };
[[maybe_unused]] static const BField GALF[] = {
  {"toe", false, 60, 0, 16, 14}, {"m0", true, P2(31) * PI_GPS, 0, 30, 32}, {"ecc", false, P2(33), 0, 62, 32}, {"sqrta", false, P2(19), 0, 94, 32},
  {"omega0", true, P2(31) * PI_GPS, 1, 16, 32}, {"inc", true, P2(31) * PI_GPS, 1, 48, 32}, {"w", true, P2(31) * PI_GPS, 1, 80, 32}, {"idot", true, P2(43) * PI_GPS, 1, 112, 14},
  {"omegadot", true, P2(43) * PI_GPS, 2, 16, 24}, {"dn", true, P2(43) * PI_GPS, 2, 40, 16}, {"cuc", true, P2(29), 2, 56, 16}, {"cus", true, P2(29), 2, 72, 16}, {"crc", true, P2(5), 2, 88, 16}, {"crs", true, P2(5), 2, 104, 16}, {"sisa", false, 1, 2, 120, 8},
  {"svid", false, 1, 3, 16, 6}, {"cic", true, P2(29), 3, 22, 16}, {"cis", true, P2(29), 3, 38, 16}, {"toc", false, 60, 3, 54, 14}, {"af0", true, P2(34), 3, 68, 31}, {"af1", true, P2(46), 3, 99, 21}, {"af2", true, P2(59), 3, 120, 6},
  {"bgda", true, P2(32), 4, 47, 10}, {"bgdb", true, P2(32), 4, 57, 10}, {"e5bhs", false, 1, 4, 67, 2}, {"e1bhs", false, 1, 4, 69, 2}, {"gstwn", false, 1, 4, 73, 12}, {"gsttow", false, 1, 4, 85, 20},
  {"iod0", false, 1, 0, 6, 10}, {"iod1", false, 1, 1, 6, 10}, {"iod2", false, 1, 2, 6, 10}, {"iod3", false, 1, 3, 6, 10}, {"type0", false, 1, 0, 0, 6}, {"type1", false, 1, 1, 0, 6}, {"type2", false, 1, 2, 0, 6}, {"type3", false, 1, 3, 0, 6}, {"type4", false, 1, 4, 0, 6},
};
[[maybe_unused]] static const BField &gal(const char *n) { for (auto &f : GALF) if (!strcmp(f.name, n)) return f; abort(); }
[[maybe_unused]] static U64 bget(const u8 *p, int pos, int len) { U64 v = 0; for (int i = pos; i < pos + len; i++) v = v << 1 | ((p[i / 8] >> (7 - i % 8)) & 1); return v; }
[[maybe_unused]] static void bput(u8 *p, int pos, int len, U64 v) { for (int i = pos + len - 1; i >= pos; i--, v >>= 1) { u8 m = (u8)(1 << (7 - i % 8)); p[i / 8] = (u8)((v & 1) ? p[i / 8] | m : p[i / 8] & ~m); } }
[[maybe_unused]] static const WField BDSF[] = {
  {"health", false, 1, {{0, 2, 13, 1}}}, {"urai", false, 1, {{0, 2, 19, 4}}}, {"wn", false, 1, {{0, 3, 1, 13}}}, {"toc", false, 8, {{0, 3, 14, 9}, {0, 4, 1, 8}}}, {"tgd1", true, 1e-10, {{0, 4, 9, 10}}}, {"tgd2", true, 1e-10, {{0, 4, 19, 4}, {0, 5, 1, 6}}},
  {"al0", true, P2(30), {{0, 5, 7, 8}}}, {"al1", true, P2(27), {{0, 5, 15, 8}}}, {"al2", true, P2(24), {{0, 6, 1, 8}}}, {"al3", true, P2(24), {{0, 6, 9, 8}}},
  {"be0", true, 2048, {{0, 6, 17, 6}, {0, 7, 1, 2}}}, {"be1", true, 16384, {{0, 7, 3, 8}}}, {"be2", true, 65536, {{0, 7, 11, 8}}}, {"be3", true, 65536, {{0, 7, 19, 4}, {0, 8, 1, 4}}},
  {"af2", true, P2(40) * P2(26), {{0, 8, 5, 11}}}, {"af0", true, P2(33), {{0, 8, 16, 7}, {0, 9, 1, 17}}}, {"af1", true, P2(50), {{0, 9, 18, 5}, {0, 10, 1, 17}}},
  {"dn", true, P2(43) * PI_GPS, {{1, 2, 13, 10}, {1, 3, 1, 6}}}, {"cuc", true, P2(31), {{1, 3, 7, 16}, {1, 4, 1, 2}}}, {"m0", true, P2(31) * PI_GPS, {{1, 4, 3, 20}, {1, 5, 1, 12}}}, {"ecc", false, P2(33), {{1, 5, 13, 10}, {1, 6, 1, 22}}},
  {"cus", true, P2(31), {{1, 7, 1, 18}}}, {"crc", true, P2(6), {{1, 7, 19, 4}, {1, 8, 1, 14}}}, {"crs", true, P2(6), {{1, 8, 15, 8}, {1, 9, 1, 10}}}, {"sqrta", false, P2(19), {{1, 9, 11, 12}, {1, 10, 1, 20}}},
  {"toe", false, 8, {{1, 10, 21, 2}, {2, 2, 13, 10}, {2, 3, 1, 5}}}, {"inc", true, P2(31) * PI_GPS, {{2, 3, 6, 17}, {2, 4, 1, 15}}}, {"cic", true, P2(31), {{2, 4, 16, 7}, {2, 5, 1, 11}}}, {"omegadot", true, P2(43) * PI_GPS, {{2, 5, 12, 11}, {2, 6, 1, 13}}},
  {"cis", true, P2(31), {{2, 6, 14, 9}, {2, 7, 1, 9}}}, {"idot", true, P2(43) * PI_GPS, {{2, 7, 10, 13}, {2, 8, 1, 1}}}, {"omega0", true, P2(31) * PI_GPS, {{2, 8, 2, 21}, {2, 9, 1, 11}}}, {"w", true, P2(31) * PI_GPS, {{2, 9, 12, 11}, {2, 10, 1, 21}}},
};
#define BDS_FLD(n) (*fld(BDSF, sizeof BDSF / sizeof *BDSF, n))
