// A simulated receiver and the satellites it hears: true place, speed and clocks, measurements made by light-time from them, and independent geometry.
#pragma once
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include "shims.h"
#include "sim.h"
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
#include <swiftnav/single_epoch_solver.h>
static const double C0 = 299792458.0, WE = 7.2921151467e-5, PI_ = 3.14159265358979323846;
struct V3 { double x[3]; double &operator[](int i) { return x[i]; } double operator[](int i) const { return x[i]; } };
static inline V3 operator+(V3 a, V3 b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
static inline V3 operator-(V3 a, V3 b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static inline V3 operator*(double k, V3 a) { return {{k * a[0], k * a[1], k * a[2]}}; }
static inline double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
static inline V3 cross(V3 a, V3 b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static inline V3 spin(V3 a, double th) { double c = std::cos(th), s = std::sin(th); return {{a[0] * c + a[1] * s, -a[0] * s + a[1] * c, a[2]}}; }
static inline V3 llh_ecef(double lat, double lon, double h) {
  const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f); double N = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
  return {{(N + h) * std::cos(lat) * std::cos(lon), (N + h) * std::cos(lat) * std::sin(lon), (N * (1 - e2) + h) * std::sin(lat)}};
}
static inline void ned_axes(double lat, double lon, V3 &n, V3 &e, V3 &d) {
  n = {{-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)}}; e = {{-std::sin(lon), std::cos(lon), 0}};
  d = {{-std::cos(lat) * std::cos(lon), -std::cos(lat) * std::sin(lon), -std::sin(lat)}};
}
struct Sig { int code, cons; double mhz; double radius; int lo, n; };   // constellation number as in the library's order of first appearance is not used: this is our own
static const Sig SIGS[] = {
  {CODE_GPS_L1CA, 0, 1575.42, 26560e3, 1, 32}, {CODE_GPS_L2CM, 0, 1227.60, 26560e3, 1, 32}, {CODE_GPS_L5I, 0, 1176.45, 26560e3, 1, 32}, {CODE_GPS_L2P, 0, 1227.60, 26560e3, 1, 32}, {CODE_GPS_L1P, 0, 1575.42, 26560e3, 1, 32},
  {CODE_GPS_L2CL, 0, 1227.60, 26560e3, 1, 32}, {CODE_GPS_L2CX, 0, 1227.60, 26560e3, 1, 32}, {CODE_GPS_L5Q, 0, 1176.45, 26560e3, 1, 32}, {CODE_GPS_L5X, 0, 1176.45, 26560e3, 1, 32},
  {CODE_GAL_E1B, 1, 1575.42, 29600e3, 1, 36}, {CODE_GAL_E7I, 1, 1207.14, 29600e3, 1, 36}, {CODE_GAL_E5X, 1, 1176.45, 29600e3, 1, 36}, {CODE_GAL_E1C, 1, 1575.42, 29600e3, 1, 36}, {CODE_GAL_E1X, 1, 1575.42, 29600e3, 1, 36},
  {CODE_GAL_E7Q, 1, 1207.14, 29600e3, 1, 36}, {CODE_GAL_E7X, 1, 1207.14, 29600e3, 1, 36}, {CODE_GAL_E5I, 1, 1176.45, 29600e3, 1, 36}, {CODE_GAL_E5Q, 1, 1176.45, 29600e3, 1, 36},
  {CODE_BDS2_B1, 2, 1561.098, 27900e3, 19, 40}, {CODE_BDS2_B2, 2, 1207.14, 27900e3, 19, 40}, {CODE_BDS3_B5X, 2, 1176.45, 27900e3, 19, 40}, {CODE_BDS3_B1CI, 2, 1575.42, 27900e3, 19, 40}, {CODE_BDS3_B1CQ, 2, 1575.42, 27900e3, 19, 40}, {CODE_BDS3_B1CX, 2, 1575.42, 27900e3, 19, 40},
  {CODE_BDS3_B3I, 2, 1268.52, 27900e3, 19, 40}, {CODE_BDS3_B3Q, 2, 1268.52, 27900e3, 19, 40}, {CODE_BDS3_B3X, 2, 1268.52, 27900e3, 19, 40}, {CODE_BDS3_B5I, 2, 1176.45, 27900e3, 19, 40}, {CODE_BDS3_B5Q, 2, 1176.45, 27900e3, 19, 40},
  {CODE_BDS3_B7I, 2, 1207.14, 27900e3, 19, 40}, {CODE_BDS3_B7Q, 2, 1207.14, 27900e3, 19, 40}, {CODE_BDS3_B7X, 2, 1207.14, 27900e3, 19, 40},
  {CODE_GLO_L1OF, 3, 0, 25510e3, 1, 28}, {CODE_GLO_L2OF, 3, 0, 25510e3, 1, 28},
  {CODE_QZS_L1CA, 4, 1575.42, 42164e3, 193, 10}, {CODE_QZS_L5I, 4, 1176.45, 42164e3, 193, 10}, {CODE_QZS_L2CM, 4, 1227.60, 42164e3, 193, 10}, {CODE_QZS_L2CL, 4, 1227.60, 42164e3, 193, 10}, {CODE_QZS_L2CX, 4, 1227.60, 42164e3, 193, 10}, {CODE_QZS_L5Q, 4, 1176.45, 42164e3, 193, 10}, {CODE_QZS_L5X, 4, 1176.45, 42164e3, 193, 10}};
static const int FIRST[6] = {0, 9, 18, 32, 34, 41};   // where each constellation starts
static const int NSIG = sizeof SIGS / sizeof SIGS[0];
struct Sat {
  int sg = 0, sat = 1; V3 p{}, v{}; double clk = 0, rate = 0, cn0 = 45, lock = 100; bool pll = true, out = false; double spike = 0, dspike = 0, noise = 0, el = 45; bool garbage = false, flat = false; int nodop = 0;
  const Sig &sig() const { return SIGS[sg]; }
  double hz() const {
    if (sig().cons != 3) return sig().mhz * 1e6;
    int fcn = 1 + (sat - 1) % 14 - 8; return sig().code == CODE_GLO_L1OF ? 1602e6 + fcn * 562.5e3 : 1246e6 + fcn * 437.5e3;
  }
};
struct World {
  double lat = 0, lon = 0, h = 0; V3 p{}, v{}; double clk = 0, drift = 0, isb[5] = {}; gps_time_t tor{};
  std::vector<Sat> sats;
  void place(double la, double lo, double hh, double vn, double ve, double vd) {
    lat = la; lon = lo; h = hh; p = llh_ecef(la, lo, hh); V3 n, e, d; ned_axes(la, lo, n, e, d); v = vn * n + (ve * e + vd * d);
  }
  void point(Sat &s, double az, double el, double heading) {   // put the satellite where the receiver sees it at az, el
    V3 n, e, d; ned_axes(lat, lon, n, e, d); V3 u = std::cos(el) * (std::cos(az) * n + std::sin(az) * e) - std::sin(el) * d;
    double R = s.sig().radius; if (R < norm(p) + 2e6) R = norm(p) + 15e6;
    double b = dot(p, u), q = b * b - dot(p, p) + R * R, dist = -b + std::sqrt(q);
    s.p = p + dist * u; V3 r = (1 / norm(s.p)) * s.p, t = cross(r, {{0.3, -0.2, 0.9}}); t = (1 / norm(t)) * t; V3 w = cross(r, t);
    s.v = 3000.0 * (std::cos(heading) * t + std::sin(heading) * w); s.el = el * 180 / PI_;
  }
  void locate() {   // latitude, longitude and height of p, by fixed-point iteration
    const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f); double r = std::hypot(p[0], p[1]), z = p[2], t = z;
    for (int i = 0; i < 30; i++) { double s = t / std::hypot(r, t); t = z + a * e2 * s / std::sqrt(1 - e2 * s * s); }
    lat = std::atan2(t, r); if (r > 1e-6) lon = std::atan2(p[1], p[0]); double s = std::sin(lat), c = std::cos(lat), N = a / std::sqrt(1 - e2 * s * s);
    h = r * c + z * s - a * std::sqrt(1 - e2 * s * s); (void)N;
  }
  void move(double dt) { p = p + dt * v; if (dt > 0 && norm(v) > 0) locate(); for (auto &s : sats) { s.p = s.p + dt * s.v; s.clk += dt * s.rate; } clk += dt * drift; add(dt); }
  void add(double dt) { tor.tow += dt; while (tor.tow >= 604800) { tor.tow -= 604800; tor.wn++; } }
  V3 seen(const Sat &s, V3 from, double *range = nullptr) const {   // where the satellite was at transmission, in the frame of the moment of reception
    double tau = 0.07; V3 q{}; for (int i = 0; i < 6; i++) { q = spin(s.p, WE * tau); tau = norm(q - from) / C0; }
    if (range) *range = tau * C0; return q;
  }
  V3 los(const Sat &s, V3 from) const { V3 d = seen(s, from) - from; return (1 / norm(d)) * d; }
  navigation_measurement_t measure(const Sat &s, U64 junk) const {
    navigation_measurement_t m; memset(&m, (int)(junk & 255), sizeof m);
    double range; V3 q = seen(s, p, &range); V3 u = (1 / range) * (q - p);
    double tau = range / C0, rr = dot(u, spin(s.v, WE * tau) - v), lam = C0 / s.hz();
    m.sid.code = (code_t)s.sig().code; m.sid.sat = (u16)s.sat;
    m.raw_pseudorange = range + C0 * (clk + isb[s.sig().cons]) - C0 * s.clk + s.spike + s.noise;
    m.raw_measured_doppler = -(rr + C0 * drift - C0 * s.rate + s.dspike) / lam; m.raw_computed_doppler = m.raw_measured_doppler;
    m.raw_carrier_phase = m.raw_pseudorange / lam;
    for (int i = 0; i < 3; i++) { m.sat_pos[i] = s.p[i]; m.sat_vel[i] = s.v[i]; m.sat_acc[i] = 0; }
    m.sat_clock_err = s.clk; m.sat_clock_err_rate = s.rate; m.cn0 = s.cn0; m.lock_time = s.lock; m.elevation = s.flat ? 45 : s.el; m.tot = tor;
    m.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_COMP_DOPPLER_VALID | NAV_MEAS_FLAG_HALF_CYCLE_KNOWN | NAV_MEAS_FLAG_CN0_VALID | (s.pll ? NAV_MEAS_FLAG_PHASE_VALID : 0);
    if (s.nodop) { m.flags &= (nav_meas_flags_t)~(NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | (s.nodop > 1 ? NAV_MEAS_FLAG_COMP_DOPPLER_VALID : 0)); m.raw_measured_doppler = (double)(junk % 9999) - 5000; }
    if (s.garbage) { m.raw_pseudorange = 1e6 * (double)(junk % 97); m.raw_measured_doppler = 1e5; }
    return m;
  }
  // the published noise model's standard deviation for a signal (used only for bounds)
  static double sigma(const Sat &s) {
    double t = std::exp(-s.cn0 / 6.5), el = 1 / std::max(std::sin((s.flat ? 45 : s.el) * PI_ / 180), 1e-3), b = s.sig().cons == 3 ? 8 : 1;
    double v = b + 780 * t + 0.1 * el * el; if (!s.pll) v *= 16; if (s.lock < 4) v *= 4; return std::sqrt(v);
  }
};
// relative weight the noise model gives a signal's Doppler (used only for bounds)
static inline double doppler_weight(const Sat &s) {
  double lam = C0 / s.hz(), v = (0.1 + 700 * std::exp(-s.cn0 / 6.5)) * lam * lam; if (!s.pll) v *= 16; if (s.lock < 4) v *= 4 - 3 * s.lock / 4; return 1 / v;
}
// dilutions of precision of a set of lines of sight with one clock per constellation; false when singular
struct Dop { double p, g, t, h, v; double lev; double H[4][4]; double gain[4]; };   // gain: what a unit error of the worst signs in every measurement does to each component   // lev: largest leverage of a single measurement
static inline bool dilution(const std::vector<V3> &u, const std::vector<int> &cons, V3 down, Dop &o, const std::vector<double> *w = nullptr, std::vector<double> *levs = nullptr) {
  int map[5] = {-1, -1, -1, -1, -1}, n = 3; for (int k : cons) if (map[k] < 0) map[k] = n++;
  if ((int)u.size() < n) return false;
  long double A[8][16] = {};
  auto row = [&](size_t i, long double *g) { for (int k = 0; k < 8; k++) g[k] = 0; for (int k = 0; k < 3; k++) g[k] = -u[i][k]; g[map[cons[i]]] = 1; };
  for (size_t i = 0; i < u.size(); i++) { long double g[8]; row(i, g); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) A[a][b] += (w ? (*w)[i] : 1.0) * g[a] * g[b]; }
  for (int a = 0; a < n; a++) A[a][n + a] = 1;
  for (int a = 0; a < n; a++) {
    int q = a; for (int b = a + 1; b < n; b++) if (std::fabs((double)A[b][a]) > std::fabs((double)A[q][a])) q = b;
    if (std::fabs((double)A[q][a]) < 1e-9) return false;
    if (q != a) for (int k = 0; k < 2 * n; k++) std::swap(A[a][k], A[q][k]);
    long double z = A[a][a]; for (int k = 0; k < 2 * n; k++) A[a][k] /= z;
    for (int b = 0; b < n; b++) if (b != a) { long double f = A[b][a]; for (int k = 0; k < 2 * n; k++) A[b][k] -= f * A[a][k]; }
  }
  auto H = [&](int a, int b) { return (double)A[a][n + b]; };
  double pp = H(0, 0) + H(1, 1) + H(2, 2), vv = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) vv += down[a] * H(a, b) * down[b];
  o.p = std::sqrt(pp); o.t = std::sqrt(H(3, 3)); o.g = std::sqrt(pp + H(3, 3)); o.v = std::sqrt(vv); o.h = std::sqrt(std::max(0.0, pp - vv)); o.lev = 0;
  for (size_t i = 0; i < u.size(); i++) { long double g[8]; row(i, g); double l = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) l += (double)(g[a] * A[a][n + b] * g[b]); if (w) l *= (*w)[i]; if (levs) levs->push_back(l); o.lev = std::max(o.lev, l); }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) o.H[a][b] = H(a, b);
  for (int a = 0; a < 4; a++) o.gain[a] = 0;
  for (size_t i = 0; i < u.size(); i++) { long double g[8]; row(i, g); for (int a = 0; a < 4; a++) { double z = 0; for (int b = 0; b < n; b++) z += (double)(A[a][n + b] * g[b]); o.gain[a] += std::fabs(z * (w ? (*w)[i] : 1.0)); } }
  return std::isfinite(o.g);
}

// what a weighted least-squares adjustment leaves of errors f: sqrt of the weighted sum of squared residuals; negative when singular
static inline double misfit(const std::vector<V3> &u, const std::vector<int> &cons, const std::vector<double> &w, const std::vector<double> &f) {
  int map[5] = {-1, -1, -1, -1, -1}, n = 3; for (int k : cons) if (map[k] < 0) map[k] = n++;
  if ((int)u.size() < n) return -1;
  long double A[8][9] = {}, ff = 0, b0[8];
  for (size_t i = 0; i < u.size(); i++) {
    long double g[8] = {}; for (int k = 0; k < 3; k++) g[k] = -u[i][k]; g[map[cons[i]]] = 1; ff += w[i] * f[i] * f[i];
    for (int a = 0; a < n; a++) { for (int b = 0; b < n; b++) A[a][b] += w[i] * g[a] * g[b]; A[a][n] += w[i] * g[a] * f[i]; }
  }
  for (int a = 0; a < n; a++) b0[a] = A[a][n];
  for (int a = 0; a < n; a++) {
    int q = a; for (int b = a + 1; b < n; b++) if (std::fabs((double)A[b][a]) > std::fabs((double)A[q][a])) q = b;
    if (std::fabs((double)A[q][a]) < 1e-9) return -1;
    if (q != a) for (int k = 0; k <= n; k++) std::swap(A[a][k], A[q][k]);
    long double z = A[a][a]; for (int k = 0; k <= n; k++) A[a][k] /= z;
    for (int b = 0; b < n; b++) if (b != a) { long double t = A[b][a]; for (int k = 0; k <= n; k++) A[b][k] -= t * A[a][k]; }
  }
  for (int a = 0; a < n; a++) ff -= A[a][n] * b0[a];
  return std::sqrt(std::max(0.0, (double)ff));
}
