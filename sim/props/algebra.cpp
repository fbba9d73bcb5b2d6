// C42: a fleet of estimators keeps its state through the matrix routines: it predicts, takes measurements that are lost, repeated or degenerate, gains and loses states, checkpoints its covariance as U-D
// factors, crashes and restarts from them, and keeps integer transformations of its ambiguities. Every step is refined against long-double arithmetic on the same inputs.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
#include <swiftnav/linear_algebra.h>
typedef long double LD;
typedef std::vector<double> V;
typedef std::vector<LD> VL;
static const LD EPS = 2.3e-16L;
static V blank(size_t n) { V v(n); for (auto &x : v) x = std::nan(""); return v; }   // output buffers hold no useful value, and are exactly as large as documented
static VL up(const V &a) { return VL(a.begin(), a.end()); }
static VL mul(size_t n, size_t m, size_t p, const VL &a, const VL &b, VL *mag = nullptr) {
  VL c(n * p, 0); if (mag) mag->assign(n * p, 0);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < p; j++) for (size_t k = 0; k < m; k++) { LD t = a[i * m + k] * b[k * p + j]; c[i * p + j] += t; if (mag) (*mag)[i * p + j] += fabsl(t); }
  return c;
}
static VL tr(size_t n, size_t m, const VL &a) { VL t(n * m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) t[j * n + i] = a[i * m + j]; return t; }
static LD norm(size_t n, size_t m, const VL &a) { LD w = 0; for (size_t i = 0; i < n; i++) { LD s = 0; for (size_t j = 0; j < m; j++) s += fabsl(a[i * m + j]); w = std::max(w, s); } return w; }
static bool inv_ref(size_t n, VL a, VL &b) {   // Gauss-Jordan with full pivoting
  b.assign(n * n, 0); for (size_t i = 0; i < n; i++) b[i * n + i] = 1; std::vector<size_t> cp(n);
  for (size_t i = 0; i < n; i++) cp[i] = i;
  for (size_t k = 0; k < n; k++) {
    size_t pr = k, pc = k; for (size_t i = k; i < n; i++) for (size_t j = k; j < n; j++) if (fabsl(a[i * n + j]) > fabsl(a[pr * n + pc])) { pr = i; pc = j; }
    if (a[pr * n + pc] == 0) return false;
    for (size_t j = 0; j < n; j++) { std::swap(a[k * n + j], a[pr * n + j]); std::swap(b[k * n + j], b[pr * n + j]); }
    for (size_t i = 0; i < n; i++) std::swap(a[i * n + k], a[i * n + pc]); std::swap(cp[k], cp[pc]);
    LD p = a[k * n + k]; for (size_t j = 0; j < n; j++) { a[k * n + j] /= p; b[k * n + j] /= p; }
    for (size_t i = 0; i < n; i++) if (i != k) { LD f = a[i * n + k]; for (size_t j = 0; j < n; j++) { a[i * n + j] -= f * a[k * n + j]; b[i * n + j] -= f * b[k * n + j]; } }
  }
  VL c(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) c[cp[i] * n + j] = b[i * n + j]; b = c; return true;
}
static LD permanent(size_t n, const VL &a) {
  if (n == 0) return 1;
  LD s = 0; for (size_t c = 0; c < n; c++) { VL m; for (size_t i = 1; i < n; i++) for (size_t j = 0; j < n; j++) if (j != c) m.push_back(fabsl(a[i * n + j])); s += fabsl(a[c]) * permanent(n - 1, m); } return s;
}
// how far a backward-stable or adjugate inverse of `a` may be from `r`; dA is the error of the entries of a itself
static LD inv_bound(size_t n, const VL &a, const VL &r, LD dA) {
  LD nr = norm(n, n, r), na = norm(n, n, a), e = 500 * (LD)n * EPS * na * nr * nr;
  if (n >= 2 && n <= 4) { LD det = 0, p = permanent(n, a); { VL u = a; LD d = 1; for (size_t k = 0; k < n; k++) { size_t q = k; for (size_t i = k; i < n; i++) if (fabsl(u[i * n + k]) > fabsl(u[q * n + k])) q = i;
        if (u[q * n + k] == 0) return 1e300L; for (size_t j = 0; j < n; j++) std::swap(u[k * n + j], u[q * n + j]); d *= u[k * n + k]; for (size_t i = k + 1; i < n; i++) { LD f = u[i * n + k] / u[k * n + k]; for (size_t j = k; j < n; j++) u[i * n + j] -= f * u[k * n + j]; } } det = fabsl(d); }
    LD mx = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { VL m; for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++) if (x != i && y != j) m.push_back(a[x * n + y]); mx = std::max(mx, permanent(n - 1, m)); }
    if (det < 1e-45L) return 1e300L; e += 60 * EPS * (mx / det + nr * p / det); }
  return e + 2 * nr * nr * dA;
}
static bool solid(size_t n, const V &P) {   // positive definite with room to spare, and of a size that keeps its products finite
  VL a = up(P); LD big = norm(n, n, a); if (!(big < 1e9L) || !(big > 1e-9L)) return false;
  for (size_t k = 0; k < n; k++) { if (!(a[k * n + k] > 1e-9L * big)) return false; for (size_t i = k + 1; i < n; i++) { LD f = a[i * n + k] / a[k * n + k]; for (size_t j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j]; } }
  return true;
}
struct Node { u32 n; V x, P; bool saved; u32 sn; V sx, sU, sD, sP, sS; };
static void gen_c42(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) s.op("start", {(i64)i, r.chance(1, 60) ? r.range(9, 20) : r.range(1, 8), (i64)(r.next() >> 1)});
  int m = (int)r.range(8, 40);
  for (int i = 0; i < m; i++) {
    i64 k = (i64)r.below(3), sd = (i64)(r.next() >> 1);
    switch (r.below(14)) {
      case 0: case 1: s.op("predict", {k, sd}); break;
      case 2: case 3: case 4: s.op("measure", {k, sd, r.range(1, 7), (i64)r.below(4)}); break;
      case 5: case 6: s.op("batch", {k, sd, r.chance(1, 60) ? r.pick<i64>({30, 60, 79, 130, 260, 300}) : (i64)r.below(9), (i64)r.below(16)}); break;
      case 7: s.op("degenerate", {k, sd, (i64)r.below(8)}); break;
      case 8: s.op("checkpoint", {k, r.chance(1, 2) ? sd : 0}); break;
      case 9: s.op("crash", {k}); break;
      case 10: s.op("resize", {k, sd, (i64)r.below(3)}); break;
      case 11: s.op("integers", {sd, r.chance(1, 60) ? r.range(10, 20) : r.range(2, 9), r.range(1, 25)}); break;
      case 12: s.op("vectors", {k, sd, r.chance(1, 60) ? r.range(21, 300) : r.range(1, 20)}); break;
      default: s.op("system", {k, sd, r.chance(1, 60) ? r.range(10, 20) : r.range(1, 9)});
    }
  }
}
static void run_c42(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); Node N[3]; for (auto &x : N) x.n = 0, x.saved = false;
    auto bad = [&](const char *what, const V &got, const VL &want, const VL &tol, LD f = 1) {
      for (size_t i = 0; i < want.size(); i++) if (!(fabsl(got[i] - want[i]) <= tol[i] * f + 1e-290L)) { c.fail(what, "element %d of %d is %.17g, expected %.17Lg (tolerance %.2Lg)", (int)i, (int)want.size(), got[i], want[i], tol[i] * f); return true; }
      return false;
    };
    auto product = [&](const char *what, u32 n, u32 m, u32 p, const V &a, const V &b, V &o) {
      o = blank(n * p); about_to("multiplying %u x %u by %u x %u", n, m, m, p); matrix_multiply(n, m, p, a.data(), b.data(), o.data()); VL mag, w = mul(n, m, p, up(a), up(b), &mag); return !bad(what, o, w, mag, (m + 2) * EPS);
    };
    auto transposed = [&](u32 n, u32 m, const V &a) { V o = blank(n * m); about_to("transposing %u x %u", n, m); matrix_transpose(n, m, a.data(), o.data()); VL w = tr(n, m, up(a)); for (size_t i = 0; i < w.size(); i++) if (!(o[i] == w[i])) { c.fail("transpose", "element %d of a %u x %u transpose is wrong", (int)i, n, m); break; } return o; };
    auto sum = [&](const char *what, u32 n, u32 m, const V &a, const V &b, double g, V &o) {
      o = blank(n * m); about_to("adding %u x %u", n, m); matrix_add_sc(n, m, a.data(), b.data(), g, o.data()); VL w, t; for (size_t i = 0; i < a.size(); i++) { w.push_back(a[i] + (LD)g * b[i]); t.push_back(fabsl(a[i]) + fabsl((LD)g * b[i])); } return !bad(what, o, w, t, 3 * EPS);
    };
    // the library's inverse of a (whose entries are given); false after a violation, `ok` tells whether it was accepted
    auto inverse = [&](u32 n, const V &a, V &o, bool &ok) {
      VL A = up(a), r; bool regular = inv_ref(n, A, r); LD e = regular ? inv_bound(n, A, r, 0) : 1e300L, nr = regular ? norm(n, n, r) : 1; V keep = a;
      o = blank(n * n); about_to("inverting %u x %u", n, n); int rc = matrix_inverse(n, a.data(), o.data()); ok = rc == 0;
      if (a != keep) { c.fail("input-changed", "inversion changed its input"); return false; }
      if (e > 1e-3L * nr) { c.probe("ill_conditioned_not_judged"); ok = false; return true; }
      if (rc) { c.fail("inverse", "a well-conditioned %u x %u matrix is called singular", n, n); return false; }
      VL t(n * n, e); if (bad("inverse", o, r, t)) return false; c.probe("inverted"); c.state(mix(1, n)); return true;
    };
    auto random_matrix = [&](Rng &z, u32 n, u32 m, bool sparse = true) { V a(n * m); double sc = z.chance(1, 3) ? std::ldexp(1.0, (int)z.range(-7, 7)) : 1; for (auto &x : a) x = sparse && z.chance(1, 6) ? 0 : z.uniform(-3, 3) * sc; return a; };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset(); c.time(1); Node &d = N[(U64)o.arg(0) % 3]; Rng z((U64)o.arg(1));
      if (o.name == "start") {
        Rng q((U64)o.arg(2)); d.n = (u32)(1 + ((U64)o.arg(1) - 1) % 20); d.saved = false; d.x.clear(); for (u32 i = 0; i < d.n; i++) d.x.push_back(q.uniform(-100, 100));
        V L = random_matrix(q, d.n, d.n), I = blank(d.n * d.n); about_to("identity %u", d.n); matrix_eye(d.n, I.data()); for (u32 i = 0; i < d.n; i++) for (u32 j = 0; j < d.n; j++) if (!(I[i * d.n + j] == (i == j))) { c.fail("identity", "element %u,%u of the identity is %g", i, j, I[i * d.n + j]); return; }
        V T = transposed(d.n, d.n, L), LT; if (c.failed() || !product("product", d.n, d.n, d.n, L, T, LT) || !sum("sum", d.n, d.n, LT, I, q.uniform(0.1, 2), d.P)) return;
        for (u32 i = 0; i < d.n; i++) for (u32 j = 0; j < i; j++) d.P[i * d.n + j] = d.P[j * d.n + i];
      } else if (o.name == "integers") {
        u32 n = (u32)o.arg(1) % 21, steps = (u32)o.arg(2) % 30; if (n < 2) continue; Rng q((U64)o.arg(0)); std::vector<s32> Z(n * n, 0), Zi(n * n, 0), E(n * n), Ei(n * n), t(n * n); std::vector<s64> W(n * n, 0), Wt(n * n), El(n * n); for (u32 i = 0; i < n; i++) Z[i * n + i] = Zi[i * n + i] = 1, W[i * n + i] = 1;
        for (u32 k = 0; k < steps; k++) {   // elementary steps and the inverse of the product, all exact
          std::fill(E.begin(), E.end(), 0); for (u32 i = 0; i < n; i++) E[i * n + i] = 1; Ei = E; u32 a = (u32)q.below(n), b = (u32)((a + 1 + q.below(n - 1)) % n); s32 g = (s32)q.range(-3, 3); E[a * n + b] = g; Ei[a * n + b] = -g;
          s64 mx = 0; for (auto x : Z) mx = std::max<s64>(mx, std::llabs(x)); for (auto x : Zi) mx = std::max<s64>(mx, std::llabs(x)); if (mx > 100000000) break;
          std::vector<s64> ref(n * n, 0), refi(n * n, 0), refw(n * n, 0); for (u32 i = 0; i < n; i++) for (u32 j = 0; j < n; j++) for (u32 l = 0; l < n; l++) { ref[i * n + j] += (s64)E[i * n + l] * Z[l * n + j]; refi[i * n + j] += (s64)Zi[i * n + l] * Ei[l * n + j]; refw[i * n + j] += W[i * n + l] * (s64)E[l * n + j] * (1 << (k % 3)); }
          bool wide = false; for (auto x : refw) if (std::llabs(x) > (1LL << 52)) wide = true;
          about_to("integer product %u", n); std::fill(t.begin(), t.end(), 77); matrix_multiply_i(n, n, n, E.data(), Z.data(), t.data()); Z = t; std::fill(t.begin(), t.end(), -77); matrix_multiply_i(n, n, n, Zi.data(), Ei.data(), t.data()); Zi = t;
          for (u32 i = 0; i < n * n; i++) if (Z[i] != ref[i] || Zi[i] != refi[i]) { c.fail("integer", "a product of integer matrices is wrong"); return; }
          if (!wide) { for (u32 i = 0; i < n * n; i++) El[i] = (s64)E[i] * (1 << (k % 3)); std::fill(Wt.begin(), Wt.end(), 99); matrix_multiply_s64(n, n, n, W.data(), El.data(), Wt.data()); W = Wt; for (u32 i = 0; i < n * n; i++) if (W[i] != refw[i]) { c.fail("integer", "a product of 64-bit integer matrices is wrong"); return; } }
        }
        u32 m = (u32)q.range(1, 6), p = (u32)q.range(1, 6); std::vector<s32> A(n * m), B(m * p), C(n * p, 5); std::vector<s64> a6(n * m), b6(m * p), c6(n * p, 5); for (auto &x : A) x = (s32)q.range(-9999, 9999); for (auto &x : B) x = (s32)q.range(-9999, 9999);
        for (u32 i = 0; i < n * m; i++) a6[i] = (s64)A[i] * 65536; for (u32 i = 0; i < m * p; i++) b6[i] = (s64)B[i] * 4096; about_to("integer product %u x %u x %u", n, m, p); matrix_multiply_i(n, m, p, A.data(), B.data(), C.data()); matrix_multiply_s64(n, m, p, a6.data(), b6.data(), c6.data());
        for (u32 i = 0; i < n; i++) for (u32 j = 0; j < p; j++) { s64 w = 0; for (u32 k = 0; k < m; k++) w += (s64)A[i * m + k] * B[k * p + j]; if (C[i * p + j] != w || c6[i * p + j] != w * 65536 * 4096) { c.fail("integer", "a product of %u x %u and %u x %u integer matrices is wrong", n, m, m, p); return; } }
        c.nontrivial = true; c.state(mix(2, n));
      } else if (!d.n) continue;
      else if (o.name == "predict") {
        u32 n = d.n; V F = random_matrix(z, n, n); for (auto &x : F) x *= 0.05 / 3; for (u32 i = 0; i < n; i++) F[i * n + i] += 1; V x1, FP, FPF, Ft = transposed(n, n, F), Q(n * n, 0), P; for (u32 i = 0; i < n; i++) Q[i * n + i] = z.uniform(0, 1);
        if (c.failed() || !product("product", n, n, 1, F, d.x, x1) || !product("product", n, n, n, F, d.P, FP) || !product("product", n, n, n, FP, Ft, FPF) || !sum("sum", n, n, FPF, Q, z.uniform(0.01, 1), P)) return;
        d.x = x1; for (u32 i = 0; i < n; i++) for (u32 j = 0; j < i; j++) P[i * n + j] = P[j * n + i]; d.P = P; c.nontrivial = true;
        if (!solid(n, d.P)) { c.probe("covariance_reset"); std::fill(d.P.begin(), d.P.end(), 0); for (u32 i = 0; i < n; i++) d.P[i * n + i] = 1; }
      } else if (o.name == "measure") {
        int times = 1; if (o.arg(3) == 1) { c.fault("measurement_lost"); continue; } if (o.arg(3) == 2) { c.fault("measurement_repeated"); times = 2; }
        u32 n = d.n, k = (u32)(1 + ((U64)o.arg(2) - 1) % 7); V H = random_matrix(z, k, n, true), R(k * k, 0); for (u32 i = 0; i < k; i++) R[i * k + i] = z.uniform(0.01, 4); V zz; for (u32 i = 0; i < k; i++) zz.push_back(z.uniform(-100, 100));
        while (times-- && !c.failed()) {
          V Ht = transposed(k, n, H), HP, HPH, S, Si, PH, K, Hx, y, Ky, x1, KH, KHP, P1; bool ok; if (c.failed() || !product("product", k, n, n, H, d.P, HP) || !product("product", k, n, k, HP, Ht, HPH) || !sum("sum", k, k, HPH, R, 1, S) || !inverse(k, S, Si, ok)) return; if (!ok) break;
          if (!product("product", n, n, k, d.P, Ht, PH) || !product("product", n, k, k, PH, Si, K) || !product("product", k, n, 1, H, d.x, Hx)) return;
          y = blank(k); vector_subtract(k, zz.data(), Hx.data(), y.data()); for (u32 i = 0; i < k; i++) if (!(fabsl(y[i] - ((LD)zz[i] - Hx[i])) <= EPS * (fabsl((LD)zz[i]) + fabsl((LD)Hx[i])))) { c.fail("vector", "a difference of vectors is wrong"); return; }
          if (!product("product", n, k, 1, K, y, Ky) || !product("product", n, k, n, K, H, KH) || !product("product", n, n, n, KH, d.P, KHP) || !sum("sum", n, n, d.P, KHP, -1, P1)) return;
          x1 = blank(n); vector_add(n, d.x.data(), Ky.data(), x1.data()); for (u32 i = 0; i < n; i++) if (!(fabsl(x1[i] - ((LD)d.x[i] + Ky[i])) <= EPS * (fabsl((LD)d.x[i]) + fabsl((LD)Ky[i])))) { c.fail("vector", "a sum of vectors is wrong"); return; }
          for (u32 i = 0; i < n; i++) { for (u32 j = 0; j < i; j++) P1[i * n + j] = P1[j * n + i]; P1[i * n + i] = std::max(P1[i * n + i], 1e-6) * (1 + 1e-9); } d.x = x1; d.P = P1; if (!solid(n, d.P)) { c.probe("covariance_reset"); std::fill(d.P.begin(), d.P.end(), 0); for (u32 i = 0; i < n; i++) d.P[i * n + i] = 1; } c.nontrivial = true; c.state(mix(3, n * 8 + k));
        }
      } else if (o.name == "batch") {   // a batch solution over the measurements of several epochs
        u32 n = d.n, rows = n + (u32)((U64)o.arg(2) % 301); V A = random_matrix(z, rows, n, true), w, b; for (u32 i = 0; i < rows; i++) { w.push_back(z.chance(1, 12) ? 0 : z.uniform(0.05, 4)); b.push_back(z.uniform(-100, 100)); }
        bool useW = o.arg(3) & 1, useX = !(o.arg(3) & 4) || !(o.arg(3) & 2), useV = !(o.arg(3) & 8); VL AL = up(A), WA = AL; for (u32 i = 0; i < rows; i++) for (u32 j = 0; j < n; j++) WA[i * n + j] *= useW ? (LD)w[i] : 1;
        VL At = tr(rows, n, AL), Mm, M = mul(n, rows, n, tr(rows, n, WA), AL, &Mm), r; bool reg = inv_ref(n, M, r); LD e = reg ? inv_bound(n, M, r, (rows + 3) * EPS * norm(n, n, Mm)) : 1e300L, nr = reg ? norm(n, n, r) : 1;
        if (e > 1e-4L * nr) { c.probe("ill_conditioned_not_judged"); continue; }
        V Acopy = A, X = blank(n), Vm = blank(n * n); about_to("solving %u equations for %u unknowns", rows, n); int rc = matrix_wlsq_solve(rows, n, A.data(), b.data(), useW ? w.data() : nullptr, useX ? X.data() : nullptr, useV ? Vm.data() : nullptr);
        if (rc || A != Acopy) { c.fail("least-squares", rc ? "%u well-conditioned equations for %u unknowns are not solved" : "the solver changed its input", rows, n); return; }
        VL AtW = tr(rows, n, WA), Atb, mag; Atb = mul(n, rows, 1, AtW, up(b), &mag); VL x = mul(n, n, 1, r, Atb); LD nb = norm(n, 1, mag), ex = 4 * e * nb + 100 * (rows + n) * EPS * nr * nb * 2;
        if (useV && bad("least-squares covariance", Vm, r, VL(n * n, e))) return; if (useX && bad("least-squares", X, x, VL(n, ex))) return; c.probe("batch_solved"); c.nontrivial = true; c.state(mix(4, n * 16 + rows));
        if (rows > n) {   // (AtWA)^-1 At, and the least-norm counterpart At (A W At)^-1 of the transposed problem
          V B = blank(n * rows); about_to("pseudo-inverse of %u x %u", rows, n); rc = useW ? matrix_atwaiat(rows, n, A.data(), w.data(), B.data()) : o.arg(3) & 2 ? matrix_ataiat(rows, n, A.data(), B.data()) : matrix_pseudoinverse(rows, n, A.data(), B.data());
          VL want = mul(n, n, rows, r, At); LD na = norm(n, rows, At), ep = 2 * e * na + 20 * n * EPS * nr * na; if (rc) { c.fail("pseudo-inverse", "a well-conditioned %u x %u matrix is called singular", rows, n); return; } if (bad("pseudo-inverse", B, want, VL(n * rows, ep))) return;
          V T = transposed(rows, n, A), B2 = blank(n * rows); if (c.failed()) return; about_to("pseudo-inverse of %u x %u", n, rows); rc = useW ? matrix_atawati(n, rows, T.data(), w.data(), B2.data()) : o.arg(3) & 2 ? matrix_ataati(n, rows, T.data(), B2.data()) : matrix_pseudoinverse(n, rows, T.data(), B2.data());
          if (rc) { c.fail("pseudo-inverse", "a well-conditioned %u x %u matrix is called singular", n, rows); return; } if (bad("pseudo-inverse", B2, tr(n, rows, want), VL(n * rows, ep))) return; c.probe("pseudo_inverse");
        }
        // fewer equations than unknowns are refused, and so is the wrong shape of pseudo-inverse
        if (n > 1) { V B = blank(n * rows), q = blank(n * n); about_to("underdetermined system"); if (matrix_wlsq_solve(n - 1, n, A.data(), b.data(), nullptr, X.data(), q.data()) == 0) { c.fail("refusal", "%u equations for %u unknowns are called solved", n - 1, n); return; } if (rows > n) { V u(rows, 1.0); if (!matrix_atawati(rows, n, A.data(), u.data(), B.data()) || !matrix_atwaiat(n, rows, A.data(), u.data(), B.data())) { c.fail("refusal", "a pseudo-inverse of the wrong shape is called computed"); return; } } }
      } else if (o.name == "system") {   // QR against the state's own system
        u32 n = (u32)(1 + ((U64)o.arg(2) - 1) % 20); V A = random_matrix(z, n, n), b; for (u32 i = 0; i < n; i++) b.push_back(z.uniform(-100, 100)); VL AL = up(A), r; if (!inv_ref(n, AL, r)) continue; LD cond = norm(n, n, AL) * norm(n, n, r); if (cond > 1e7L) { c.probe("ill_conditioned_not_judged"); continue; }
        V Qt = blank(n * n), R = blank(n * n); about_to("QR of %u x %u", n, n); if (qrdecomp_square(A.data(), n, Qt.data(), R.data())) { c.fail("qr", "a well-conditioned %u x %u matrix is called singular", n, n); return; }
        VL q = up(Qt), rr = up(R), ortho = mul(n, n, n, q, tr(n, n, q)), I(n * n, 0), back = mul(n, n, n, q, AL); for (u32 i = 0; i < n; i++) I[i * n + i] = 1; LD t = 200 * n * EPS;
        for (u32 i = 0; i < n * n; i++) if (!(fabsl(ortho[i] - I[i]) <= t)) { c.fail("qr", "Q of a %u x %u decomposition is not orthogonal", n, n); return; }
        if (bad("qr", R, back, VL(n * n, t * norm(n, n, AL)))) return; for (u32 i = 0; i < n; i++) for (u32 j = 0; j < i; j++) if (R[i * n + j] != 0) { c.fail("qr", "R of a %u x %u decomposition is not upper triangular", n, n); return; }
        V x = blank(n), y = blank(n), x2 = blank(n), Rc = R; LD tx = 2000 * n * EPS * cond * norm(n, n, r) * 100; VL want = mul(n, n, 1, r, up(b)); about_to("solving by QR %u", n); if (qrsolve(A.data(), n, n, b.data(), x.data())) { c.fail("qr", "a well-conditioned system is called singular"); return; } if (bad("qr-solve", x, want, VL(n, tx))) return;
        qtmult(Qt.data(), n, b.data(), y.data()); rsolve(Rc.data(), n, n, y.data(), x2.data()); if (bad("qr-solve", x2, want, VL(n, tx))) return; rsolve(Rc.data(), n, n, y.data(), y.data()); if (bad("qr-solve", y, want, VL(n, tx))) return;
        V Ai, As = A; bool ok; double us = std::ldexp(1.0, (int)z.range(-25, 25)); for (auto &q : As) q *= us; if (!inverse(n, As, Ai, ok)) return; if (ok) { V ps = blank(n * n); about_to("pseudo-inverse of %u x %u", n, n); if (matrix_pseudoinverse(n, n, A.data(), ps.data()) || bad("pseudo-inverse", ps, r, VL(n * n, inv_bound(n, AL, r, 0)))) { if (!c.failed()) c.fail("pseudo-inverse", "a square matrix is called singular"); return; } }
        c.nontrivial = true; c.state(mix(5, n)); c.probe("qr");
      } else if (o.name == "degenerate") {   // geometry without enough information: whole numbers, so that it is exactly singular
        u32 n = d.n; c.fault("degenerate_geometry"); V A(n * n); for (auto &x : A) x = (double)z.range(-4, 4); u32 a = (u32)z.below(n), b2 = n > 1 ? (u32)((a + 1 + z.below(n - 1)) % n) : a; i64 f = o.arg(2); V B = blank(n * n), Q = blank(n * n), R = blank(n * n);
        bool col = false; if (n == 1 || f == 0) for (u32 j = 0; j < n; j++) A[a * n + j] = 0; else if (f == 1) { col = true; for (u32 i = 0; i < n; i++) A[i * n + a] = 0; } else if (f == 2) for (u32 j = 0; j < n; j++) A[a * n + j] = A[b2 * n + j];
        else if (n <= 4) { if (f == 3) for (u32 i = 0; i < n; i++) A[i * n + a] = 2 * A[i * n + b2]; else if (n > 2) { u32 e3 = 3 - a - b2; if (n == 4) { e3 = 0; while (e3 == a || e3 == b2) e3++; } for (u32 j = 0; j < n; j++) A[a * n + j] = A[b2 * n + j] * (f == 4 ? 1 : -2) + A[e3 * n + j]; } else for (u32 j = 0; j < n; j++) A[a * n + j] = -3 * A[b2 * n + j]; } else for (u32 j = 0; j < n; j++) A[a * n + j] = A[b2 * n + j];
        about_to("inverting a singular %u x %u", n, n); if (matrix_inverse(n, A.data(), B.data()) == 0) { c.fail("singular", "a singular %u x %u matrix is called inverted", n, n); return; } if (matrix_pseudoinverse(n, n, A.data(), B.data()) == 0) { c.fail("singular", "a singular %u x %u matrix is called pseudo-inverted", n, n); return; }
        if (col || n == 1) { about_to("QR of a singular %u x %u", n, n); V x = blank(n), y(n, 1.0); if (qrdecomp_square(A.data(), n, Q.data(), R.data()) == 0 || qrsolve(A.data(), n, n, y.data(), x.data()) == 0) { c.fail("singular", "a singular %u x %u matrix is called decomposed", n, n); return; } }
        u32 rows = n + 1 + (u32)z.below(5); V L(rows * n), y(rows, 1.0), X = blank(n), Vm = blank(n * n), PI = blank(rows * n); for (auto &x : L) x = (double)z.range(-4, 4); for (u32 i = 0; i < rows; i++) L[i * n + a] = b2 != a && f & 1 ? L[i * n + b2] : 0;   // two unknowns that cannot be told apart, or one never seen
        about_to("solving for unknowns that cannot be told apart"); if (matrix_wlsq_solve(rows, n, L.data(), y.data(), nullptr, X.data(), Vm.data()) == 0 || matrix_pseudoinverse(rows, n, L.data(), PI.data()) == 0) { c.fail("singular", "unknowns that cannot be told apart are called solved"); return; }
        V T = transposed(rows, n, L); if (c.failed()) return; if (matrix_pseudoinverse(n, rows, T.data(), PI.data()) == 0) { c.fail("singular", "rows that repeat each other are called independent"); return; } c.nontrivial = true; c.state(mix(6, n * 8 + (U64)f));
      } else if (o.name == "checkpoint") {
        u32 n = d.n; V S(n, 1.0); if (o.arg(1)) for (auto &q : S) q = std::ldexp(1.0, (int)z.range(-45, 20));   // states in units of their own, exactly converted
        V P = d.P; for (u32 i = 0; i < n; i++) for (u32 j = 0; j < n; j++) P[i * n + j] *= S[i] * S[j]; V M = P, U = blank(n * n), D = blank(n); about_to("U-D factors of %u x %u", n, n); matrix_udu(n, M.data(), U.data(), D.data());
        for (u32 i = 0; i < n; i++) { if (!(D[i] >= 0) || U[i * n + i] != 1) { c.fail("udu", "U is not unit triangular or D is negative"); return; } for (u32 j = 0; j < i; j++) if (U[i * n + j] != 0) { c.fail("udu", "U is not upper triangular"); return; } }
        VL Dm(n * n, 0); for (u32 i = 0; i < n; i++) Dm[i * n + i] = D[i]; VL UL = up(U), back = mul(n, n, n, mul(n, n, n, UL, Dm), tr(n, n, UL)); VL tol(n * n), PL = up(P); for (u32 i = 0; i < n; i++) for (u32 j = 0; j < n; j++) tol[i * n + j] = 400 * n * n * EPS * sqrtl(PL[i * n + i] * PL[j * n + j]);
        if (!solid(n, d.P)) { c.probe("ill_conditioned_not_judged"); continue; } V bk(back.begin(), back.end()); if (bad("udu", bk, PL, tol)) return;
        d.sx = blank(n); about_to("copying"); matrix_copy(n, 1, d.x.data(), d.sx.data()); if (d.sx != d.x) { c.fail("copy", "a copied state differs"); return; } d.sU = U; d.sD = D; d.sP = P; d.sS = S; d.sn = n; d.saved = true; c.nontrivial = true; c.probe("checkpoint"); c.state(mix(7, n));
        V tri = d.P; matrix_triu(n, tri.data()); for (u32 i = 0; i < n; i++) for (u32 j = 0; j < n; j++) if (tri[i * n + j] != (j < i ? 0 : d.P[i * n + j])) { c.fail("triu", "clearing the lower triangle changed something else"); return; }
      } else if (o.name == "crash") {
        c.fault("crash"); if (!d.saved) { d.n = 0; continue; }
        u32 n = d.n = d.sn; d.P = blank(n * n); about_to("reconstructing %u x %u", n, n); matrix_reconstruct_udu(n, d.sU.data(), d.sD.data(), d.P.data()); VL tol(n * n); for (u32 i = 0; i < n; i++) for (u32 j = 0; j < n; j++) tol[i * n + j] = 800 * n * n * EPS * sqrtl((LD)d.sP[i * n + i] * d.sP[j * n + j]);
        if (bad("restart", d.P, up(d.sP), tol)) return; for (u32 i = 0; i < n; i++) for (u32 j = 0; j < i; j++) if (d.P[i * n + j] != d.P[j * n + i]) { c.fail("restart", "the restored covariance is not symmetric"); return; }
        for (u32 i = 0; i < n; i++) for (u32 j = 0; j < n; j++) d.P[i * n + j] /= d.sS[i] * d.sS[j]; d.x = d.sx; c.fault("restart_from_checkpoint");
      } else if (o.name == "resize") {   // states come and go
        u32 n = d.n;
        if (o.arg(2) == 0 && n != 8 && n < 20) { V P((n + 1) * (n + 1), 0); for (u32 i = 0; i < n; i++) for (u32 j = 0; j < n; j++) P[i * (n + 1) + j] = d.P[i * n + j]; P[(n + 1) * (n + 1) - 1] = z.uniform(0.5, 3); d.P = P; d.x.push_back(z.uniform(-9, 9)); d.n++; }
        else if (o.arg(2) == 1 && n > 1) { u32 k = (u32)z.range(1, n); V P = blank(k * k), C2 = blank(k * n); about_to("corner of %u x %u", n, n); submatrix_ul(k, k, n, d.P.data(), P.data()); submatrix_ul(k, n, n, d.P.data(), C2.data()); for (u32 i = 0; i < k; i++) for (u32 j = 0; j < n; j++) if ((j < k && P[i * k + j] != d.P[i * n + j]) || C2[i * n + j] != d.P[i * n + j]) { c.fail("submatrix", "the upper left corner is not what was there"); return; } d.P = P; d.x.resize(k); d.n = k; }
        else if (n > 1) {
          std::vector<u32> keep; for (u32 i = 0; i < n; i++) keep.push_back(i); for (u32 i = n; i > 1; i--) std::swap(keep[i - 1], keep[z.below(i)]); keep.resize((size_t)z.range(1, n)); u32 k = (u32)keep.size(); V P = blank(k * k); about_to("submatrix"); submatrix(k, k, n, d.P.data(), keep.data(), keep.data(), P.data()); V x; for (u32 i : keep) x.push_back(d.x[i]);
          for (u32 i = 0; i < k; i++) for (u32 j = 0; j < k; j++) if (P[i * k + j] != d.P[keep[i] * n + keep[j]]) { c.fail("submatrix", "the covariance of the states kept is not theirs"); return; }
          std::vector<u32> cols; u32 nc = (u32)z.range(1, 6); for (u32 j = 0; j < nc; j++) cols.push_back((u32)z.below(n)); V G = blank(k * nc); submatrix(k, nc, n, d.P.data(), keep.data(), cols.data(), G.data()); for (u32 i = 0; i < k; i++) for (u32 j = 0; j < nc; j++) if (G[i * nc + j] != d.P[keep[i] * n + cols[j]]) { c.fail("submatrix", "a selection of rows and columns is wrong"); return; }
          d.P = P; d.x = x; d.n = k; }
        c.nontrivial = true; c.fault("state_added_or_dropped"); c.state(mix(8, n * 16 + d.n));
      } else if (o.name == "vectors") {
        u32 n = (u32)o.arg(2) % 301; if (!n) continue; V a, b; for (u32 i = 0; i < n; i++) { a.push_back(z.uniform(-5, 5)); b.push_back(z.uniform(-5, 5)); } LD dot = 0, md = 0, na = 0, me = 0, di = 0; for (u32 i = 0; i < n; i++) { dot += (LD)a[i] * b[i]; md += fabsl((LD)a[i] * b[i]); na += (LD)a[i] * a[i]; me += a[i]; di += ((LD)a[i] - b[i]) * ((LD)a[i] - b[i]); }
        about_to("vector arithmetic on %u", n); LD t = 4 * (n + 4) * EPS;
        if (!(fabsl(vector_dot(n, a.data(), b.data()) - dot) <= t * md) || !(fabsl(vector_norm(n, a.data()) - sqrtl(na)) <= t * sqrtl(na)) || !(fabsl(vector_mean(n, a.data()) - me / n) <= t * 5) || !(fabsl(vector_distance(n, a.data(), b.data()) - sqrtl(di)) <= t * 10 * sqrtl((LD)n))) { c.fail("vector", "a dot product, norm, mean or distance of %u elements is wrong", n); return; }
        V u = a; vector_normalize(n, u.data()); for (u32 i = 0; i < n; i++) if (!(fabsl(u[i] - a[i] / sqrtl(na)) <= t)) { c.fail("vector", "a normalised vector is wrong"); return; }
        double g = z.uniform(-4, 4); V sm = blank(n); vector_add_sc(n, a.data(), b.data(), g, sm.data()); for (u32 i = 0; i < n; i++) if (!(fabsl(sm[i] - (a[i] + (LD)g * b[i])) <= 100 * EPS)) { c.fail("vector", "a scaled sum is wrong"); return; }
        if (n >= 3) { double cr[3] = {1, 2, 3}; vector_cross(a.data(), b.data(), cr); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; if (!(fabsl(cr[i] - ((LD)a[(size_t)j] * b[(size_t)k] - (LD)a[(size_t)k] * b[(size_t)j])) <= 200 * EPS)) { c.fail("vector", "a cross product is wrong"); return; } } }
        V m = random_matrix(z, d.n, n), m0 = m; about_to("diagonal product"); matrix_multiply_diag_right(d.n, n, m.data(), a.data()); for (u32 i = 0; i < d.n; i++) for (u32 j = 0; j < n; j++) if (!(fabsl(m[i * n + j] - (LD)m0[i * n + j] * a[j]) <= EPS * fabsl((LD)m0[i * n + j] * a[j]))) { c.fail("product", "a product with a diagonal matrix is wrong"); return; }
        V cp = blank(d.n * n); matrix_copy(d.n, n, m.data(), cp.data()); if (cp != m) { c.fail("copy", "a copied matrix differs"); return; }
        double w = z.uniform(1e-3, 1), q = a[0] + z.uniform(-2, 2) * w; if (fabsl(fabsl((LD)a[0] - q) - w) > 1e-12L && double_within(a[0], q, w) != (fabsl((LD)a[0] - q) < w)) { c.fail("vector", "closeness of two numbers is misjudged"); return; }
        c.nontrivial = true; c.state(mix(9, n));
      }
      c.ev("%s n %u", o.name.c_str(), d.n);
    }
  });
}
Prop g_props[] = {
  {"C42", gen_c42, run_c42, 60000, 3000000, "every matrix and vector the estimators compute against long-double arithmetic on the same inputs, with the error bound of the operation; checkpoints against the state they were taken from; singular systems refused", "linear_algebra.c: all library code", "none (estimators, measurements and checkpoints are simulated)", "operation x dimensions"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
