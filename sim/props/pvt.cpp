// C26, C27, C28: a receiver travelling, its clock jumping, satellites rising, failing and fading, and the position solver called epoch after epoch on the same solution structure.
#include "pvt.h"
enum { M26, M27, M28 };
static U64 g_pred_mask;   // which satellites the caller's own predicate admits
static bool own_pred(gnss_signal_t sid, gnss_sid_set_t, u8) { return (g_pred_mask >> (sid.sat % 64)) & 1; }
struct Sim {
  Ctx &c; const Scenario &s; int mode; World w; int strategy = 1; bool no_raim = false, off = false, no_vel = false, mask = false; double thr = 0; gnss_solution soln; dops_t dops; gnss_sid_set_t removed; bool faulty = false; double amp = 0, vt = 1;
  Sim(Ctx &cc, const Scenario &ss, int m) : c(cc), s(ss), mode(m) {
    memset(&soln, 0, sizeof soln); memset(&dops, 0, sizeof dops); sid_set_init(&removed); w.sats.resize(48); for (auto &x : w.sats) x.out = true; w.tor.wn = 2000; w.tor.tow = 1000; w.place(0.7, 0.1, 100, 0, 0, 0);
    glo_map_init(nullptr, nullptr); for (int i = 1; i <= 28; i++) glo_map_set_slot_id((u16)(1 + (i - 1) % 14), (u16)i);
  }
  Sat &sat(i64 k) { return w.sats[(U64)k % w.sats.size()]; }
  void step(const Op &o) {
    const std::string &n = o.name;
    if (n == "cfg") { strategy = (int)((U64)o.arg(0) % 5); no_raim = o.arg(1) & 1; off = o.arg(2) & 1; mask = o.arg(3) & 1; thr = (double)o.arg(4) / 100; g_pred_mask = (U64)o.arg(5, -1); }
    else if (n == "place") { w.place(o.arg(0) * 1e-7 * PI_ / 180, o.arg(1) * 1e-7 * PI_ / 180, o.arg(2) * 1e-3, o.arg(3) * 1e-3, o.arg(4) * 1e-3, o.arg(5) * 1e-3); }
    else if (n == "clock") { w.clk = o.arg(0) * 1e-9; w.drift = o.arg(1) * 1e-12; Rng r((U64)o.arg(2) + 1); w.isb[0] = 0; for (int i = 1; i < 5; i++) w.isb[i] = r.uniform(-1e-6, 1e-6); if (o.arg(2) & 1) w.isb[0] = r.uniform(-1e-6, 1e-6); }
    else if (n == "time") { w.tor.wn = (s16)((U64)o.arg(0) % 4000 + 1); w.tor.tow = (double)((U64)o.arg(1) % 604800000) / 1000; }
    else if (n == "sat") {
      Sat &x = sat(o.arg(0)); x = Sat(); x.sg = (int)((U64)o.arg(1) % NSIG); x.sat = x.sig().lo + (int)((U64)o.arg(2) % (U64)x.sig().n);
      w.point(x, o.arg(3) * 1e-3 * PI_ / 180, o.arg(4) * 1e-3 * PI_ / 180, o.arg(5) * 1e-3); x.clk = o.arg(6) * 1e-9; x.rate = o.arg(7) * 1e-15; x.cn0 = o.arg(8) / 100.0; x.lock = o.arg(9) / 1000.0; x.pll = o.arg(10) & 1;
    } else if (n == "twin") {   // another signal of a satellite already there
      Sat &x = sat(o.arg(0)), &b = sat(o.arg(1)); if (b.out) return; int g = (int)((U64)o.arg(2) % NSIG); if (SIGS[g].cons != b.sig().cons) return; x = b; x.sg = g; x.spike = x.dspike = 0;
    }
    else if (n == "step") { double dt = (double)((U64)o.arg(0) % 60000) / 1000; w.move(dt); for (auto &x : w.sats) x.lock += dt; c.time(dt); }
    else if (n == "spike") { sat(o.arg(0)).spike = o.arg(1) * 1e-3; c.fault("pseudorange_fault"); }
    else if (n == "spikesat") { Sat &b = sat(o.arg(0)); for (auto &x : w.sats) if (!x.out && x.sig().cons == b.sig().cons && x.sat == b.sat) x.spike = o.arg(1) * 1e-3; c.fault("satellite_fault"); }
    else if (n == "dspike") { sat(o.arg(0)).dspike = o.arg(1) * 1e-3; c.fault("doppler_fault"); }
    else if (n == "out") { sat(o.arg(0)).out = true; c.fault("outage"); }
    else if (n == "weak") { sat(o.arg(0)).cn0 = o.arg(1) / 100.0; c.fault("fade"); }
    else if (n == "relock") { sat(o.arg(0)).lock = (double)((U64)o.arg(1) % 6000) / 1000; sat(o.arg(0)).pll = o.arg(1) & 1; c.fault("lock_loss"); }
    else if (n == "junk") { sat(o.arg(0)).garbage = true; c.fault("garbage_measurement"); }
    else if (n == "clear") for (auto &x : w.sats) { x.spike = x.dspike = x.noise = 0; x.garbage = false; x.nodop = 0; amp = 0; }
    else if (n == "noise") { Rng r((U64)o.arg(0)); amp = (double)((U64)o.arg(1) % 10000) * 1e-3; for (auto &x : w.sats) x.noise = amp * r.uniform(-1, 1); c.fault("measurement_noise"); }
    else if (n == "nodop") { if (o.arg(0) < 0) for (auto &x : w.sats) x.nodop = 1 + (int)(o.arg(1) & 1); else sat(o.arg(0)).nodop = 1 + (int)(o.arg(1) & 1); c.fault("doppler_missing"); }
    else if (n == "flat") { for (auto &x : w.sats) { x.flat = true; x.cn0 = 45; x.lock = 100; x.pll = true; } }
    else if (n == "jump") { w.clk += o.arg(0) * 1e-9; c.fault("receiver_clock_jump"); }
    else if (n == "stale") { memset(&soln, (int)o.arg(0), sizeof soln); memset(&dops, (int)o.arg(0), sizeof dops); c.fault("stale_solution_contents"); }
    else if (n == "solve") solve((U64)o.arg(0));
  }
  bool admits(const Sat &x) {   // does the strategy in force look at this signal
    switch (strategy) { case 0: return x.sig().cons == 0; case 3: return x.sig().code == CODE_GPS_L1CA || x.sig().code == CODE_GAL_E1B; case 4: return (g_pred_mask >> (x.sat % 64)) & 1; default: return true; }
  }
  s8 call(const std::vector<navigation_measurement_t> &m, gnss_solution *so, dops_t *d, gnss_sid_set_t *rem) {
    obs_mask_config_t mc; mc.cn0_mask.enable = mask; mc.cn0_mask.threshold_dbhz = (float)thr;
    about_to("solve %zu measurements strategy %d raim %d velocity %d", m.size(), strategy, !no_raim, !off);
    static const enum processing_strategy_t ST[4] = {GPS_ONLY, ALL_CONSTELLATIONS, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY};
    if (strategy == 4) return calc_PVT_pred((u8)m.size(), m.data(), &w.tor, no_raim, off, &mc, own_pred, so, d, rem);
    return calc_PVT((u8)m.size(), m.data(), &w.tor, no_raim, off, &mc, ST[strategy], so, d, rem);
  }
  void solve(U64 shuffle) {
    budget_reset(200000000ULL);
    std::vector<int> idx; std::set<std::pair<int, int>> dup;
    for (int i = 0; i < (int)w.sats.size(); i++) if (!w.sats[i].out && dup.insert({w.sats[i].sig().code, w.sats[i].sat}).second) idx.push_back(i);
    Rng r(shuffle + 7); if (shuffle) for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
    bool known = strategy != 2;   // GPS_L1CA_WHEN_POSSIBLE tops up by a rule of its own
    if (!known) for (auto &x : w.sats) x.nodop = 0;
    std::vector<navigation_measurement_t> m; for (int i : idx) m.push_back(w.measure(w.sats[i], mix(s.seed, (U64)i)));
    const std::vector<navigation_measurement_t> before = m;
    std::vector<int> sel; for (int i : idx) if (admits(w.sats[i]) && (!mask || w.sats[i].cn0 > (double)(float)thr)) sel.push_back(i);
    no_vel = off; for (int i : sel) if (w.sats[i].nodop) { no_vel = true; if (!off) c.probe("velocity_without_doppler"); }   // one signal without a measured Doppler and there is no velocity
    std::set<int> cons; std::set<std::pair<int, int>> satset; bool anyfault = false, good = true;
    for (int i : sel) { const Sat &x = w.sats[i]; cons.insert(x.sig().cons); satset.insert({x.sig().cons, x.sat}); anyfault |= x.spike != 0 || x.dspike != 0 || x.garbage; good &= x.cn0 >= 30; }
    size_t unknowns = 3 + cons.size();
    sid_set_init(&removed);
    s8 ret = call(m, &soln, &dops, &removed);
    c.ev("solve %zu of %zu signals, %zu satellites, %zu unknowns: %d", sel.size(), m.size(), satset.size(), unknowns, ret);
    if (ret >= 0) c.ev("at %.6f %.6f %.6f", soln.pos_ecef[0], soln.pos_ecef[1], soln.pos_ecef[2]);
    c.evbytes(&soln, sizeof soln);
    c.nontrivial = true; c.state(mix((U64)(ret + 8) * 64 + satset.size(), (U64)strategy * 8 + no_raim * 4 + no_vel * 2 + mask));
    static const char *PR[] = {"insufficient", "unconverged", "repair_impossible", "repair_failed", "velocity_lockout", "bad_altitude", "dop_too_high", "raim_ok", "repaired", "no_raim"};
    if (ret < -7 || ret > 2) { c.fail("code", "returned %d", ret); return; }
    c.probe(PR[ret + 7]);
    if (memcmp(before.data(), m.data(), m.size() * sizeof m[0])) { c.fail("modified", "the solver changed its measurements"); return; }
    // truth-based expectations
    std::vector<V3> u; std::vector<int> uc; V3 n, e, d; ned_axes(w.lat, w.lon, n, e, d);
    for (int i : sel) { u.push_back(w.los(w.sats[i], w.p)); uc.push_back(w.sats[i].sig().cons); }
    Dop T{}; bool geo = satset.size() >= unknowns && dilution(u, uc, d, T); double speed = norm(w.v);
    // the error of a predicted Doppler, carried into the velocity by the geometry and the weights
    double vtol = 1e9; { std::vector<double> dw; for (int i : sel) dw.push_back(doppler_weight(w.sats[i])); Dop X{}; if (geo && dilution(u, uc, d, X, &dw)) { vtol = 0; for (int i = 0; i < 4; i++) vtol = std::max(vtol, 0.003 + 0.003 * X.gain[i]); } } vt = vtol;
    bool in_gates = w.h > -998 && w.h < 999e3 && (no_vel || speed < 514.44 - 2 * vtol);
    if (mode == M26) { gates(ret, sel, known, unknowns, satset.size()); if (c.failed()) return;
      if (known && !anyfault && geo && T.g < 6 && amp == 0 && sel.size() > unknowns) {
        bool bad = w.h < -1002 || w.h > 1000010 || (!no_vel && speed > 514.45 + 2 * vtol);
        if (bad && ret >= 0) { c.fail("gate", "a receiver at %.0f m going %.1f m/s is given a valid solution", w.h, speed); return; }
        s8 want = w.h < -1002 || w.h > 1000010 ? PVT_BAD_ALTITUDE : PVT_VELOCITY_LOCKOUT;
        if (bad && (want == PVT_BAD_ALTITUDE || (w.h > -998 && w.h < 999990)) && ret != want) { c.fail("reason", "a receiver at %.0f m going %.1f m/s is refused with code %d, expected %d", w.h, speed, ret, want); return; }
        if (bad) c.probe("true_state_outside_the_gates");
      }
      /* with as many ranges as unknowns there is a second place that explains them, and from poor geometry the solver may end there */
      if (known && !anyfault && geo && T.g > 21 && T.g < 60 && amp == 0 && sel.size() > unknowns && w.h < 10e3 && ret != PVT_PDOP_TOO_HIGH && ret != PVT_UNCONVERGED && ret != PVT_RAIM_REPAIR_FAILED && ret != PVT_RAIM_REPAIR_IMPOSSIBLE) { c.fail("reason", "an epoch with GDOP %.1f gives code %d", T.g, ret); return; }
      if (ret == PVT_UNCONVERGED && !no_raim) { c.fail("reason", "with integrity checking on, code %d is returned", ret); return; }
      if ((ret == PVT_RAIM_REPAIR_FAILED || ret == PVT_RAIM_REPAIR_IMPOSSIBLE) && no_raim) { c.fail("reason", "with integrity checking off, code %d is returned", ret); return; }
      return; }
    if (mode == M27) {
      bool cond = geo && T.g < 6 && in_gates && w.h < 10e3 + 1 && !anyfault && amp == 0 && satset.size() >= 5 && good;
      if (strategy == 2) {   // what it certainly uses must be good by itself
        std::vector<V3> g; std::vector<int> gc; for (int i : sel) if (w.sats[i].sig().code == CODE_GPS_L1CA) { g.push_back(w.los(w.sats[i], w.p)); gc.push_back(0); }
        Dop G{}; cond = cond && dilution(g, gc, d, G) && G.g < 6;
      }
      if (!cond) { c.probe("geometry_not_good"); return; }
      c.probe("good_epoch"); truth(ret, soln, dops, sel, known && sel.size() == unknowns, T, known);
      if (c.failed()) return;
      // the same epoch in another order
      std::vector<navigation_measurement_t> m2 = m; std::vector<int> i2 = idx; for (size_t i = m2.size(); i > 1; i--) { size_t j = r.below(i); std::swap(m2[i - 1], m2[j]); std::swap(i2[i - 1], i2[j]); }
      gnss_solution so2; dops_t d2; memset(&so2, 0x5A, sizeof so2); memset(&d2, 0x5A, sizeof d2);
      s8 r2 = call(m2, &so2, &d2, nullptr);
      std::vector<int> sel2; for (int i : i2) if (std::find(sel.begin(), sel.end(), i) != sel.end()) sel2.push_back(i);
      if (!known) return;
      if (r2 != ret) { c.fail("order", "the same epoch gives %d in one order and %d in another", ret, r2); return; }
      double dp = 0; for (int i = 0; i < 3; i++) dp = std::max(dp, std::fabs(so2.pos_ecef[i] - soln.pos_ecef[i]));
      if (!(dp < 0.01)) c.fail("order", "the same epoch in another order is %.3f m away", dp);
      truth(r2, so2, d2, sel2, sel.size() == unknowns, T, true);
      if (c.failed() || mask || !w.sats[sel[0]].flat) return;
      // the same epoch heard more weakly, then without carrier lock, then just acquired: no better known
      bool same = true; for (int i : sel) same &= w.sats[i].sg == w.sats[sel[0]].sg && w.sats[i].cn0 == w.sats[sel[0]].cn0 && w.sats[i].lock == w.sats[sel[0]].lock && w.sats[i].flat;
      for (int k = 0; k < 3; k++) {
        m2 = m; for (auto &x : m2) { if (k == 0) x.cn0 -= 8; else if (k == 1) x.flags &= (nav_meas_flags_t)~NAV_MEAS_FLAG_PHASE_VALID; else x.lock_time = 1; }
        s8 r3 = call(m2, &so2, &d2, nullptr);
        if (r3 < 0) { c.fail("converge", "the same epoch %s gives %d", k == 0 ? "8 dB weaker" : k == 1 ? "without carrier lock" : "just acquired", r3); return; }
        double a = so2.err_cov[0] + so2.err_cov[3] + so2.err_cov[5], b = soln.err_cov[0] + soln.err_cov[3] + soln.err_cov[5], va = so2.vel_cov[0] + so2.vel_cov[3] + so2.vel_cov[5], vb = soln.vel_cov[0] + soln.vel_cov[3] + soln.vel_cov[5], q = same && soln.err_cov[0] > 0 ? 1.01 : 1 - 1e-6;
        if (same && k == 0 && w.sats[sel[0]].cn0 > 50) q = 1.0001;
        bool already = false; for (int i : sel) already |= (k == 1 && !w.sats[i].pll) || (k == 2 && w.sats[i].lock < 4); if (already) q = 1 - 1e-6;
        if (!(a >= q * b) || (!no_vel && !(va >= q * vb))) { c.fail("covariance", "the same epoch %s: position variance %.6g after %.6g, velocity %.6g after %.6g", k == 0 ? "8 dB weaker" : k == 1 ? "without carrier lock" : "just acquired", a, b, va, vb); return; }
      }
      c.probe("weaker_is_less_certain");
      return;
    }
    // M28
    std::vector<int> bad; for (int i : sel) if (w.sats[i].spike != 0 || w.sats[i].dspike != 0 || w.sats[i].garbage) bad.push_back(i);
    double smax = 0; for (int i : sel) smax = std::max(smax, World::sigma(w.sats[i]));
    if (no_raim || !known) return;
    if (ret == 0 || ret == 1) {   // whatever the faults: what was kept fits
      std::vector<int> kept; for (int i : sel) if (ret == 0 || !sid_set_contains(&removed, sid(i))) kept.push_back(i);
      if (!kept.empty()) {
        int first = w.sats[sel[0]].sig().cons; V3 p{{soln.pos_ecef[0], soln.pos_ecef[1], soln.pos_ecef[2]}};
        double nn = (double)kept.size() * (no_vel ? 1 : 2);
        for (int i : kept) if (w.sats[i].sig().cons == first) {
          double range; w.seen(w.sats[i], p, &range); const navigation_measurement_t &mm = m[(size_t)(std::find(idx.begin(), idx.end(), i) - idx.begin())];
          double res = mm.raw_pseudorange + C0 * w.sats[i].clk - range - C0 * soln.clock_offset, bound = 1.2 * 2.5 * std::sqrt(nn) * World::sigma(w.sats[i]) + 0.1;
          if (!(std::fabs(res) <= bound)) { c.fail("raim-fit", "a solution reported as '%s' leaves a used measurement %.1f m off (noise %.1f m, %zu signals)", ret ? "repaired" : "checked", res, World::sigma(w.sats[i]), kept.size()); return; }
        }
        c.probe("fit_checked");
      }
    }
    std::vector<double> wt, lev; for (int i : sel) { double q = World::sigma(w.sats[i]); wt.push_back(1 / (q * q)); }
    Dop W{}; bool cond = geo && dilution(u, uc, d, W, &wt, &lev) && satset.size() >= unknowns + 2 && in_gates && w.h < 10e3 + 1 && T.g < 6 && smax < 4;
    if (!cond) { c.probe("not_enough_redundancy"); return; }
    double lo = 0.5 + 1e-9;
    if (amp > lo) return;
    if (bad.empty()) {
      if (ret != PVT_CONVERGED_RAIM_OK) { c.fail("raim-ok", "%zu healthy signals give %d", sel.size(), ret); return; }
      if (sid_set_get_sig_count(&removed)) c.fail("raim-ok", "healthy signals were removed");
      near(3.0 + 0); c.probe("healthy"); return;
    }
    if (bad.size() == 2) { both(ret, sel, bad, u, uc, wt, d, amp, cons.size()); return; }
    if (bad.size() != 1) return;
    const Sat &b = w.sats[bad[0]]; double mag = std::fabs(b.spike);
    if (b.garbage || b.dspike != 0 || mag < 200 || mag > 100000) return;
    // the fault must stand out of the noise model, in the whole set and with any one other signal left out
    size_t bi = (size_t)(std::find(sel.begin(), sel.end(), bad[0]) - sel.begin()); double sb = World::sigma(b), nn = (double)sel.size(), out = 1.4 * (2.5 * std::sqrt(nn * (no_vel ? 1 : 2)) + 0.8 * std::sqrt(nn));
    auto over = [&](size_t a) {
      std::vector<V3> u2; std::vector<int> c2; std::vector<double> w2, f2; for (size_t j = 0; j < sel.size(); j++) if (j != a) { u2.push_back(u[j]); c2.push_back(uc[j]); w2.push_back(wt[j]); f2.push_back(j == bi ? b.spike : 0); }
      std::set<int> cs(c2.begin(), c2.end()); return cs.size() == cons.size() ? misfit(u2, c2, w2, f2) : -1;
    };
    double least = over(sel.size()); for (size_t i = 0; i < sel.size() && least > 0; i++) if (i != bi) least = std::min(least, over(i));
    double worst = least > out && least > (mag > 10000 ? 0.26 : 0.1) * mag / sb ? 0 : 1;
    // with the faulty one out, what is left must be good by itself
    { std::vector<V3> u2; std::vector<int> c2; for (size_t j = 0; j < sel.size(); j++) if (j != bi) { u2.push_back(u[j]); c2.push_back(uc[j]); } Dop X{}; std::set<int> cs(c2.begin(), c2.end()); if (cs.size() != cons.size() || !dilution(u2, c2, d, X) || X.g > 8) worst = 1; }
    if (worst > 0) { c.probe("fault_hidden_by_geometry"); return; }
    if (ret != PVT_CONVERGED_RAIM_REPAIR) { c.fail("raim-repair", "one of %zu signals is off by %.1f m and the solver returns %d", sel.size(), b.spike, ret); return; }
    if (!sid_set_contains(&removed, sid(bad[0])) || sid_set_get_sig_count(&removed) != 1) { c.fail("raim-repair", "code %d sat %d is off by %.1f m; %u signals were removed%s", b.sig().code, b.sat, b.spike, (unsigned)sid_set_get_sig_count(&removed), sid_set_contains(&removed, sid(bad[0])) ? "" : ", not that one"); return; }
    std::set<std::pair<int, int>> left; for (int i : sel) if (i != bad[0]) left.insert({w.sats[i].sig().cons, w.sats[i].sat});
    if (soln.n_sigs_used != sel.size() - 1 || soln.n_sats_used != left.size()) c.fail("raim-repair", "%u signals of %u satellites reported used, of %zu with one excluded", soln.n_sigs_used, soln.n_sats_used, sel.size());
    near(3.0); c.probe(cons.size() > 1 ? "single_fault_repaired_several_constellations" : "single_fault_repaired");
  }
  // one satellite, both of whose signals are wrong: two rounds of exclusions.  What is left over after excluding any signals follows from the linearised geometry.
  void both(s8 ret, const std::vector<int> &sel, const std::vector<int> &bad, const std::vector<V3> &u, const std::vector<int> &uc, const std::vector<double> &wt, V3 d, double noise, size_t ncons) {
    const Sat &x = w.sats[bad[0]], &y = w.sats[bad[1]]; double mag = std::fabs(x.spike);
    if (x.sig().cons != y.sig().cons || x.sat != y.sat || x.spike != y.spike || x.garbage || y.garbage || x.dspike != 0 || y.dspike != 0 || mag < 200 || mag > 10000 || noise > 0.5 + 1e-9) return;
    size_t nb[2], n = sel.size(); for (int k = 0; k < 2; k++) nb[k] = (size_t)(std::find(sel.begin(), sel.end(), bad[k]) - sel.begin());
    auto left = [&](size_t a, size_t b) {   // weighted residual of the fault with signals a and b left out; negative when not solvable
      std::vector<V3> u2; std::vector<int> c2; std::vector<double> w2, f2; for (size_t j = 0; j < n; j++) if (j != a && j != b) { u2.push_back(u[j]); c2.push_back(uc[j]); w2.push_back(wt[j]); f2.push_back(j == nb[0] || j == nb[1] ? x.spike : 0); }
      return misfit(u2, c2, w2, f2);
    };
    double nn = (double)n, out = 1.4 * (2.5 * std::sqrt(nn * (no_vel ? 1 : 2)) + 0.8 * std::sqrt(nn)), bestbad = 1e99, bestgood = 1e99;
    bool ok = left(n, n) > out;
    for (size_t i = 0; i < n && ok; i++) { double q = left(i, n); bool isbad = i == nb[0] || i == nb[1]; ok = q > out; (isbad ? bestbad : bestgood) = std::min(isbad ? bestbad : bestgood, q); }
    ok = ok && bestbad * 1.15 < bestgood;
    for (int k = 0; k < 2 && ok; k++) for (size_t i = 0; i < n && ok; i++) if (i != nb[0] && i != nb[1]) ok = left(nb[k], i) > out;
    if (ok) { std::vector<V3> u2; std::vector<int> c2; for (size_t j = 0; j < n; j++) if (j != nb[0] && j != nb[1]) { u2.push_back(u[j]); c2.push_back(uc[j]); } Dop X{}; std::set<int> cs(c2.begin(), c2.end()); ok = cs.size() == ncons && dilution(u2, c2, d, X) && X.g < 8; }
    if (!ok) { c.probe("satellite_fault_hidden_by_geometry"); return; }
    if (ret != PVT_CONVERGED_RAIM_REPAIR) { c.fail("raim-satellite", "both signals of one satellite, of %zu signals, are off by %.1f m and the solver returns %d", n, x.spike, ret); return; }
    if (!sid_set_contains(&removed, sid(bad[0])) || !sid_set_contains(&removed, sid(bad[1])) || sid_set_get_sig_count(&removed) != 2) { c.fail("raim-satellite", "both signals of satellite %d are off by %.1f m; %u signals were removed, not those", x.sat, x.spike, (unsigned)sid_set_get_sig_count(&removed)); return; }
    std::set<std::pair<int, int>> rest; for (int i : sel) if (i != bad[0] && i != bad[1]) rest.insert({w.sats[i].sig().cons, w.sats[i].sat});
    if (soln.n_sigs_used != n - 2 || soln.n_sats_used != rest.size()) { c.fail("raim-satellite", "%u signals of %u satellites reported used, of %zu with two excluded", soln.n_sigs_used, soln.n_sats_used, n); return; }
    near(3.0); c.probe("satellite_fault_repaired");
  }
  gnss_signal_t sid(int i) { gnss_signal_t x; memset(&x, 0, sizeof x); x.code = (code_t)w.sats[i].sig().code; x.sat = (u16)w.sats[i].sat; return x; }
  void near(double tol) {
    V3 p{{soln.pos_ecef[0], soln.pos_ecef[1], soln.pos_ecef[2]}}; double q = norm(p - w.p);
    if (!(q < tol)) c.fail("raim-position", "the position is %.2f m from the receiver", q);
  }
  void truth(int ret, const gnss_solution &so, const dops_t &dp, const std::vector<int> &sel, bool exact, const Dop &T, bool known) {
    if (ret < 0) { c.fail("converge", "a noise-free epoch with GDOP %.2f, %zu signals, at %.4f %.4f %.0f m gives %d", T.g, sel.size(), w.lat, w.lon, w.h, ret); return; }
    if (known && ret != (no_raim || exact ? PVT_CONVERGED_NO_RAIM : PVT_CONVERGED_RAIM_OK)) { c.fail("converge", "a noise-free epoch of %zu signals returns %d", sel.size(), ret); return; }
    double dpv = 0, dv = 0; for (int i = 0; i < 3; i++) { dpv = std::max(dpv, std::fabs(so.pos_ecef[i] - w.p[i])); dv = std::max(dv, std::fabs(so.vel_ecef[i] - w.v[i])); }
    if (!(dpv < 1)) { c.fail("converge", "the solution is %.3f m from the receiver (GDOP %.2f)", dpv, T.g); return; }
    if (!no_vel && known && !(dv < vt)) { c.fail("velocity", "the velocity is %.3f m/s off (GDOP %.2f)", dv, T.g); return; }
    if (!known) return;
    int first = w.sats[sel[0]].sig().cons; double wc = w.clk + w.isb[first];
    if (!(std::fabs(so.clock_offset - wc) * C0 < 2)) { c.fail("clock", "clock offset %.12f, true %.12f", so.clock_offset, wc); return; }
    if (!no_vel && !(std::fabs(so.clock_drift - w.drift) * C0 < vt)) { c.fail("clock", "clock drift %.3g, true %.3g", so.clock_drift, w.drift); return; }
    double t = (so.time.wn - w.tor.wn) * 604800.0 + (so.time.tow - w.tor.tow) + wc;
    if (!(std::fabs(t) < 1e-8) || !(so.time.tow >= 0 && so.time.tow < 604800)) { c.fail("clock", "solution time %d %.9f, received at %d %.9f with clock %.9f", so.time.wn, so.time.tow, w.tor.wn, w.tor.tow, wc); return; }
    auto rel = [](double a, double b) { return std::fabs(a - b) < 2e-3 * b + 1e-3; };
    std::vector<V3> u; std::vector<int> uc; V3 n, e, d; ned_axes(w.lat, w.lon, n, e, d); for (int i : sel) { u.push_back(w.los(w.sats[i], w.p)); uc.push_back(w.sats[i].sig().cons); }
    Dop D{}; if (dilution(u, uc, d, D) && !(rel(dp.pdop, D.p) && rel(dp.gdop, D.g) && rel(dp.tdop, D.t) && rel(dp.vdop, D.v) && rel(dp.hdop, D.h)))
      c.fail("dop", "dilutions %.4f %.4f %.4f %.4f %.4f, geometry gives %.4f %.4f %.4f %.4f %.4f", dp.pdop, dp.gdop, dp.tdop, dp.hdop, dp.vdop, D.p, D.g, D.t, D.h, D.v);
  }
  // every measurement equally good: the covariances are the geometry's, up to one factor each for position and velocity
  void uniform(const gnss_solution &so, const std::vector<int> &used, V3 at) {
    if (used.empty()) return;
    const Sat &a = w.sats[used[0]]; for (int i : used) { const Sat &x = w.sats[i]; if (!x.flat || x.sg != a.sg || x.cn0 != a.cn0 || x.lock != a.lock || x.pll != a.pll || x.garbage) return; }
    std::vector<V3> u; std::vector<int> uc; V3 n, e, d; ned_axes(w.lat, w.lon, n, e, d); for (int i : used) { u.push_back(w.los(w.sats[i], at)); uc.push_back(0); }
    Dop D{}; if (!dilution(u, uc, d, D) || D.g > 15) return;
    double hm = 0; for (int i = 0; i < 4; i++) hm = std::max(hm, D.H[i][i]);
    for (int k = 0; k < (no_vel || a.sig().cons == 3 ? 1 : 2); k++) {
      const double *v = k ? so.vel_cov : so.err_cov; double t = k ? so.clock_drift_var : so.clock_offset_var;
      double m[4][4] = {{v[0], v[1], v[2], 0}, {v[1], v[3], v[4], 0}, {v[2], v[4], v[5], 0}, {0, 0, 0, t * C0 * C0}};
      double sc = (v[0] + v[3] + v[5]) / (D.H[0][0] + D.H[1][1] + D.H[2][2]);
      for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if ((i < 3) == (j < 3) && !(std::fabs(m[i][j] - sc * D.H[i][j]) < 2e-3 * sc * hm)) { c.fail("covariance", "equally good measurements: %s covariance %d,%d is %.6g, geometry gives %.6g", k ? "velocity" : "position", i, j, m[i][j], sc * D.H[i][j]); return; }
    }
    c.probe("covariance_checked");
  }
  void gates(int ret, const std::vector<int> &sel, bool known, size_t unknowns, size_t nsats) {
    if (ret < 0) {
      if (soln.valid) { c.fail("stale-valid", "returned %d (%s) with a solution marked valid", ret, pvt_err_msg[-ret - 1]); return; }
      if (soln.velocity_valid) { c.fail("stale-valid", "returned %d (%s) with the velocity marked valid", ret, pvt_err_msg[-ret - 1]); return; }
      if (!pvt_err_msg[-ret - 1] || !*pvt_err_msg[-ret - 1]) c.fail("code", "code %d has no message", ret);
      if (known && (nsats < unknowns) != (ret == PVT_INSUFFICENT_MEAS)) c.fail("code", "%zu satellites for %zu unknowns return %d", nsats, unknowns, ret);
      return;
    }
    if (soln.valid != 1) { c.fail("not-valid", "returned %d with a solution not marked valid", ret); return; }
    if (known && nsats < unknowns) { c.fail("underdetermined", "%zu satellites for %zu unknowns give a solution", nsats, unknowns); return; }
    if (soln.velocity_valid != (no_vel ? 0 : 1)) { c.fail("velocity-flag", "velocity_valid is %u with velocity %s", soln.velocity_valid, no_vel ? "off" : "on"); return; }
    if (no_raim && ret != PVT_CONVERGED_NO_RAIM) { c.fail("raim-off", "integrity checking is off and %d is returned", ret); return; }
    if (known && !no_raim && (ret == PVT_CONVERGED_NO_RAIM) != (sel.size() <= unknowns)) { c.fail("raim-on", "%zu signals for %zu unknowns return %d", sel.size(), unknowns, ret); return; }
    double *f[] = {soln.pos_llh, soln.pos_ecef, soln.vel_ned, soln.vel_ecef, soln.err_cov, soln.err_cov + 3}; for (double *q : f) for (int i = 0; i < 3; i++) if (!std::isfinite(q[i])) { c.fail("not-finite", "a valid solution is not finite"); return; }
    if (!no_vel) for (int i = 0; i < 7; i++) if (!std::isfinite(soln.vel_cov[i])) { c.fail("not-finite", "velocity covariance is not finite"); return; }
    if (!std::isfinite(soln.err_cov[6] + soln.clock_offset + soln.clock_offset_var + soln.clock_drift + soln.clock_drift_var + soln.time.tow + dops.pdop + dops.gdop + dops.tdop + dops.hdop + dops.vdop)) { c.fail("not-finite", "a valid solution's clock or dilution is not finite"); return; }
    if (no_vel && (soln.clock_drift != 0 || soln.clock_drift_var != 0 || soln.vel_ecef[0] != 0 || soln.vel_ecef[1] != 0 || soln.vel_ecef[2] != 0)) { c.fail("velocity-off", "velocity is off: drift %g, its variance %g, speed %g %g %g", soln.clock_drift, soln.clock_drift_var, soln.vel_ecef[0], soln.vel_ecef[1], soln.vel_ecef[2]); return; }
    if (soln.err_cov[0] <= 0 || soln.err_cov[3] <= 0 || soln.err_cov[5] <= 0 || soln.clock_offset_var < 0 || soln.clock_drift_var < 0) { c.fail("covariance", "a variance is not positive"); return; }
    if (dops.gdop > 20 || soln.err_cov[6] != dops.gdop) { c.fail("gate", "valid with GDOP %.3f (%.3f)", dops.gdop, soln.err_cov[6]); return; }
    if (soln.pos_llh[2] < -1e3 || soln.pos_llh[2] > 1e6) { c.fail("gate", "valid at an altitude of %.1f m", soln.pos_llh[2]); return; }
    double sp = std::sqrt(soln.vel_ecef[0] * soln.vel_ecef[0] + soln.vel_ecef[1] * soln.vel_ecef[1] + soln.vel_ecef[2] * soln.vel_ecef[2]);
    if (sp >= 514.4445) { c.fail("gate", "valid at %.3f m/s", sp); return; }
    V3 q = llh_ecef(soln.pos_llh[0], soln.pos_llh[1], soln.pos_llh[2]), p{{soln.pos_ecef[0], soln.pos_ecef[1], soln.pos_ecef[2]}}, nn, e, d, v{{soln.vel_ecef[0], soln.vel_ecef[1], soln.vel_ecef[2]}};
    if (!(norm(q - p) < 0.01)) { c.fail("inconsistent", "latitude, longitude and height are %.3f m from the Cartesian position", norm(q - p)); return; }
    ned_axes(soln.pos_llh[0], soln.pos_llh[1], nn, e, d);
    if (!(std::fabs(dot(v, nn) - soln.vel_ned[0]) < 1e-3 && std::fabs(dot(v, e) - soln.vel_ned[1]) < 1e-3 && std::fabs(dot(v, d) - soln.vel_ned[2]) < 1e-3)) { c.fail("inconsistent", "north-east-down velocity differs from the Cartesian one"); return; }
    double t = (soln.time.wn - w.tor.wn) * 604800.0 + (soln.time.tow - w.tor.tow) + soln.clock_offset;
    if (!(std::fabs(t) < 1e-8) || !(soln.time.tow >= 0 && soln.time.tow < 604800)) { c.fail("inconsistent", "time %d %.9f does not match reception at %d %.9f and clock %.9f", soln.time.wn, soln.time.tow, w.tor.wn, w.tor.tow, soln.clock_offset); return; }
    // counts and geometry
    if (!known) { if (soln.n_sats_used > soln.n_sigs_used || soln.n_sigs_used > sel.size()) c.fail("count", "%u satellites, %u signals of %zu", soln.n_sats_used, soln.n_sigs_used, sel.size()); return; }
    size_t nrem = 0; std::set<std::pair<int, int>> used; std::vector<V3> u; std::vector<int> uc;
    for (int i : sel) if (ret == 1 && sid_set_contains(&removed, sid(i))) nrem++; else { used.insert({w.sats[i].sig().cons, w.sats[i].sat}); u.push_back(w.los(w.sats[i], p)); uc.push_back(w.sats[i].sig().cons); }
    if (ret == 1 && (nrem == 0 || nrem != sid_set_get_sig_count(&removed))) { c.fail("removed", "repaired, %u signals named as removed, %zu of them measured", (unsigned)sid_set_get_sig_count(&removed), nrem); return; }
    if (soln.n_sigs_used != u.size() || soln.n_sats_used != used.size()) { c.fail("count", "%u satellites and %u signals reported, %zu and %zu used", soln.n_sats_used, soln.n_sigs_used, used.size(), u.size()); return; }
    { std::vector<int> used2; for (int i : sel) if (ret != 1 || !sid_set_contains(&removed, sid(i))) used2.push_back(i); uniform(soln, used2, p); if (c.failed()) return; }
    Dop D{}; std::set<int> cs(uc.begin(), uc.end());
    if (cs.size() + 3 != unknowns) { c.fail("underdetermined", "a constellation lost its last signal and its clock is still reported"); return; }
    if (uc[0] == w.sats[sel[0]].sig().cons) {
      bool ok = dilution(u, uc, d, D);
      auto rel = [](double a, double b) { return std::fabs(a - b) < 1e-3 * b + 1e-4; };
      if (!ok || !(rel(dops.pdop, D.p) && rel(dops.gdop, D.g) && rel(dops.tdop, D.t) && rel(dops.vdop, D.v) && std::fabs(dops.hdop - D.h) < 0.01 * D.h + 0.01)) c.fail("dop", "dilutions %.4f %.4f %.4f %.4f %.4f reported, the geometry used gives %.4f %.4f %.4f %.4f %.4f", dops.pdop, dops.gdop, dops.tdop, dops.hdop, dops.vdop, D.p, D.g, D.t, D.h, D.v);
    }
  }
};
static void run(Ctx &c, const Scenario &s, int mode) {
  on_painted_stack(s.seed, [&] { shim_quiet_logging(); Sim sim(c, s, mode); for (auto &o : s.ops) { if (c.failed()) return; sim.step(o); } });
}
static void run26(Ctx &c, const Scenario &s) { run(c, s, M26); }
static void run27(Ctx &c, const Scenario &s) { run(c, s, M27); }
static void run28(Ctx &c, const Scenario &s) { run(c, s, M28); }
// ---- scenario generation
static void g_place(Rng &r, Scenario &s, int mode) {
  i64 lat = r.chance(1, 8) ? r.pick<i64>({0, 900000000, -900000000, 899999999, 450000000}) : r.range(-900000000, 900000000), lon = r.chance(1, 8) ? r.pick<i64>({0, 1800000000, -1800000000, 900000000, -900000000}) : r.range(-1800000000, 1800000000);
  i64 h = r.range(-400000, 9000000), sp = r.chance(1, 2) ? 300000 : 20000; i64 vn = r.range(-sp, sp), ve = r.range(-sp, sp), vd = r.range(-20000, 20000);
  if (mode == M27 && r.chance(1, 8)) { double v = r.uniform(490e3, 514050), a = r.uniform(0, 6.28); vn = (i64)(v * std::cos(a)); ve = (i64)(v * std::sin(a)); vd = 0; }
  if (mode == M27 && r.chance(1, 16)) h = -r.range(900000, 997500);
  if (mode == M26) {
    if (r.chance(1, 4)) h = r.pick<i64>({-1000000, 1000000000, -2000000, 1500000000, -990000, 999000000}) + r.range(-200000, 200000);
    if (r.chance(1, 4)) { double v = (r.chance(1, 2) ? 514444.4 : r.uniform(450e3, 700e3)) + r.uniform(-3000, 3000), a = r.uniform(0, 6.28); vn = (i64)(v * std::cos(a)); ve = (i64)(v * std::sin(a)); vd = 0; }
  }
  s.op("place", {lat, lon, h, vn, ve, vd});
}
static void g_sat(Rng &r, Scenario &s, int k, int sg, i64 no, int mode, double az, double el) {
  bool good = mode == M28; i64 cn0 = good ? r.range(4000, 5200) : r.range(3000, 5500);
  s.op("sat", {k, sg, no, (i64)(az * 1000), (i64)(el * 1000), (i64)r.below(6283), r.range(-900000, 900000), r.chance(1, 3) ? r.range(-900000, 900000) : r.range(-20000, 20000), cn0, good || r.chance(5, 6) ? r.range(5000, 900000) : r.range(0, 5000), good || r.chance(7, 8)});
}
static void sky(Rng &r, Scenario &s, int mode, int &nsat, bool flat) {
  const int *first = FIRST;
  int nc = mode == M28 ? (int)r.pick<i64>({1, 1, 1, 2, 2, 3, 3, 4}) : (int)r.pick<i64>({1, 1, 1, 2, 2, 3, 4}); if (flat && r.chance(3, 4)) nc = 1; std::vector<int> cs; std::vector<int> all = {0, 1, 2, 3, 4}; for (int i = 0; i < nc; i++) { size_t j = r.below(all.size()); cs.push_back(all[j]); all.erase(all.begin() + (long)j); }
  if (mode != M28 && !flat && r.chance(2, 3) && std::find(cs.begin(), cs.end(), 0) == cs.end()) cs[0] = 0;
  bool crowd = mode != M28 && !flat && r.chance(1, 80); if (crowd) { cs = all; for (int q = 0; q < 5; q++) if (std::find(cs.begin(), cs.end(), q) == cs.end()) cs.push_back(q); }
  int cap = crowd ? 79 : 40;   // as many measurements as there are channels
  int k = 0; std::vector<int> no;
  for (int cidx : cs) {
    int n = mode == M28 ? (nc == 1 ? (int)r.range(r.chance(1, 4) ? 5 : 9, 14) : (int)r.range(r.chance(1, 3) ? 1 : 4, 9)) : mode == M27 ? (nc == 1 ? (int)r.range(5, 12) : (int)r.range(1, 8)) : (int)r.range(0, 9);
    if (crowd) n = (int)r.range(8, 20);
    if (n > SIGS[first[cidx]].n) n = SIGS[first[cidx]].n;
    no.clear(); for (int i = 0; i < SIGS[first[cidx]].n; i++) no.push_back(i);
    bool tight = mode == M26 && r.chance(1, 5); double a0 = r.uniform(0, 360), e0 = r.uniform(10, 80);   // poor geometry: a bunch of satellites close together
    int sgk = first[cidx]; if (flat || (cidx == 3 ? r.chance(1, 3) : r.chance(1, 6))) sgk = (int)r.range(first[cidx], first[cidx + 1] - 1); if (mode == M28) { int lo = first[cidx], hi = first[cidx + 1]; sgk = (int)r.range(lo, hi - 1); }
    double off = r.uniform(0, 360);
    for (int i = 0; i < n && k < cap; i++) {
      double az = tight ? a0 + r.uniform(-15, 15) : mode == M26 ? r.uniform(0, 360) : off + 360.0 * i / n + r.uniform(-30, 30), el = tight ? e0 + r.uniform(-8, 8) : i % 3 == 2 ? r.uniform(50, 88) : i % 3 ? r.uniform(20, 60) : r.uniform(8, 30);
      size_t j = r.below(no.size()); g_sat(r, s, k, sgk, no[j], mode, az, el); no.erase(no.begin() + (long)j);
      int base = k++;
      if (r.chance(1, crowd ? 2 : mode == M28 || flat ? 16 : 4) && k < cap) { int lo = first[cidx], hi = first[cidx + 1] - 1; s.op("twin", {k++, base, r.range(lo, hi)}); }
    }
  }
  nsat = k;
}
static void gen(Rng &r, Scenario &s, int mode) {
  i64 strat = mode == M28 ? r.pick<i64>({1, 1, 1, 4}) : r.pick<i64>({0, 1, 1, 1, 2, 3, 4});
  bool noraim = mode == M28 ? false : r.chance(1, 4), mk = r.chance(1, 4);
  s.op("cfg", {strat, noraim, r.chance(1, 3), mk, mk ? r.range(3000, mode == M26 ? 5000 : 3800) : 0, mode == M26 ? (i64)(r.next() | r.next()) : -1});
  s.op("time", {(i64)r.below(4000), r.chance(1, 5) ? r.pick<i64>({0, 604799999, 604799500, 1}) : (i64)r.below(604800000)});
  s.op("clock", {r.range(-1000000, 1000000), r.range(-2000000, 2000000), (i64)r.below(1000)});
  g_place(r, s, mode);
  bool flat = mode != M28 && r.chance(1, 3); int n = 0; sky(r, s, mode, n, flat); if (!n) n = 1;
  if (flat) s.op("flat");
  if (r.chance(1, 2)) s.op("stale", {r.chance(1, 2) ? 255 : r.range(1, 255)});
  int epochs = (int)r.range(1, mode == M26 ? 6 : 4);
  for (int e = 0; e < epochs; e++) {
    if (mode == M26) {
      int f = (int)r.below(4);
      for (int i = 0; i < f; i++) switch (r.below(9)) {
        case 0: case 1: { double m = std::pow(10.0, r.uniform(0, r.chance(1, 4) ? 8 : 5)); s.op("spike", {(i64)r.below(n), (i64)(1000 * m * (r.chance(1, 2) ? 1 : -1))}); break; }
        case 2: { double m = std::pow(10.0, r.uniform(-1, 5)); s.op("dspike", {(i64)r.below(n), (i64)(1000 * m * (r.chance(1, 2) ? 1 : -1))}); break; }
        case 3: s.op("out", {(i64)r.below(n)}); break;
        case 4: s.op("weak", {(i64)r.below(n), r.range(1500, 4000)}); break;
        case 5: s.op("relock", {(i64)r.below(n), r.range(0, 5000)}); break;
        case 6: s.op("jump", {(i64)(std::pow(10.0, r.uniform(2, 9)))}); break;
        case 7: s.op("noise", {(i64)r.below(100000), r.range(100, 9000)}); break;
        default: s.op("clear"); if (r.chance(1, 2)) s.op("stale", {(i64)r.below(256)});
      }
      if (r.chance(1, 12)) for (int i = 0; i < n; i++) if (r.chance(1, 2)) s.op("out", {i});
      if (r.chance(1, 8)) s.op("cfg", {r.pick<i64>({0, 1, 1, 2, 3, 4}), r.chance(1, 2), r.chance(1, 3), r.chance(1, 3), r.range(3000, 5000), (i64)(r.next() | r.next())});
    } else if (mode == M27) {
      if (r.chance(1, 3)) s.op("jump", {(i64)(std::pow(10.0, r.uniform(2, 6)))});
      if (strat == 0 || strat == 3) for (int i = 0; i < n; i++) (void)i;
      if (r.chance(1, 4)) s.op("junk", {(i64)r.below(n)});
      if (r.chance(1, 3)) s.op("out", {(i64)r.below(n)});
    } else {
      s.op("clear");
      if (r.chance(1, 2)) s.op("noise", {(i64)r.below(100000), r.range(50, 500)});
      if (r.chance(5, 6)) { double m = r.chance(1, 4) ? r.uniform(200, 300) : std::pow(10.0, r.uniform(2.3011, 5)); s.op("spike", {(i64)r.below(n), (i64)(1000 * m * (r.chance(1, 2) ? 1 : -1))}); }
      if (r.chance(1, 6)) s.op("spike", {(i64)r.below(n), (i64)(1000 * std::pow(10.0, r.uniform(1, 5)))});
      if (r.chance(1, 12)) s.op("dspike", {(i64)r.below(n), r.range(-90000, 90000)});
      if (r.chance(1, 4)) { double m = std::pow(10.0, r.uniform(2.3011, 4)); s.op("clear"); if (r.chance(1, 3)) s.op("noise", {(i64)r.below(100000), r.range(50, 500)}); std::vector<i64> tw; for (auto &o : s.ops) if (o.name == "twin") tw.push_back(o.arg(0)); s.op("spikesat", {tw.empty() ? (i64)r.below(n) : tw[r.below(tw.size())], (i64)(1000 * m * (r.chance(1, 2) ? 1 : -1))}); }
    }
    if (r.chance(1, 10)) s.op("nodop", {r.chance(1, 2) ? -1 : (i64)r.below(n), (i64)r.below(2)});
    s.op("solve", {r.chance(1, 2) ? (i64)r.below(1000) + 1 : 0});
    s.op("step", {(i64)r.below(2000)});
    if (mode == M26 && r.chance(1, 10)) g_place(r, s, mode);
  }
}
static void gen26(Rng &r, Scenario &s, U64) { gen(r, s, M26); }
static void gen27(Rng &r, Scenario &s, U64) { gen(r, s, M27); }
static void gen28(Rng &r, Scenario &s, U64) { gen(r, s, M28); }
#define REAL "single_epoch_solver.c, linear_algebra.c, coord_system.c, nav_meas.c, sid_set.c, signal.c, glo_map.c: all library code"
#define STUB "none (receiver, satellites, measurement errors and the caller's previous solution are simulated)"
Prop g_props[] = {
  {"C26", gen26, run26, 72000, 1500000, "after every epoch: return code, flags and gates; dilutions, counts, frames and time recomputed independently from the simulated geometry", REAL, STUB, "return code x satellites x strategy and options"},
  {"C27", gen27, run27, 48000, 1500000, "the simulated receiver's true place, speed, clock and time; the same epoch in another order", REAL, STUB, "return code x satellites x strategy and options"},
  {"C28", gen28, run28, 16000, 1000000, "the injected fault is the one named; position within 3 m; every measurement kept fits", REAL, STUB, "return code x satellites x strategy and options"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
