// C44: stations name their signals to each other and to their own storage: by printed name, by label and index, by constellation letter; records are torn and altered, stations crash and restart with nothing but their
// records, and signals that nobody knows turn up. Every name means one signal and comes back as that signal, or as none.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include "shims.h"
#include "sim.h"
#include <swiftnav/signal.h>
// what the peers, which run released versions, call the signals
struct Row { code_t code; const char *label; int sys, first, count; int f; };   // sys: index into "GSRCJE", f in units of 1.023 MHz, 0 not judged
static const Row ROWS[] = {
  {CODE_GPS_L1CA, "GPS L1CA", 0, 1, 32, 1540}, {CODE_GPS_L2CM, "GPS L2CM", 0, 1, 32, 1200}, {CODE_SBAS_L1CA, "SBAS L1", 1, 120, 19, 1540}, {CODE_GLO_L1OF, "GLO L1OF", 2, 1, 28, 0}, {CODE_GLO_L2OF, "GLO L2OF", 2, 1, 28, 0}, {CODE_GPS_L1P, "GPS L1P", 0, 1, 32, 1540}, {CODE_GPS_L2P, "GPS L2P", 0, 1, 32, 1200},
  {CODE_GPS_L2CL, "GPS L2CL", 0, 1, 32, 1200}, {CODE_GPS_L2CX, "GPS L2C", 0, 1, 32, 1200}, {CODE_GPS_L5I, "GPS L5I", 0, 1, 32, 1150}, {CODE_GPS_L5Q, "GPS L5Q", 0, 1, 32, 1150}, {CODE_GPS_L5X, "GPS L5", 0, 1, 32, 1150}, {CODE_BDS2_B1, "BDS B1", 3, 1, 64, 1526}, {CODE_BDS2_B2, "BDS B2", 3, 1, 64, 1180},
  {CODE_GAL_E1B, "GAL E1B", 5, 1, 36, 1540}, {CODE_GAL_E1C, "GAL E1C", 5, 1, 36, 1540}, {CODE_GAL_E1X, "GAL E1", 5, 1, 36, 1540}, {CODE_GAL_E6B, "GAL E6B", 5, 1, 36, 1250}, {CODE_GAL_E6C, "GAL E6C", 5, 1, 36, 1250}, {CODE_GAL_E6X, "GAL E6", 5, 1, 36, 1250}, {CODE_GAL_E7I, "GAL E5bI", 5, 1, 36, 1180},
  {CODE_GAL_E7Q, "GAL E5bQ", 5, 1, 36, 1180}, {CODE_GAL_E7X, "GAL E5b", 5, 1, 36, 1180}, {CODE_GAL_E8I, "GAL E8I", 5, 1, 36, 1165}, {CODE_GAL_E8Q, "GAL E8Q", 5, 1, 36, 1165}, {CODE_GAL_E8X, "GAL E8", 5, 1, 36, 1165}, {CODE_GAL_E5I, "GAL E5aI", 5, 1, 36, 1150}, {CODE_GAL_E5Q, "GAL E5aQ", 5, 1, 36, 1150}, {CODE_GAL_E5X, "GAL E5a", 5, 1, 36, 1150},
  {CODE_GLO_L1P, "GLO L1P", 2, 1, 28, 0}, {CODE_GLO_L2P, "GLO L2P", 2, 1, 28, 0}, {CODE_QZS_L1CA, "QZS L1CA", 4, 193, 10, 1540}, {CODE_QZS_L1CI, "QZS L1CI", 4, 193, 10, 1540}, {CODE_QZS_L1CQ, "QZS L1CQ", 4, 193, 10, 1540}, {CODE_QZS_L1CX, "QZS L1CX", 4, 193, 10, 1540}, {CODE_QZS_L2CM, "QZS L2CM", 4, 193, 10, 1200},
  {CODE_QZS_L2CL, "QZS L2CL", 4, 193, 10, 1200}, {CODE_QZS_L2CX, "QZS L2C", 4, 193, 10, 1200}, {CODE_QZS_L5I, "QZS L5I", 4, 193, 10, 1150}, {CODE_QZS_L5Q, "QZS L5Q", 4, 193, 10, 1150}, {CODE_QZS_L5X, "QZS L5", 4, 193, 10, 1150}, {CODE_SBAS_L5I, "SBAS L5I", 1, 120, 19, 1150}, {CODE_SBAS_L5Q, "SBAS L5Q", 1, 120, 19, 1150},
  {CODE_SBAS_L5X, "SBAS L5", 1, 120, 19, 1150}, {CODE_BDS3_B1CI, "BDS3 B1CI", 3, 1, 64, 1540}, {CODE_BDS3_B1CQ, "BDS3 B1CQ", 3, 1, 64, 1540}, {CODE_BDS3_B1CX, "BDS3 B1C", 3, 1, 64, 1540}, {CODE_BDS3_B5I, "BDS3 B5I", 3, 1, 64, 1150}, {CODE_BDS3_B5Q, "BDS3 B5Q", 3, 1, 64, 1150}, {CODE_BDS3_B5X, "BDS3 B5", 3, 1, 64, 1150},
  {CODE_BDS3_B7I, "BDS3 B7I", 3, 1, 64, 1180}, {CODE_BDS3_B7Q, "BDS3 B7Q", 3, 1, 64, 1180}, {CODE_BDS3_B7X, "BDS3 B7", 3, 1, 64, 1180}, {CODE_BDS3_B3I, "BDS3 B3I", 3, 1, 64, 1240}, {CODE_BDS3_B3Q, "BDS3 B3Q", 3, 1, 64, 1240}, {CODE_BDS3_B3X, "BDS3 B3", 3, 1, 64, 1240}, {CODE_GPS_L1CI, "GPS L1CI", 0, 1, 32, 1540},
  {CODE_GPS_L1CQ, "GPS L1CQ", 0, 1, 32, 1540}, {CODE_GPS_L1CX, "GPS L1C", 0, 1, 32, 1540}, {CODE_AUX_GPS, "GPS AUX", 0, 1, 32, 0}, {CODE_AUX_SBAS, "SBAS AUX", 1, 120, 19, 0}, {CODE_AUX_GAL, "GAL AUX", 5, 1, 36, 0}, {CODE_AUX_QZS, "QZS AUX", 4, 193, 10, 0}, {CODE_AUX_BDS, "BDS AUX", 3, 1, 64, 0}};
static const int NR = (int)(sizeof ROWS / sizeof *ROWS);
static const constellation_t SYS[6] = {CONSTELLATION_GPS, CONSTELLATION_SBAS, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_GAL};
static const char *SYSNAME[6] = {"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL"};
static const Row *row_of(int code) { for (auto &r : ROWS) if ((int)r.code == code) return &r; return nullptr; }
static const Row *row_named(const std::string &l) { for (auto &r : ROWS) if (l == r.label) return &r; return nullptr; }
static bool known(int code, int sat) { const Row *r = row_of(code); return r && sat >= r->first && sat < r->first + r->count; }
static void gen_c44(Rng &r, Scenario &s, U64) {
  int n = (int)r.range(2, 8); for (int i = 0; i < n; i++) s.op("track", {(i64)r.below(3), (i64)r.below(NR), (i64)r.below(64)});
  int m = (int)r.range(8, 40);
  for (int i = 0; i < m; i++) {
    i64 st = (i64)r.below(3);
    switch (r.below(12)) {
      case 0: case 1: s.op("track", {st, (i64)r.below(NR), (i64)r.below(64)}); break;
      case 2: s.op("store", {st, (i64)r.below(3)}); break;
      case 3: s.op("crash", {st, r.chance(1, 3) ? (i64)(r.next() >> 1) : 0}); break;
      case 4: case 5: case 6: s.op("name", {st, (i64)r.below(3), (i64)r.below(16), r.chance(1, 3) ? (i64)(r.next() >> 1) : 0}); break;
      case 7: s.op("stranger", {st, r.chance(1, 3) ? -1 : (i64)r.below(CODE_COUNT + 1), r.chance(1, 2) ? (i64)r.below(256) : (i64)r.below(65536)}); break;
      case 8: s.op("sort", {st, (i64)(r.next() >> 1)}); break;
      case 9: s.op("letters", {(i64)r.below(256), (i64)(r.next() >> 1)}); break;
      default: s.op("array", {(i64)r.below(NR)});
    }
  }
}
struct Rec { std::string label, text; u16 index; };
static void run_c44(Ctx &c, const Scenario &s) {
  on_painted_stack(s.seed, [&] {
    shim_quiet_logging(); std::vector<gnss_signal_t> ch[3]; std::vector<Rec> disk[3]; std::vector<std::pair<int, int>> ref[3], dref[3];
    auto print = [&](gnss_signal_t g, std::string &out) {   // into a buffer of exactly the size the header names
      char *b = (char *)malloc(SID_STR_LEN_MAX); memset(b, 'x', SID_STR_LEN_MAX); about_to("printing code %d satellite %d", (int)g.code, g.sat); int k = sid_to_string(b, SID_STR_LEN_MAX, g); bool ok = k >= 0 && k < SID_STR_LEN_MAX && b[k] == 0 && (int)strlen(b) == k; if (ok) out = b; free(b);
      if (!ok) c.fail("name", "the length returned for the name of code %d satellite %d is not its length", (int)g.code, g.sat); return ok;
    };
    auto same = [&](gnss_signal_t a, gnss_signal_t b) {
      bool want = a.code == b.code && a.sat == b.sat; about_to("comparing code %d satellite %d with code %d satellite %d", (int)a.code, a.sat, (int)b.code, b.sat); int x = sid_compare(a, b), y = cmp_sid_sid(&b, &a);
      if (sid_is_equal(a, b) != want || (a == b) != want || (a != b) == want || (x == 0) != want || (x < 0) != (y > 0) || (a < b) != (b > a) || (a <= b) == (a > b) || (a >= b) == (a < b)) { c.fail("identity", "code %d satellite %d and code %d satellite %d: equality and order disagree", (int)a.code, a.sat, (int)b.code, b.sat); return false; }
      return true;
    };
    auto parse = [&](const std::string &t, gnss_signal_t &g) {   // how a peer reads a name: the label, a space, the satellite
      size_t sp = t.rfind(' '); if (sp == std::string::npos || sp + 1 >= t.size() || t.size() - sp > 6) return false; int sat = 0; for (size_t i = sp + 1; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return false; sat = sat * 10 + t[i] - '0'; } if (sat > 65535) return false;
      about_to("looking up \"%s\"", t.substr(0, sp).c_str()); code_t k = code_string_to_enum(t.substr(0, sp).c_str()); const Row *r = row_named(t.substr(0, sp)); if ((int)k != (r ? (int)r->code : -1)) { c.fail("label", "label \"%s\" is read as code %d, expected %d", t.substr(0, sp).c_str(), (int)k, r ? (int)r->code : -1); return false; }
      g = construct_sid(k, (u16)sat); if (sid_valid(g) != known((int)k, sat)) { c.fail("validity", "code %d satellite %d is taken as %s", (int)k, sat, known((int)k, sat) ? "unknown" : "known"); return false; } return sid_valid(g);
    };
    for (auto &o : s.ops) {
      if (c.failed()) return;
      budget_reset(); c.time(1); size_t st = (size_t)((U64)o.arg(0) % 3);
      if (o.name == "track") {
        const Row &r = ROWS[(U64)o.arg(1) % NR]; u16 idx = (u16)((U64)o.arg(2) % (U64)r.count); about_to("signal %d of code %d", idx, (int)r.code); gnss_signal_t g = sid_from_code_index(r.code, idx);
        if (g.code != r.code || g.sat != r.first + idx || !sid_valid(g) || sid_to_code_index(g) != idx) { c.fail("index", "signal %d of code %d is satellite %d, expected %d", idx, (int)r.code, g.sat, r.first + idx); return; }
        constellation_t k = SYS[r.sys]; if (sid_to_constellation(g) != k || code_to_constellation(r.code) != k || IS_GPS(g) != (r.sys == 0) || IS_SBAS(g) != (r.sys == 1) || IS_GLO(g) != (r.sys == 2) || IS_BDS2(g) != (r.sys == 3) || IS_QZSS(g) != (r.sys == 4) || IS_GAL(g) != (r.sys == 5)) { c.fail("constellation", "code %d does not belong to its constellation alone", (int)r.code); return; }
        if (is_gps(r.code) != (r.sys == 0) || is_sbas(r.code) != (r.sys == 1) || is_glo(r.code) != (r.sys == 2) || is_bds2(r.code) != (r.sys == 3) || is_qzss(r.code) != (r.sys == 4) || is_gal(r.code) != (r.sys == 5)) { c.fail("constellation", "code %d is said to be of another constellation", (int)r.code); return; }
        if (r.f && !(fabsl(sid_to_lambda(g) * (r.f * 1.023e6L) / 299792458.0L - 1) < 1e-12L)) { c.fail("frequency", "code %d has a wavelength of %.9g m", (int)r.code, sid_to_lambda(g)); return; }
        if (r.f && !(fabsl(sid_to_carr_freq(g) - r.f * 1.023e6L) < 1e-3L)) { c.fail("frequency", "code %d is at %.9g Hz", (int)r.code, sid_to_carr_freq(g)); return; }
        if (sid_to_l1_code(g) != constellation_to_l1_code(k) || sid_to_l5_code(g) != constellation_to_l5_code(k)) { c.fail("band", "the L1 or L5 code of code %d is not its constellation's", (int)r.code); return; }
        for (auto &q : ch[st]) if (!same(q, g)) return;
        if (ch[st].size() < 12) { ch[st].push_back(g); ref[st].push_back({(int)r.code, r.first + idx}); } c.nontrivial = true; c.state(mix((U64)r.code, idx));
      } else if (o.name == "store") {
        disk[st].clear(); dref[st] = ref[st]; for (auto &g : ch[st]) { Rec q; q.index = sid_to_code_index(g); about_to("label of code %d", (int)g.code); q.label = code_to_string(g.code); if (!print(g, q.text)) return; disk[st].push_back(q); }
        if (o.arg(1) == 0 && !disk[st].empty()) { c.fault("store_torn"); disk[st].pop_back(); dref[st].pop_back(); }
        if (o.arg(1) == 1 && !disk[st].empty()) c.probe("stored");
      } else if (o.name == "crash") {
        c.fault("crash_and_restart"); ch[st].clear(); ref[st].clear();
        for (size_t i = 0; i < disk[st].size(); i++) {
          Rec q = disk[st][i]; bool hurt = o.arg(1) != 0 && i == (U64)o.arg(1) % disk[st].size(); if (hurt) { c.fault("record_altered"); U64 w = (U64)o.arg(1) / 16; size_t at = w % (q.label.size() + 1); if (at == q.label.size()) q.label += (char)('A' + w / 64 % 26); else q.label[at] = (char)(' ' + w / 64 % 90); }
          about_to("looking up \"%s\"", q.label.c_str()); code_t k = code_string_to_enum(q.label.c_str()); const Row *r = row_named(q.label); if ((int)k != (r ? (int)r->code : -1)) { c.fail("label", "label \"%s\" is read as code %d, expected %d", q.label.c_str(), (int)k, r ? (int)r->code : -1); return; }
          if (!r || q.index >= r->count) continue;
          gnss_signal_t g = sid_from_code_index(k, q.index), h; if (!hurt && ((int)g.code != dref[st][i].first || g.sat != dref[st][i].second)) { c.fail("restart", "after a restart channel %d tracks code %d satellite %d, it was code %d satellite %d", (int)i, (int)g.code, g.sat, dref[st][i].first, dref[st][i].second); return; }
          if (!hurt) { if (!parse(q.text, h)) { if (!c.failed()) c.fail("name", "a stored name \"%s\" is not understood", q.text.c_str()); return; } if (h.code != g.code || h.sat != g.sat) { c.fail("name", "\"%s\" means code %d satellite %d", q.text.c_str(), (int)h.code, h.sat); return; } }
          ch[st].push_back(g); ref[st].push_back({(int)g.code, g.sat});
        }
        c.nontrivial = true;
      } else if (o.name == "name") {   // one station tells another which signal it means
        size_t to = (size_t)((U64)o.arg(1) % 3); if (ch[st].empty()) continue; size_t i = (U64)o.arg(2) % ch[st].size(); std::string t; if (!print(ch[st][i], t)) return; const Row *r = row_of(ref[st][i].first); std::string want = std::string(r->label) + " " + std::to_string(ref[st][i].second);
        if (t != want) { c.fail("name", "code %d satellite %d is called \"%s\", peers call it \"%s\"", ref[st][i].first, ref[st][i].second, t.c_str(), want.c_str()); return; }
        if (o.arg(3)) { c.fault("name_altered"); U64 w = (U64)o.arg(3); t[w % t.size()] = (char)(' ' + w / 64 % 90); }
        gnss_signal_t g; bool ok = parse(t, g); if (c.failed()) return; if (!o.arg(3) && (!ok || (int)g.code != ref[st][i].first || g.sat != ref[st][i].second)) { c.fail("name", "\"%s\" is not understood as code %d satellite %d", t.c_str(), ref[st][i].first, ref[st][i].second); return; }
        if (ok && ch[to].size() < 12) { ch[to].push_back(g); ref[to].push_back({(int)g.code, g.sat}); } c.nontrivial = true;
      } else if (o.name == "stranger") {   // identifiers nobody handed out
        c.fault("unknown_signal"); int code = (int)o.arg(1), sat = (int)((U64)o.arg(2) % 65536); if (code < -1 || code > (int)CODE_COUNT) code = -1; gnss_signal_t g = construct_sid((code_t)code, (u16)sat); const Row *r = row_of(code);
        about_to("judging code %d satellite %d", code, sat); if ((int)g.code != code || g.sat != sat || sid_valid(g) != known(code, sat) || code_valid((code_t)code) != (r != nullptr)) { c.fail("validity", "code %d satellite %d is taken as %s", code, sat, known(code, sat) ? "unknown" : "known"); return; }
        if (sid_to_constellation(g) != (r ? SYS[r->sys] : CONSTELLATION_INVALID)) { c.fail("constellation", "code %d belongs to constellation %d", code, (int)sid_to_constellation(g)); return; }
        { code_t k = (code_t)code; bool is[6] = {is_gps(k), is_sbas(k), is_glo(k), is_bds2(k), is_qzss(k), is_gal(k)}; for (int i = 0; i < 6; i++) if (is[i] != (r && r->sys == i)) { c.fail("constellation", "code %d is %ssaid to be a signal of %s", code, is[i] ? "" : "not ", SYSNAME[i]); return; } }
        if (glo_slot_id_is_valid((u16)sat) != (sat >= 1 && sat <= 28) || glo_fcn_is_valid((u16)sat) != (sat >= 1 && sat <= 14)) { c.fail("validity", "GLONASS slot or channel %d is taken as the opposite of what it is", sat); return; }
        if (!r && (IS_GPS(g) || IS_SBAS(g) || IS_GLO(g) || IS_BDS2(g) || IS_QZSS(g) || IS_GAL(g))) { c.fail("constellation", "code %d, which is none, belongs to a constellation", code); return; }
        std::string t; if (!print(g, t)) return; std::string want = std::string(r ? r->label : "?") + " " + std::to_string(sat); if (t != want) { c.fail("name", "code %d satellite %d is called \"%s\", expected \"%s\"", code, sat, t.c_str(), want.c_str()); return; }
        if (!same(g, g) || !same(g, SID_UNKNOWN)) return; for (auto &q : ch[st]) if (!same(q, g) || !same(g, q)) return;
        if (r && known(code, sat) && r->sys == 1) { sbas_system_t y = get_sbas_system(g), w = sat == 131 || sat == 133 || sat == 138 ? SBAS_WAAS : sat == 123 || sat == 126 || sat == 136 ? SBAS_EGNOS : sat == 127 || sat == 128 ? SBAS_GAGAN : sat == 129 || sat == 137 ? SBAS_MSAS : SBAS_NONE; if (y != w) { c.fail("sbas", "SBAS satellite %d belongs to system %d", sat, (int)y); return; } }
        c.nontrivial = true; c.state(mix(777, (U64)(code + 1)));
      } else if (o.name == "sort") {
        std::vector<gnss_signal_t> v = ch[st]; Rng z((U64)o.arg(1)); if (z.chance(1, 3)) v.push_back(SID_UNKNOWN); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[z.below(i)]); std::vector<std::pair<int, std::pair<int, int>>> want;
        for (auto &g : v) { const Row *r = row_of((int)g.code); want.push_back({r ? (int)SYS[r->sys] : -1, {(int)g.code, g.sat}}); } std::sort(want.begin(), want.end()); about_to("sorting signals"); if (!v.empty()) qsort(v.data(), v.size(), sizeof v[0], cmp_sid_sid);
        for (size_t i = 0; i < v.size(); i++) if ((int)v[i].code != want[i].second.first || v[i].sat != want[i].second.second) { c.fail("sort", "sorted signals are out of order or not those that were given"); return; }
      } else if (o.name == "letters") {
        char l = (char)(i64)o.arg(0); const char *L = "GSRCJE"; constellation_t k = char_to_constellation(l), w = CONSTELLATION_INVALID; for (int i = 0; i < 6; i++) if (L[i] == l) w = SYS[i]; if (k != w) { c.fail("letter", "letter %d is read as constellation %d", (int)l, (int)k); return; }
        for (int i = 0; i < 6; i++) {
          if (constellation_to_char(SYS[i]) != L[i] || !constellation_valid(SYS[i]) || std::string(constellation_to_string(SYS[i])) != SYSNAME[i] || constellation_string_to_enum(SYSNAME[i]) != SYS[i]) { c.fail("letter", "constellation %s has another letter or name", SYSNAME[i]); return; }
          std::string t = SYSNAME[i]; U64 q = (U64)o.arg(1); t[q % t.size()] = (char)(' ' + q / 8 % 90); constellation_t x = CONSTELLATION_INVALID; for (int j = 0; j < 6; j++) if (t == SYSNAME[j]) x = SYS[j]; if (constellation_string_to_enum(t.c_str()) != x) { c.fail("letter", "\"%s\" is read as a constellation", t.c_str()); return; } }
        static const char *SUB[7] = {"GPS", "SBAS", "GLO", "BDS2", "BDS3", "QZS", "GAL"}; static const constellation_t OF[7] = {CONSTELLATION_GPS, CONSTELLATION_SBAS, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_GAL};
        for (int i = 0; i < 7; i++) if (std::string(sub_constellation_to_string((sub_constellation_t)i)) != SUB[i] || (int)sub_constellation_string_to_enum(SUB[i]) != i || sub_constellation_to_constellation((sub_constellation_t)i) != OF[i]) { c.fail("letter", "sub-constellation %s has another name or constellation", SUB[i]); return; }
        for (int i = 0; i < 7; i++) { std::string t = SUB[i]; U64 q = (U64)o.arg(1); if (q % 3 == 0) t.erase(t.size() - 1); else if (q % 3 == 1) t += (char)('0' + q % 10); else t[q % t.size()] = (char)(' ' + q / 8 % 90);
          int x = (int)SUB_CONSTELLATION_INVALID; for (int j = 0; j < 7; j++) if (t == SUB[j]) x = j; if ((int)sub_constellation_string_to_enum(t.c_str()) != x) { c.fail("letter", "\"%s\" is read as sub-constellation %d", t.c_str(), (int)sub_constellation_string_to_enum(t.c_str())); return; } }
        if (constellation_valid(CONSTELLATION_INVALID) || constellation_valid(CONSTELLATION_COUNT)) { c.fail("letter", "no constellation is called valid"); return; }
      } else if (o.name == "array") {   // a table with one entry per signal of a code
        const Row &r = ROWS[(U64)o.arg(0) % NR]; about_to("counting code %d", (int)r.code); if (code_to_sig_count(r.code) != (r.sys == 2 ? 14 : r.count) || constellation_to_sat_count(SYS[r.sys]) != r.count) { c.fail("count", "code %d has %d signals, its constellation %d satellites", (int)r.code, code_to_sig_count(r.code), constellation_to_sat_count(SYS[r.sys])); return; }
        std::vector<int> used((size_t)r.count, 0); for (int sat = 0; sat < 260; sat++) { gnss_signal_t g = construct_sid(r.code, (u16)sat); if (sid_valid(g) != known((int)r.code, sat)) { c.fail("validity", "code %d satellite %d is taken as %s", (int)r.code, sat, known((int)r.code, sat) ? "unknown" : "known"); return; } if (sid_valid(g)) { u16 k = sid_to_code_index(g); if (k >= r.count || used[k]++) { c.fail("index", "two satellites of code %d share an entry, or one has none", (int)r.code); return; } } }
        if (!(code_to_sv_doppler_max(r.code) > 0) || !(code_to_sv_doppler_min(r.code) == -code_to_sv_doppler_max(r.code))) { c.fail("doppler", "the Doppler limits of code %d are not symmetric", (int)r.code); return; }
        if (code_to_chip_count(r.code)) {   // the spreading code's chips take its period; the period is a fact of the interface documents
          double ms = 1e3 * code_to_chip_count(r.code) / code_to_chip_rate(r.code); std::string l = r.label; double want = l.find("L2CM") != std::string::npos ? 20 : l.find("L2CL") != std::string::npos ? 1500 : l == "GAL E1B" || l == "GAL AUX" ? 4 : l.find("1CI") != std::string::npos ? 10 : 1;
          if (!(fabs(ms - want) < 1e-9) || code_to_prn_period_ms(r.code) != (u16)want) { c.fail("chips", "%s: %u chips at %.0f/s, period %u ms, expected %g", r.label, code_to_chip_count(r.code), code_to_chip_rate(r.code), code_to_prn_period_ms(r.code), want); return; }
        }
        else if (code_to_chip_rate(r.code) != 0 || code_to_prn_period_ms(r.code) != 0) { c.fail("chips", "%s has no spreading code of its own but a rate or period", r.label); return; }
        { std::string l = r.label; char e = l[l.size() - 1]; bool pilot = e == 'Q' || l == "GAL E1C" || l == "GAL E6C" || l.find("L2CL") != std::string::npos;   // pilot components carry no data
          if (pilot && code_requires_decoder(r.code)) { c.fail("pilot", "%s is a pilot component but needs a data decoder", r.label); return; }
          int direct = 0; for (int i = 0; i < NR; i++) if (ROWS[i].sys == r.sys && code_requires_direct_acq(ROWS[i].code)) direct++;   // a receiver finds each system by one signal and the others from it
          if (direct != 1 || (code_requires_direct_acq(r.code) && !code_requires_decoder(r.code))) { c.fail("acquire", "%s: %d signals of %s are acquired directly", r.label, direct, SYSNAME[r.sys]); return; } }
        code_t k1 = constellation_to_l1_code(SYS[r.sys]), k5 = constellation_to_l5_code(SYS[r.sys]); const Row *r1 = row_of((int)k1), *r5 = row_of((int)k5); if (!r1 || r1->sys != r.sys || (r1->f && r1->f != 1540 && r1->f != 1526) || (r5 ? r5->sys != r.sys || r5->f != 1150 : r.sys != 1 && r.sys != 2)) { c.fail("band", "constellation %s has the L1 code %d and the L5 code %d", SYSNAME[r.sys], (int)k1, (int)k5); return; }
        c.nontrivial = true;
      }
      c.ev("%s %zu channels", o.name.c_str(), ch[st].size());
    }
  });
}
Prop g_props[] = {
  {"C44", gen_c44, run_c44, 60000, 3000000, "names, labels, indices and letters against the peers' table; records read back against the channels they were written from; order and equality against the identifiers", "signal.c, signal.h: all library code", "none (stations, links and storage are simulated)", "code x satellite index"},
};
const int g_nprops = sizeof g_props / sizeof g_props[0];
