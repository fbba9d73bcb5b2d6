#include "shims.h"
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/common.h>
#include <swiftnav/logging.h>
#include <swiftnav/signal.h>
#include <swiftnav/swift_strnlen.h>

#define FMT "<<%u|%s>>"
int shim_log(int level, int detailed, unsigned id, const char *text) {
  int line = 0;
  switch (level + (detailed ? 8 : 0)) {
    case 0: log_emerg(FMT, id, text); break;
    case 1: log_alert(FMT, id, text); break;
    case 2: log_crit(FMT, id, text); break;
    case 3: log_error(FMT, id, text); break;
    case 4: log_warn(FMT, id, text); break;
    case 5: log_notice(FMT, id, text); break;
    case 6: log_info(FMT, id, text); break;
    case 7: log_debug(FMT, id, text); break;
    case 8: line = __LINE__; detailed_log_emerg(FMT, id, text); break;
    case 9: line = __LINE__; detailed_log_alert(FMT, id, text); break;
    case 10: line = __LINE__; detailed_log_crit(FMT, id, text); break;
    case 11: line = __LINE__; detailed_log_error(FMT, id, text); break;
    case 12: line = __LINE__; detailed_log_warn(FMT, id, text); break;
    case 13: line = __LINE__; detailed_log_notice(FMT, id, text); break;
    case 14: line = __LINE__; detailed_log_info(FMT, id, text); break;
    case 15: line = __LINE__; detailed_log_debug(FMT, id, text); break;
    default: break;
  }
  return line;
}
int shim_log_sid(int level, int detailed, int plain, uint16_t sat, int code, unsigned id, const char *text) {
  int line = 0;
  gnss_signal_t g = {.sat = sat, .code = (code_t)code};
  switch (level + (detailed ? 8 : 0) + (plain ? 16 : 0)) {
    case 3: log_error_sid(g, FMT, id, text); break;
    case 4: log_warn_sid(g, FMT, id, text); break;
    case 6: log_info_sid(g, FMT, id, text); break;
    case 7: log_debug_sid(g, FMT, id, text); break;
    case 11: line = __LINE__; detailed_log_error_sid(g, FMT, id, text); break;
    case 12: line = __LINE__; detailed_log_warn_sid(g, FMT, id, text); break;
    case 14: line = __LINE__; detailed_log_info_sid(g, FMT, id, text); break;
    case 15: line = __LINE__; detailed_log_debug_sid(g, FMT, id, text); break;
    case 19: log_error_sid(g, "<<plain>>"); break;
    case 20: log_warn_sid(g, "<<plain>>"); break;
    case 22: log_info_sid(g, "<<plain>>"); break;
    case 23: log_debug_sid(g, "<<plain>>"); break;
    case 27: line = __LINE__; detailed_log_error_sid(g, "<<plain>>"); break;
    case 28: line = __LINE__; detailed_log_warn_sid(g, "<<plain>>"); break;
    case 30: line = __LINE__; detailed_log_info_sid(g, "<<plain>>"); break;
    case 31: line = __LINE__; detailed_log_debug_sid(g, "<<plain>>"); break;
    default: break;
  }
  return line;
}
static int emitted;
int shim_every(int which, uint32_t n) {
  emitted = 0;
  switch (which) {
    case 0: DO_EVERY(n, emitted++); break;
    case 1: DO_EVERY(n + 0u, { emitted++; }); break;
    default: DO_EVERY(n, emitted++); break;
  }
  return emitted;
}
int shim_rate(int which, uint32_t tow) {
  emitted = 0;
  switch (which) {
    case 0: LOG_RATE_LIMIT(tow, emitted++); break;
    case 1: LOG_RATE_LIMIT(tow, emitted++); break;
    case 2: LOG_RATE_LIMIT(tow + 0u, { emitted++; }); break;
    default: LOG_RATE_LIMIT(tow, emitted++); break;
  }
  return emitted;
}
void shim_ibs_init(void *s, const uint8_t *d, uint32_t n) { swiftnav_in_bitstream_init(s, d, n); }
bool shim_ibs_getu(void *s, uint32_t *o, uint32_t p, uint32_t n) { return swiftnav_in_bitstream_getbitu(s, o, p, n); }
bool shim_ibs_gets(void *s, int32_t *o, uint32_t p, uint32_t n) { return swiftnav_in_bitstream_getbits(s, o, p, n); }
bool shim_ibs_getul(void *s, uint64_t *o, uint32_t p, uint32_t n) { return swiftnav_in_bitstream_getbitul(s, o, p, n); }
bool shim_ibs_getsl(void *s, int64_t *o, uint32_t p, uint32_t n) { return swiftnav_in_bitstream_getbitsl(s, o, p, n); }
bool shim_ibs_over(void *s, uint32_t p, uint32_t n) { return swiftnav_in_bitstream_would_overflow(s, p, n); }
void shim_ibs_remove(void *s, uint32_t n) { swiftnav_in_bitstream_remove(s, n); }
uint32_t shim_ibs_remaining(void *s) { return swiftnav_in_bitstream_remaining(s); }
void shim_obs_init(void *s, uint8_t *d, uint32_t n) { swiftnav_out_bitstream_init(s, d, n); }
bool shim_obs_setu(void *s, const uint32_t *v, uint32_t p, uint32_t n) { return swiftnav_out_bitstream_setbitu(s, v, p, n); }
bool shim_obs_sets(void *s, const int32_t *v, uint32_t p, uint32_t n) { return swiftnav_out_bitstream_setbits(s, v, p, n); }
bool shim_obs_setul(void *s, const uint64_t *v, uint32_t p, uint32_t n) { return swiftnav_out_bitstream_setbitul(s, (const u64 *)v, p, n); }
bool shim_obs_setsl(void *s, const int64_t *v, uint32_t p, uint32_t n) { return swiftnav_out_bitstream_setbitsl(s, (const s64 *)v, p, n); }
void shim_obs_remove(void *s, uint32_t n) { swiftnav_out_bitstream_remove(s, n); }
uint32_t shim_obs_remaining(void *s) { return swiftnav_out_bitstream_remaining(s); }
void shim_bys_init(void *s, const uint8_t *d, uint32_t n, int big) {
  swiftnav_bytestream_t *b = s;
  swiftnav_bytestream_init(b, d, n);
  b->endianess = big ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
}
bool shim_bys_get(void *s, uint32_t i, uint32_t n, uint8_t *d) { return swiftnav_bytestream_get_bytes(s, i, n, d); }
bool shim_bys_over(void *s, uint32_t i, uint32_t n) { return swiftnav_bytestream_would_overflow(s, i, n); }
void shim_bys_remove(void *s, uint32_t n) { swiftnav_bytestream_remove(s, n); }
uint32_t shim_bys_remaining(void *s) { return swiftnav_bytestream_remaining(s); }
bool shim_bys_decode(void *s, int type, void *d) {
  switch (type) {
    case 0: return swiftnav_bytestream_decode_u8(s, d);
    case 1: return swiftnav_bytestream_decode_s8(s, d);
    case 2: return swiftnav_bytestream_decode_u16(s, d);
    case 3: return swiftnav_bytestream_decode_s16(s, d);
    case 4: return swiftnav_bytestream_decode_u32(s, d);
    case 5: return swiftnav_bytestream_decode_s32(s, d);
    case 6: return swiftnav_bytestream_decode_u64(s, d);
    default: return swiftnav_bytestream_decode_s64(s, d);
  }
}
size_t shim_strnlen(const char *s, size_t max) { return swift_strnlen(s, max); }
static void q1(int l, const char *m, ...) { (void)l; (void)m; }
static void q2(int l, const char *f, const int n, const char *m, ...) { (void)l; (void)f; (void)n; (void)m; }
void shim_quiet_logging(void) { logging_set_implementation(q1, q2); }
