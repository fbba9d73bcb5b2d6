// Out-of-line entry points for macros and inline functions of the library's headers, compiled with the library's own instrumentation.
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// logging: level 0..7, detailed or plain; returns the source line of the statement
int shim_log(int level, int detailed, unsigned id, const char *text);
// statements that name a signal (levels 3, 4, 6, 7), with arguments or only a text; returns the source line of the statement
int shim_log_sid(int level, int detailed, int plain, uint16_t sat, int code, unsigned id, const char *text);
// statements run at every n-th use, 0..2; returns how often the command ran
int shim_every(int which, uint32_t n);
// rate-limited statements 0..3; returns 1 if it emitted
int shim_rate(int which, uint32_t tow);
// streams: opaque storage of at least 64 bytes
void shim_ibs_init(void *s, const uint8_t *data, uint32_t len);
bool shim_ibs_getu(void *s, uint32_t *out, uint32_t pos, uint32_t len);
bool shim_ibs_gets(void *s, int32_t *out, uint32_t pos, uint32_t len);
bool shim_ibs_getul(void *s, uint64_t *out, uint32_t pos, uint32_t len);
bool shim_ibs_getsl(void *s, int64_t *out, uint32_t pos, uint32_t len);
bool shim_ibs_over(void *s, uint32_t pos, uint32_t len);
void shim_ibs_remove(void *s, uint32_t len);
uint32_t shim_ibs_remaining(void *s);
void shim_obs_init(void *s, uint8_t *data, uint32_t len);
bool shim_obs_setu(void *s, const uint32_t *v, uint32_t pos, uint32_t len);
bool shim_obs_sets(void *s, const int32_t *v, uint32_t pos, uint32_t len);
bool shim_obs_setul(void *s, const uint64_t *v, uint32_t pos, uint32_t len);
bool shim_obs_setsl(void *s, const int64_t *v, uint32_t pos, uint32_t len);
void shim_obs_remove(void *s, uint32_t len);
uint32_t shim_obs_remaining(void *s);
void shim_bys_init(void *s, const uint8_t *data, uint32_t len, int big);
bool shim_bys_get(void *s, uint32_t index, uint32_t len, uint8_t *dest);
bool shim_bys_over(void *s, uint32_t index, uint32_t len);
void shim_bys_remove(void *s, uint32_t len);
uint32_t shim_bys_remaining(void *s);
bool shim_bys_decode(void *s, int type, void *dest);   // 0..7: u8 s8 u16 s16 u32 s32 u64 s64
size_t shim_strnlen(const char *s, size_t max);
void shim_quiet_logging(void);
#ifdef __cplusplus
}
#endif
