// Replacement for the compiler's race-detector runtime: the instrumentation
// gcc -fsanitize=thread puts in front of every memory access of the code under
// test becomes a scheduling point of the simulator.
#include "sim.h"
extern "C" {
void sim_access();
#define RW(n)                                                    \
  void __tsan_read##n(void *) { sim_access(); }                  \
  void __tsan_write##n(void *) { sim_access(); }                 \
  void __tsan_volatile_read##n(void *) { sim_access(); }         \
  void __tsan_volatile_write##n(void *) { sim_access(); }        \
  void __tsan_unaligned_read##n(void *) { sim_access(); }        \
  void __tsan_unaligned_write##n(void *) { sim_access(); }       \
  void __tsan_unaligned_volatile_read##n(void *) { sim_access(); } \
  void __tsan_unaligned_volatile_write##n(void *) { sim_access(); } \
  void __tsan_read_write##n(void *) { sim_access(); }            \
  void __tsan_unaligned_read_write##n(void *) { sim_access(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) { sim_access(); }
void __tsan_write_range(void *, unsigned long) { sim_access(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
// Atomics, should the code under test adopt them: executed sequentially
// consistently, with a scheduling point before each.
#define AT(n, T)                                                                        \
  T __tsan_atomic##n##_load(const volatile T *a, int) { sim_access(); return *a; }      \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { sim_access(); *a = v; }      \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { sim_access(); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { sim_access(); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { sim_access(); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { sim_access(); T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { sim_access(); T o = *a; *a = (T)(o | v); return o; }  \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { sim_access(); T o = *a; *a = (T)(o ^ v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {  \
    sim_access(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }              \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {    \
    sim_access(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sim_access(); }
void __tsan_atomic_signal_fence(int) {}

// Bulk copies are not atomic: each byte is its own scheduling point.
void *sim_memcpy(void *d, const void *s, size_t n) {
  volatile uint8_t *D = (uint8_t *)d; const volatile uint8_t *S = (const uint8_t *)s;
  for (size_t i = 0; i < n; i++) { sim_access(); D[i] = S[i]; }
  return d;
}
void *sim_memmove(void *d, const void *s, size_t n) {
  volatile uint8_t *D = (uint8_t *)d; const volatile uint8_t *S = (const uint8_t *)s;
  if ((uintptr_t)d <= (uintptr_t)s) for (size_t i = 0; i < n; i++) { sim_access(); D[i] = S[i]; }
  else for (size_t i = n; i-- > 0;) { sim_access(); D[i] = S[i]; }
  return d;
}
void *sim_memset(void *d, int c, size_t n) {
  volatile uint8_t *D = (uint8_t *)d;
  for (size_t i = 0; i < n; i++) { sim_access(); D[i] = (uint8_t)c; }
  return d;
}
}
