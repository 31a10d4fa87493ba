/* Runtime for code compiled with -fsanitize=thread: instead of detecting races it
 * widens them. Every access of the library to memory that is not on the stack may
 * be delayed, so that processes and threads interleave between single accesses. */
#include <sched.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
static volatile int yrt_prob, yrt_max; static volatile unsigned yrt_seed;
static __thread unsigned yrt_x;
/* each access is delayed with probability prob/4096: a yield or a sleep of less than max microseconds */
void yrt_set(int prob, int max, unsigned seed) { yrt_max = max > 0 ? max : 1; yrt_seed = seed | 1; yrt_x = 0; yrt_prob = prob; }
static inline void delay(const volatile void *a) {
    if (__builtin_expect(yrt_prob == 0, 1)) return;
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0); if ((uintptr_t)a - sp < (1u << 20)) return;
    unsigned x = yrt_x; if (!x) x = yrt_seed * 2654435761u + (unsigned)(uintptr_t)&yrt_x;
    x ^= x << 13; x ^= x >> 17; x ^= x << 5; yrt_x = x;
    if ((int)(x & 4095) >= yrt_prob) return;
    if (x & 4096) sched_yield(); else { struct timespec t = {0, (long)(x >> 13) % yrt_max * 1000}; nanosleep(&t, NULL); }
}
#define A(n) void n(void *a) { delay(a); }
A(__tsan_read1) A(__tsan_read2) A(__tsan_read4) A(__tsan_read8) A(__tsan_read16)
A(__tsan_write1) A(__tsan_write2) A(__tsan_write4) A(__tsan_write8) A(__tsan_write16)
A(__tsan_unaligned_read2) A(__tsan_unaligned_read4) A(__tsan_unaligned_read8) A(__tsan_unaligned_read16)
A(__tsan_unaligned_write2) A(__tsan_unaligned_write4) A(__tsan_unaligned_write8) A(__tsan_unaligned_write16)
A(__tsan_volatile_read1) A(__tsan_volatile_read2) A(__tsan_volatile_read4) A(__tsan_volatile_read8) A(__tsan_volatile_read16)
A(__tsan_volatile_write1) A(__tsan_volatile_write2) A(__tsan_volatile_write4) A(__tsan_volatile_write8) A(__tsan_volatile_write16)
void __tsan_read_range(void *a, size_t n) { (void)n; delay(a); }
void __tsan_write_range(void *a, size_t n) { (void)n; delay(a); }
void __tsan_vptr_update(void **a, void *b) { (void)b; delay(a); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int m) { (void)m; delay(a); return __atomic_load_n(a, 5); } \
void __tsan_atomic##B##_store(volatile T *a, T v, int m) { (void)m; delay(a); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { (void)m; delay(a); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { (void)m; delay(a); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { (void)m; delay(a); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { (void)m; delay(a); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { (void)m; delay(a); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int m) { (void)m; delay(a); return __atomic_fetch_xor(a, v, 5); } \
T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int m) { (void)m; delay(a); return __atomic_fetch_nand(a, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; delay(a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; delay(a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { (void)m; (void)f; delay(a); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
