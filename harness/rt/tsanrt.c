/* Runtime for code instrumented with -Zsanitizer=thread: instead of looking for races, it hands every
 * atomic operation, and every access to writable static memory, to the explorer's scheduler. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>

typedef void (*hook_t)(const void *addr, uint32_t len, uint32_t write);
static __thread hook_t hook;
extern char __data_start[], _end[];

void mc_set_hook(hook_t h) { hook = h; }
hook_t mc_get_hook(void) { return hook; }

static inline void call(const volatile void *a, uint32_t n, uint32_t w) {
    hook_t h = hook;
    if (h) {
        hook = 0;
        h((const void *)a, n, w);
        hook = h;
    }
}
static inline void plain(const volatile void *a, size_t n, uint32_t w) {
    if (hook && (char *)a < _end && (char *)a + n > __data_start) call(a, (uint32_t)n, w);
}

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n)                                                        \
    void __tsan_read##n(void *a) { plain(a, n, 0); }                 \
    void __tsan_write##n(void *a) { plain(a, n, 1); }                \
    void __tsan_unaligned_read##n(void *a) { plain(a, n, 0); }       \
    void __tsan_unaligned_write##n(void *a) { plain(a, n, 1); }      \
    void __tsan_volatile_read##n(void *a) { plain(a, n, 0); }        \
    void __tsan_volatile_write##n(void *a) { plain(a, n, 1); }       \
    void __tsan_unaligned_volatile_read##n(void *a) { plain(a, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *a) { plain(a, n, 1); } \
    void __tsan_read_write##n(void *a) { plain(a, n, 1); }           \
    void __tsan_unaligned_read_write##n(void *a) { plain(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { plain(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { plain(a, n, 1); }
void __tsan_vptr_read(void **p) { plain(p, 8, 0); }
void __tsan_vptr_update(void **p, void *v) { (void)v; plain(p, 8, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { plain(s, n, 0); plain(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { plain(s, n, 0); plain(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { plain(d, n, 1); return memset(d, c, n); }

#define AT(b, T)                                                                                                                  \
    T __tsan_atomic##b##_load(const volatile T *a, int mo) { (void)mo; call(a, sizeof(T), 0); return __atomic_load_n(a, 5); }        \
    void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); __atomic_store_n(a, v, 5); }        \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); return __atomic_fetch_or(a, v, 5); }   \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; call(a, sizeof(T), 1); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; call(a, sizeof(T), 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; call(a, sizeof(T), 1); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; call(a, sizeof(T), 1); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
