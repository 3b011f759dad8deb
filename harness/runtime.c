/* A controlled scheduler under code compiled for the thread sanitizer.
 *
 * The checker of C30 is compiled with -Zsanitizer=thread but without the
 * sanitizer's runtime; this file provides the functions that instrumented code
 * calls at memory accesses. Inside a library call of a controlled thread,
 * every atomic operation and every access to static data is a scheduling
 * point: the thread parks and the explorer decides who runs next. So is every
 * write to memory that belongs to somebody else (allocated by another thread,
 * e.g. by the one that built the shared model; not on the own stack), and from then
 * on every read of what was written there. Waiting on a
 * futex (std's Mutex, RwLock, Once, ...) is made visible by taking over
 * syscall(). One thread runs at a time, so executions are sequentially
 * consistent. Everything else passes straight through.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>

enum { MAXT = 8 };
enum { RUNNABLE, BLOCKED, DONE };

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int running = -1;          /* who has the baton; -1: the explorer */
static int exclusive;             /* nobody else may run: do not park at points */
static struct { int state, boundary; volatile uint32_t *addr; uint32_t val; } th[MAXT];
static uint64_t n_points;
static __thread int tid = -1;     /* controlled thread, or -1 */
static __thread int inside;       /* in a library call */

extern char __data_start[], _end[];

/* Each controlled thread allocates from an arena of its own. */
enum { ARENA = 1 << 30, WORDS = 1 << 14 };
static char *arena[MAXT], *arena_at[MAXT];
static __thread char *stack_lo, *stack_hi;
static uintptr_t written[WORDS]; /* words of others' memory that were written; open addressing */
static int n_written;

static int in_arena(const void *p) {
    for (int i = 0; i < MAXT; i++)
        if (arena[i] && (const char *)p >= arena[i] && (const char *)p < arena[i] + ARENA)
            return i;
    return -1;
}

void *mc_alloc(uintptr_t n, uintptr_t align) {
    if (tid >= 0 && arena[tid]) {
        uintptr_t a = ((uintptr_t)arena_at[tid] + align - 1) & ~(align - 1);
        if (a + n <= (uintptr_t)arena[tid] + ARENA) {
            arena_at[tid] = (char *)(a + n);
            return (void *)a;
        }
    }
    return align <= 16 ? malloc(n) : aligned_alloc(align, (n + align - 1) & ~(align - 1));
}
void mc_free(void *p) {
    if (in_arena(p) < 0)
        free(p);
}

static uintptr_t *slot(uintptr_t word) {
    uintptr_t h = word * 0x9e3779b97f4a7c15u >> 40;
    uintptr_t *s = &written[h % WORDS];
    while (*s && *s != word)
        s = s == written + WORDS - 1 ? written : s + 1;
    return s;
}

void mc_reset(int threads) {
    memset(written, 0, sizeof written);
    n_written = 0;
    for (int i = 0; i < threads; i++) {
        if (!arena[i]) {
            void *a = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            arena[i] = a == MAP_FAILED ? 0 : a;
        }
        arena_at[i] = arena[i];
    }
    running = -1;
    n_points = 0;
    for (int i = 0; i < MAXT; i++) {
        th[i].state = i < threads ? RUNNABLE : DONE;
        th[i].addr = 0;
    }
}

static void wait_turn(int me) {
    while (running != me)
        pthread_cond_wait(&cv, &mu);
}

static void give_up(int state) {
    int me = tid;
    pthread_mutex_lock(&mu);
    th[me].state = state;
    running = -1;
    pthread_cond_broadcast(&cv);
    if (state != DONE)
        wait_turn(me);
    pthread_mutex_unlock(&mu);
}

/* called by the controlled threads */
void mc_thread_start(int me) {
    pthread_attr_t attr;
    if (pthread_getattr_np(pthread_self(), &attr) == 0) {
        void *lo;
        size_t n;
        pthread_attr_getstack(&attr, &lo, &n);
        stack_lo = lo;
        stack_hi = stack_lo + n;
        pthread_attr_destroy(&attr);
    }
    tid = me;
    pthread_mutex_lock(&mu);
    wait_turn(me);
    pthread_mutex_unlock(&mu);
}
void mc_thread_done(void) { give_up(DONE); tid = -1; }
void mc_between(void) { th[tid].boundary = 1; give_up(RUNNABLE); th[tid].boundary = 0; }
void mc_inside(int yes) { inside = yes; }

/* called by the explorer: let t run until it parks; 0 if it did, else it is stuck */
int mc_run(int t, int excl) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 20;
    pthread_mutex_lock(&mu);
    exclusive = excl;
    running = t;
    th[t].state = RUNNABLE;
    pthread_cond_broadcast(&cv);
    int rc = 0;
    while (running != -1 && rc == 0)
        rc = pthread_cond_timedwait(&cv, &mu, &ts);
    int stuck = running != -1;
    pthread_mutex_unlock(&mu);
    return stuck;
}
/* 0 enabled, 1 blocked, 2 finished */
int mc_state(int t) {
    if (th[t].state == BLOCKED && *th[t].addr != th[t].val)
        return RUNNABLE;
    return th[t].state;
}
int mc_at_boundary(int t) { return th[t].boundary; }
uint64_t mc_points(void) { return n_points; }

/* a place of the harness's own, e.g. a callback from the library */
void mc_point(void) {
    if (tid < 0)
        return;
    n_points++;
    if (!exclusive) {
        int was = inside;
        inside = 0;
        give_up(RUNNABLE);
        inside = was;
    }
}

static void point(void) {
    if (tid >= 0 && inside)
        mc_point();
}
/* w: is it a write */
static void access_at(const volatile void *p, uintptr_t n, int w) {
    const char *c = (const char *)p;
    if (tid < 0 || !inside)
        return;
    if (c + n > __data_start && c < _end) {
        mc_point();
        return;
    }
    if ((!w && !n_written) || (c >= stack_lo && c < stack_hi) || !arena[tid] || (c >= arena[tid] && c < arena[tid] + ARENA))
        return;
    uintptr_t from = (uintptr_t)c >> 3, to = ((uintptr_t)c + n + 7) >> 3;
    int known = w;
    for (uintptr_t a = from; a < to && !known; a++)
        known = *slot(a) != 0;
    if (known)
        mc_point();
    for (uintptr_t a = from; w && a < to && n_written < WORDS / 2; a++) {
        uintptr_t *s = slot(a);
        n_written += *s == 0;
        *s = a;
    }
}

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && tid >= 0 && inside) {
        int op = b & 0x7f; /* without PRIVATE and CLOCK_REALTIME */
        if (op == 0 || op == 9) { /* WAIT, WAIT_BITSET */
            th[tid].addr = (volatile uint32_t *)a;
            th[tid].val = (uint32_t)c;
            inside = 0;
            n_points++;
            give_up(*(volatile uint32_t *)a == (uint32_t)c ? BLOCKED : RUNNABLE);
            inside = 1;
            return 0;
        }
    }
    return raw(n, a, b, c, d, e, f);
}

/* ---- what instrumented code calls ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { access_at(p, n, 0); } \
    void __tsan_write##n(void *p) { access_at(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { access_at(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { access_at(p, n, 1); } \
    void __tsan_read_write##n(void *p) { access_at(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { access_at(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { access_at(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { access_at(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access_at(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access_at(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, uintptr_t n) { access_at(p, n, 0); }
void __tsan_write_range(void *p, uintptr_t n) { access_at(p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, uintptr_t n) { access_at(d, n, 1); access_at(s, n, 0); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, uintptr_t n) { access_at(d, n, 1); access_at(s, n, 0); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, uintptr_t n) { access_at(d, n, 1); return memset(d, c, n); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int o) { (void)o; point(); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int o) { (void)o; point(); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int o) { (void)o; point(); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int o) { (void)o; point(); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int o) { (void)o; point(); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int o) { (void)o; point(); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int o) { (void)o; point(); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int o) { (void)o; point(); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int o) { (void)o; point(); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int fo) { \
        (void)o; (void)fo; point(); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int fo) { \
        (void)o; (void)fo; point(); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int o, int fo) { \
        (void)o; (void)fo; point(); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) { (void)o; }
