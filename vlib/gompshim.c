/* Stands between the compiled Fortran code and libgomp (LD_PRELOAD).
 *
 * 1. Tells ThreadSanitizer, if it is loaded, about the ordering that the OpenMP
 *    runtime establishes (fork, join, barriers, critical sections): libgomp
 *    itself is not instrumented.
 * 2. Delays threads by seeded amounts, to vary the interleavings.
 * 3. Logs which parallel regions ran, with how many threads and in which order
 *    the threads finished.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

extern void __tsan_acquire(void *) __attribute__((weak));
extern void __tsan_release(void *) __attribute__((weak));
extern int omp_get_thread_num(void), omp_get_num_threads(void);
static void acq(void *p) { if (__tsan_acquire) __tsan_acquire(p); }
static void rel(void *p) { if (__tsan_release) __tsan_release(p); }

#define MAXT 64
#define MAXREG 1024
#define SET 65536
struct team {
    void (*fn)(void *);
    void *data;
    char start, end, bar[2], work;
    unsigned ticket, n;
    unsigned char order[MAXT];
};
static __thread struct team *cur;
static __thread int parity;
static __thread uint64_t rnd;

static uint64_t regions[MAXREG];        /* offsets of the outlined functions */
static unsigned nregions;
static uint64_t orders[SET];
static unsigned long norders, nforks, nmulti;
static unsigned max_delay;              /* microseconds */
static uint64_t seed = 1;
static int lock;

static void take(void) { while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) ; }
static void give(void) { __atomic_store_n(&lock, 0, __ATOMIC_RELEASE); }

static uint64_t mix(uint64_t x)
{
    x ^= x >> 31; x *= 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL;
    return x ^ (x >> 32);
}

void vshim_config(unsigned delay_us, uint64_t s) { max_delay = delay_us; seed = s; }
unsigned long vshim_forks(void) { return nforks; }
unsigned long vshim_multi(void) { return nmulti; }
unsigned long vshim_orders(void) { return norders; }
unsigned vshim_regions(uint64_t *out) { memcpy(out, regions, nregions * 8); return nregions; }

static void delay(void)
{
    if (!max_delay) return;
    rnd = mix(rnd + seed + 0x1234567 * (omp_get_thread_num() + 1));
    /* thousands of regions run in one call: delay threads in a few of them */
    if ((rnd >> 40) % 64 != 0) return;
    struct timespec t = {0, (long)(rnd % (max_delay * 1000UL))};
    nanosleep(&t, NULL);
}

static void run(void *p)
{
    struct team *t = p;
    struct team *old = cur;
    int oldp = parity;
    cur = t;
    parity = 0;
    acq(&t->start);
    delay();
    t->fn(t->data);
    unsigned k = __atomic_fetch_add(&t->ticket, 1, __ATOMIC_RELAXED);
    if (k < MAXT) t->order[k] = omp_get_thread_num();
    rel(&t->end);
    cur = old;
    parity = oldp;
}

static void begin(struct team *t, void (*fn)(void *), void *data)
{
    memset(t, 0, sizeof *t);
    t->fn = fn;
    t->data = data;
    rel(&t->start);
}

static void done(struct team *t)
{
    acq(&t->end);
    Dl_info info;
    uint64_t off = (uint64_t)t->fn;
    if (dladdr((void *)t->fn, &info)) off -= (uint64_t)info.dli_fbase;
    uint64_t h = mix(off + t->ticket);
    for (unsigned i = 0; i < t->ticket && i < MAXT; i++) h = mix(h * 31 + t->order[i] + 1);
    take();
    nforks++;
    if (t->ticket > 1) nmulti++;
    unsigned i;
    for (i = 0; i < nregions && regions[i] != off; i++) ;
    if (i == nregions && nregions < MAXREG) regions[nregions++] = off;
    if (h == 0) h = 1;
    uint64_t s = h % SET;
    for (unsigned k = 0; k < 64; k++, s = (s + 1) % SET) {
        if (orders[s] == h) break;
        if (!orders[s]) { orders[s] = h; norders++; break; }
    }
    give();
}

#define REAL(name) static __typeof__(name) *real_; \
    if (!real_) real_ = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
typedef void (*fn_t)(void *);

void GOMP_parallel(fn_t fn, void *data, unsigned nt, unsigned flags)
{
    REAL(GOMP_parallel);
    struct team t;
    begin(&t, fn, data);
    real_(run, &t, nt, flags);
    done(&t);
}
unsigned GOMP_parallel_reductions(fn_t fn, void *data, unsigned nt, unsigned flags)
{
    REAL(GOMP_parallel_reductions);
    struct team t;
    begin(&t, fn, data);
    unsigned r = real_(run, &t, nt, flags);
    done(&t);
    return r;
}
void GOMP_parallel_sections(fn_t fn, void *data, unsigned nt, unsigned count, unsigned flags)
{
    REAL(GOMP_parallel_sections);
    struct team t;
    begin(&t, fn, data);
    real_(run, &t, nt, count, flags);
    done(&t);
}
#define LOOP(name) \
void name(fn_t fn, void *data, unsigned nt, long a, long b, long inc, long chunk, unsigned flags) \
{ REAL(name); struct team t; begin(&t, fn, data); \
  real_(run, &t, nt, a, b, inc, chunk, flags); done(&t); }
#define LOOPR(name) \
void name(fn_t fn, void *data, unsigned nt, long a, long b, long inc, unsigned flags) \
{ REAL(name); struct team t; begin(&t, fn, data); \
  real_(run, &t, nt, a, b, inc, flags); done(&t); }
LOOP(GOMP_parallel_loop_static)
LOOP(GOMP_parallel_loop_dynamic)
LOOP(GOMP_parallel_loop_guided)
LOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
LOOP(GOMP_parallel_loop_nonmonotonic_guided)
LOOPR(GOMP_parallel_loop_runtime)
LOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
LOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)

#define BARRIER(name) \
void name(void) \
{ REAL(name); struct team *t = cur; \
  if (!t) { real_(); return; } \
  char *b = &t->bar[parity]; parity ^= 1; \
  rel(b); delay(); real_(); acq(b); }
BARRIER(GOMP_barrier)
BARRIER(GOMP_loop_end)
BARRIER(GOMP_sections_end)

#define ENTER(name) void name(void) { REAL(name); real_(); acq(&sync_all); }
#define LEAVE(name) void name(void) { REAL(name); rel(&sync_all); real_(); }
static char sync_all;
ENTER(GOMP_critical_start)
LEAVE(GOMP_critical_end)
ENTER(GOMP_atomic_start)
LEAVE(GOMP_atomic_end)
ENTER(GOMP_ordered_start)
LEAVE(GOMP_ordered_end)
#define ENTER1(name) void name(void **p) { REAL(name); real_(p); acq(p); }
#define LEAVE1(name) void name(void **p) { REAL(name); rel(p); real_(p); }
ENTER1(GOMP_critical_name_start)
LEAVE1(GOMP_critical_name_end)
ENTER1(omp_set_lock)
LEAVE1(omp_unset_lock)
ENTER1(omp_set_lock_)
LEAVE1(omp_unset_lock_)
