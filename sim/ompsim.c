/* A simulated OpenMP runtime. Real threads, one of which runs at a time: every memory access that the compiler
 * instrumented (-fsanitize=thread) inside a parallel region is a point at which a seeded scheduler may hand the baton
 * to another thread of the team. Configured from Python through the functions omps_*. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXT 64
typedef unsigned long long u64;

/* ------------------------------------------------------------------------------------------------ configuration */
static u64 cfg_seed = 1, rng_state = 1;
static int cfg_threads = 1, cfg_mode = 0, cfg_small = 0;
static double cfg_rate = 0.0;
static u64 n_points, n_switches, n_regions, n_small, n_steps_left, trace = 1469598103934665603ULL;
static int cfg_on = 0;

static u64 rnd(void) {
    u64 x = rng_state;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return rng_state = x;
}
static double rnd01(void) { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

void omps_config(u64 seed, int threads, int mode, double rate, int small, u64 budget) {
    cfg_seed = seed; cfg_threads = threads < 1 ? 1 : threads > MAXT ? MAXT : threads;
    cfg_mode = mode; cfg_rate = rate; cfg_small = small; n_steps_left = budget;
    rng_state = seed * 0x9E3779B97F4A7C15ULL + 0x2545F4914F6CDD1DULL;
    if (!rng_state) rng_state = 1;
    for (int i = 0; i < 8; i++) rnd();
    n_points = n_switches = n_regions = n_small = 0; trace = 1469598103934665603ULL; cfg_on = 1;
}
void omps_off(void) { cfg_on = 0; }
void omps_stats(u64 *out) {
    out[0] = n_regions; out[1] = n_points; out[2] = n_switches; out[3] = trace; out[4] = n_small;
}
static void mix(u64 v) { trace = (trace ^ v) * 1099511628211ULL; }

/* -------------------------------------------------------------------------------------------------------- teams */
typedef struct {
    pthread_t th;
    sem_t sem;
    int done, gil, prio;
    int (*ready)(void *);           /* what it waits for, if anything */
    void *ready_arg;
    long loop_count;
} Member;

typedef struct {
    int n, running, arrived, single_done;
    Member m[MAXT];
    void (*fn)(void *);
    void *data;
    /* work share */
    long ws_next, ws_end, ws_incr, ws_chunk, ws_gen;
    long single_gen;
} Team;

static Team *team = NULL;           /* the team of the only region that may be simulated at a time */
static __thread int my_tid = 0, in_team = 0, in_sched = 0, nested = 0;

static int runnable(int t) {
    Member *m = &team->m[t];
    return !m->done && (!m->ready || m->ready(m->ready_arg));
}

static int pick(int me, int may_stay) {
    int cand[MAXT], k = 0;
    for (int t = 0; t < team->n; t++)
        if (runnable(t) && (may_stay || t != me)) cand[k++] = t;
    if (!k) return -1;
    if (cfg_mode == 1) {            /* priorities, now and then changed */
        int best = cand[0];
        for (int i = 1; i < k; i++) if (team->m[cand[i]].prio > team->m[best].prio) best = cand[i];
        return best;
    }
    if (cfg_mode == 2) {            /* the next in turn */
        for (int d = 1; d <= team->n; d++) {
            int t = (me + d) % team->n;
            for (int i = 0; i < k; i++) if (cand[i] == t) return t;
        }
    }
    return cand[rnd() % k];
}

static void hand_to(int me, int t, int wait) {
    team->running = t;
    n_switches++;
    mix((n_points << 8) ^ (u64)t);
    sem_post(&team->m[t].sem);
    if (wait) while (sem_wait(&team->m[me].sem)) {}
}

static void preempt(void) {
    if (!in_team || in_sched || !cfg_on || !team || team->m[my_tid].gil) return;
    in_sched = 1;
    n_points++;
    if (n_steps_left && n_points < n_steps_left) {
        int t = my_tid;
        if (cfg_mode == 1) {
            if (rnd01() < cfg_rate) { team->m[my_tid].prio = (int)(rnd() % 1000) - 1000; t = pick(my_tid, 1); }
        } else if (rnd01() < cfg_rate) t = pick(my_tid, 0);
        if (t >= 0 && t != my_tid) hand_to(my_tid, t, 1);
    }
    in_sched = 0;
}

static void block_until(int (*ready)(void *), void *arg) {
    in_sched++;
    while (!ready(arg)) {
        team->m[my_tid].ready = ready;
        team->m[my_tid].ready_arg = arg;
        int t = pick(my_tid, 0);
        if (t < 0) { fprintf(stderr, "simulated OpenMP: deadlock\n"); abort(); }
        hand_to(my_tid, t, 1);
        team->m[my_tid].ready = NULL;
    }
    in_sched--;
}

static void *member_main(void *arg) {
    int me = (int)(intptr_t)arg;
    my_tid = me; in_team = 1;
    while (sem_wait(&team->m[me].sem)) {}
    team->fn(team->data);
    in_sched = 1;
    team->m[me].done = 1;
    int t = pick(me, 0);
    hand_to(me, t < 0 ? 0 : t, 0);    /* nobody left: thread 0 waits to close the region */
    return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
    if (in_team || team || !cfg_on) {  /* nested, or not simulated */
        int t = my_tid, i = in_team; nested++;
        int keep = my_tid; my_tid = 0; (void)t; (void)i;
        fn(data);
        my_tid = keep; nested--;
        return;
    }
    Team *tm = calloc(1, sizeof *tm);
    int n = num_threads ? (int)num_threads : cfg_threads;
    if (n > MAXT) n = MAXT;
    if (cfg_small && n > 1 && rnd01() < 0.3) { n = 1 + (int)(rnd() % n); n_small++; }  /* fewer than asked for */
    tm->n = n; tm->fn = fn; tm->data = data;
    n_regions++;
    for (int t = 0; t < n; t++) { sem_init(&tm->m[t].sem, 0, 0); tm->m[t].prio = (int)(rnd() % 1000); }
    team = tm; in_team = 1; my_tid = 0; in_sched = 1;
    for (int t = 1; t < n; t++)
        if (pthread_create(&tm->m[t].th, NULL, member_main, (void *)(intptr_t)t)) abort();
    int first = pick(-1 + n, 1);
    if (first > 0) hand_to(0, first, 1);
    in_sched = 0;
    fn(data);
    in_sched = 1;
    tm->m[0].done = 1;
    int left = pick(0, 0);
    if (left >= 0) hand_to(0, left, 1);
    for (int t = 1; t < n; t++) pthread_join(tm->m[t].th, NULL);
    in_team = 0; in_sched = 0; team = NULL;
    for (int t = 0; t < n; t++) sem_destroy(&tm->m[t].sem);
    free(tm);
}

#define LIVE (in_team && team && !nested)
int omp_get_thread_num(void) { return LIVE ? my_tid : 0; }
int omp_get_num_threads(void) { return LIVE ? team->n : 1; }
int omp_get_max_threads(void) { return cfg_on ? cfg_threads : 1; }
int omp_get_num_procs(void) { return cfg_on ? cfg_threads : 1; }
int omp_in_parallel(void) { return LIVE; }
void omp_set_num_threads(int n) { if (cfg_on && n > 0) cfg_threads = n > MAXT ? MAXT : n; }
void omp_set_dynamic(int n) { (void)n; }
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { return (double)n_points * 1e-9; }

/* ------------------------------------------------------------------------------------------------------ barriers */
static long bar_gen;
struct bar { long gen; };
static int bar_ready(void *a) { return bar_gen != ((struct bar *)a)->gen; }
void GOMP_barrier(void) {
    if (!LIVE) return;
    int need = 0;
    for (int t = 0; t < team->n; t++) need += !team->m[t].done;
    struct bar b = {bar_gen};
    if (++team->arrived >= need) { team->arrived = 0; bar_gen++; preempt(); return; }
    block_until(bar_ready, &b);
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }

/* --------------------------------------------------------------------------------------------------------- locks */
static int lock_default = -1, lock_atomic = -1;
static int lock_free(void *a) { return *(int *)a < 0; }
static int lockname_free(void *a) { return *(void **)a == NULL; }
static void take(int *l) { if (!LIVE) return; preempt(); block_until(lock_free, l); *l = my_tid; }
static void drop(int *l) { if (!LIVE) return; *l = -1; preempt(); }
void GOMP_critical_start(void) { take(&lock_default); }
void GOMP_critical_end(void) { drop(&lock_default); }
void GOMP_atomic_start(void) { take(&lock_atomic); }
void GOMP_atomic_end(void) { drop(&lock_atomic); }
void GOMP_critical_name_start(void **p) {
    if (!LIVE) return;
    preempt(); block_until(lockname_free, p); *p = (void *)1;
}
void GOMP_critical_name_end(void **p) { if (!LIVE) return; *p = NULL; preempt(); }

bool GOMP_single_start(void) {
    if (!LIVE) return true;
    long mine = ++team->m[my_tid].loop_count;
    if (mine > team->single_gen) { team->single_gen = mine; preempt(); return true; }
    return false;
}

/* ------------------------------------------------------------------------------------- loops with dealt out chunks */
static long min_l(long a, long b) { return a < b ? a : b; }
static Team solo;
static bool ws_take(long *istart, long *iend, int guided) {
    Team *t = LIVE ? team : &solo;
    preempt();
    long left = (t->ws_end - t->ws_next) / t->ws_incr + ((t->ws_end - t->ws_next) % t->ws_incr != 0);
    if ((t->ws_incr > 0 && t->ws_next >= t->ws_end) || (t->ws_incr < 0 && t->ws_next <= t->ws_end)) return false;
    long c = t->ws_chunk > 0 ? t->ws_chunk : 1;
    if (guided && left / (t->n ? t->n : 1) > c) c = left / (t->n ? t->n : 1);
    *istart = t->ws_next;
    long e = *istart + c * t->ws_incr;
    *iend = t->ws_incr > 0 ? min_l(e, t->ws_end) : (e < t->ws_end ? t->ws_end : e);
    t->ws_next = *iend;
    return true;
}
static bool ws_start(long s, long e, long i, long c, long *a, long *b, int guided) {
    Team *t = LIVE ? team : &solo;
    long mine = LIVE ? ++team->m[my_tid].loop_count : ++solo.m[0].loop_count;
    if (mine > t->ws_gen) { t->ws_gen = mine; t->ws_next = s; t->ws_end = e; t->ws_incr = i; t->ws_chunk = c; }
    return ws_take(a, b, guided);
}
#define LOOP(name, g) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) \
        { return ws_start(s, e, i, c, a, b, g); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return ws_take(a, b, g); }
#define LOOPR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, a, b, 0); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return ws_take(a, b, 0); }
LOOP(dynamic, 0) LOOP(nonmonotonic_dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_guided, 1) LOOP(static, 0)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { preempt(); }
#define PLOOP(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, \
                                   unsigned f) { ploop(fn, d, n, s, e, i, c); }
static long pl[4];
static void (*pl_fn)(void *);
static void pl_body(void *d) {
    Team *t = LIVE ? team : &solo;
    if (!t->ws_gen) { t->ws_gen = 1000000; t->ws_next = pl[0]; t->ws_end = pl[1]; t->ws_incr = pl[2];
                      t->ws_chunk = pl[3]; }
    pl_fn(d);
}
static void ploop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) {
    pl[0] = s; pl[1] = e; pl[2] = i; pl[3] = c; pl_fn = fn; solo.ws_gen = 0;
    GOMP_parallel(pl_body, d, n, 0);
    solo.ws_gen = 0;
}
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided) PLOOP(static)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f)
    { ploop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,
    unsigned f) { ploop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,
    unsigned f) { ploop(fn, d, n, s, e, i, 1); }

/* ----------------------------------------------------------- the interpreter lock: no preemption while it is held */
typedef int PyGILState_STATE;
static void *real(const char *name) {
    static void *self;
    if (!self) self = dlopen(NULL, RTLD_LAZY);
    void *p = dlsym(self, name);
    if (!p) abort();
    return p;
}
static void set_gil(int v) { if (in_team && team) team->m[my_tid].gil = v; }
PyGILState_STATE PyGILState_Ensure(void) {
    static PyGILState_STATE (*f)(void);
    if (!f) f = real("PyGILState_Ensure");
    PyGILState_STATE s = f();
    set_gil(1);
    return s;
}
void PyGILState_Release(PyGILState_STATE s) {
    static void (*f)(PyGILState_STATE);
    if (!f) f = real("PyGILState_Release");
    f(s);
    set_gil(s == 0);
}
void *PyEval_SaveThread(void) {
    static void *(*f)(void);
    if (!f) f = real("PyEval_SaveThread");
    void *r = f();
    set_gil(0);
    return r;
}
void PyEval_RestoreThread(void *t) {
    static void (*f)(void *);
    if (!f) f = real("PyEval_RestoreThread");
    f(t);
    set_gil(1);
}

/* -------------------------------------------------------------------------------- what the compiler instrumented */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define ACC(n) void __tsan_read##n(void *p) { preempt(); } void __tsan_write##n(void *p) { preempt(); } \
    void __tsan_unaligned_read##n(void *p) { preempt(); } void __tsan_unaligned_write##n(void *p) { preempt(); } \
    void __tsan_volatile_read##n(void *p) { preempt(); } void __tsan_volatile_write##n(void *p) { preempt(); } \
    void __tsan_read_write##n(void *p) { preempt(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { preempt(); }
void __tsan_write_range(void *p, unsigned long n) { preempt(); }
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
#define ATOM(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int o) { preempt(); return *p; } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int o) { preempt(); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { preempt(); return __sync_lock_test_and_set(p, v); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { preempt(); return __sync_fetch_and_add(p, v); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { preempt(); return __sync_fetch_and_sub(p, v); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { preempt(); return __sync_fetch_and_and(p, v); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { preempt(); return __sync_fetch_and_or(p, v); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { preempt(); return __sync_fetch_and_xor(p, v); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int o) { preempt(); return __sync_fetch_and_nand(p, v); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) \
        { preempt(); T x = __sync_val_compare_and_swap(p, *e, v); if (x == *e) return 1; *e = x; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) \
        { preempt(); T x = __sync_val_compare_and_swap(p, *e, v); if (x == *e) return 1; *e = x; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) \
        { preempt(); return __sync_val_compare_and_swap(p, e, v); }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int o) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int o) {}
