/* simomp.c - a simulated OpenMP runtime.
 *
 * Stands in for libgomp AND for the ThreadSanitizer runtime.  The extension
 * modules of the code under test are compiled with -fopenmp -fsanitize=thread,
 * so the compiler reports every shared memory access by a call into this file;
 * team threads are coroutines on one OS thread, and every such call is a point
 * where the seeded scheduler may switch to another team thread.  Which thread
 * runs is decided here and nowhere else, so (seed, policy) or an explicit list
 * of switches is one exactly repeatable execution.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 64
#define STACK (256 * 1024)
#define MAXWS 8192
#define MAXSW (1 << 16)

/* ------------------------------------------------------------- configuration */
enum { P_SERIAL = 0, P_RANDOM = 1, P_PCT = 2, P_STALL = 3, P_REVERSE = 4,
       P_REPLAY = 5, P_CONFLICT = 6 };

typedef struct { uint64_t at; int32_t to; int32_t forced; } sw_t;

static struct {
    int nthreads, policy, jitter_team;
    double rate;
    uint64_t rng;
    uint64_t step;            /* scheduling points passed since config */
    uint64_t regions, accesses, switches, conflicts, hash;
    uint64_t steplimit;
    int overflow, deadlock;
} C = { .nthreads = 1, .policy = P_SERIAL, .rng = 88172645463325252ULL,
        .hash = 1469598103934665603ULL, .steplimit = 400000000ULL };

static sw_t *rec; static int nrec;
static sw_t *plan; static int nplan, planpos;

static uint64_t rnd(void) {
    uint64_t x = C.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; C.rng = x;
    return x * 2685821657736338717ULL;
}
static double rndf(void) { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

/* ---------------------------------------------------------------- the team */
typedef struct { int init; long next, end, incr, chunk; int guided; int done; } ws_t;

typedef struct {
    ucontext_t ctx;
    char *stack;
    int state;               /* 0 runnable 1 finished 2 at barrier 3 waiting lock */
    int ws;                  /* worksharing constructs met */
    int single;              /* single constructs met */
    void *waitlock;
    long prio;
} th_t;

typedef struct {
    int n, cur;
    th_t *t;
    void (*fn)(void *); void *data;
    ws_t *ws;
    int single_taken[256];
    void *copypriv;
    int stalled;
} team_t;

static team_t *T;            /* active simulated team (never nested) */
static ucontext_t main_ctx;
static th_t pool[MAXT];
static ws_t wspool[MAXWS];
static int nested;

/* conflict table: address -> last writer / readers within a region */
#define CT (1 << 16)
static struct { uintptr_t a; uint64_t region; int w; uint64_t r; } *ct;

static void note_switch(int to, int forced) {
    C.switches++;
    C.hash = (C.hash ^ (C.step * 1315423911u + (uint64_t)to)) * 1099511628211ULL;
    if (nrec < MAXSW) { rec[nrec].at = C.step; rec[nrec].to = to; rec[nrec].forced = forced; nrec++; }
    else C.overflow = 1;
}

static void go(int to) {
    int from = T->cur;
    if (to == from) return;
    T->cur = to;
    swapcontext(&T->t[from].ctx, &T->t[to].ctx);
}

static int runnable(int i) { return T->t[i].state == 0; }

static int pick_default(void) {
    for (int i = 0; i < T->n; i++) if (runnable(i)) return i;
    return -1;
}

static int pick(int forced) {
    int c[MAXT], n = 0;
    for (int i = 0; i < T->n; i++) if (runnable(i)) c[n++] = i;
    if (!n) return -1;
    switch (C.policy) {
    case P_REPLAY: case P_SERIAL: return c[0];
    case P_REVERSE: return c[n - 1];
    case P_PCT: {
        int b = c[0];
        for (int i = 1; i < n; i++) if (T->t[c[i]].prio > T->t[b].prio) b = c[i];
        return b; }
    case P_STALL:
        if (n > 1) {
            int k = rnd() % n;
            if (c[k] == T->stalled) k = (k + 1) % n;
            return c[k];
        }
        return c[0];
    default: return c[rnd() % n];
    }
}

/* the current thread cannot go on (finished, barrier, lock): somebody else must */
static int must_leave(void) {
    C.step++;
    int to = -1;
    if (C.policy == P_REPLAY) {
        while (planpos < nplan && plan[planpos].at < C.step) planpos++;
        if (planpos < nplan && plan[planpos].at == C.step) {
            int t = plan[planpos++].to;
            if (t >= 0 && t < T->n && runnable(t)) to = t;
        }
        if (to < 0) to = pick_default();
    } else to = pick(1);
    if (to >= 0) note_switch(to, 1);
    return to;
}

static void point(int hot) {
    C.step++;
    if (C.step > C.steplimit) { C.overflow = 2; return; }
    int to = -1;
    switch (C.policy) {
    case P_REPLAY:
        while (planpos < nplan && plan[planpos].at < C.step) planpos++;
        if (planpos < nplan && plan[planpos].at == C.step) {
            int t = plan[planpos++].to;
            if (t >= 0 && t < T->n && runnable(t)) to = t;
        }
        break;
    case P_RANDOM: case P_STALL:
        if (rndf() < C.rate) to = pick(0);
        break;
    case P_CONFLICT:
        if (hot ? (rnd() & 1) : (rndf() < C.rate * 0.05)) to = pick(0);
        break;
    case P_PCT:
        if (rndf() < C.rate * 0.2) { T->t[T->cur].prio = -(long)(C.step); to = pick(0); }
        break;
    }
    if (to >= 0 && to != T->cur) { note_switch(to, 0); go(to); }
}

static inline int touch(uintptr_t a, int w) {
    int me = T->cur, hot = 0;
    uint64_t h = (a >> 2) * 11400714819323198485ULL >> 48;
    for (int k = 0; k < 8; k++) {
        uint64_t s = (h + k) & (CT - 1);
        if (ct[s].region != C.regions || ct[s].a == 0) {
            ct[s].region = C.regions; ct[s].a = a; ct[s].w = -1; ct[s].r = 0;
        }
        if (ct[s].a == a) {
            if (ct[s].w >= 0 && ct[s].w != me) hot = 1;
            if (w && (ct[s].r & ~(1ULL << me))) hot = 1;
            if (w) ct[s].w = me; else ct[s].r |= 1ULL << me;
            break;
        }
    }
    if (hot) C.conflicts++;
    return hot;
}

static inline void acc(void *p, int w) {
    if (!T || T->n < 2) return;
    C.accesses++;
    point(touch((uintptr_t)p, w));
}

static void finish(void) {
    T->t[T->cur].state = 1;
    int to = must_leave();
    if (to < 0) {
        for (int i = 0; i < T->n; i++) if (T->t[i].state != 1) C.deadlock = 1;
        swapcontext(&T->t[T->cur].ctx, &main_ctx);
        abort();
    }
    go(to);
    abort();
}

static void entry(void) { T->fn(T->data); finish(); }

static void run_team(void (*fn)(void *), void *data, int n, ws_t *first) {
    if (T || n < 2) {                      /* nested, or a team of one */
        team_t *save = T, one; th_t t1; ws_t *w1 = NULL;
        memset(&one, 0, sizeof one); memset(&t1, 0, sizeof t1);
        one.n = 1; one.t = &t1; one.stalled = -1;
        w1 = calloc(MAXWS, sizeof *w1); one.ws = w1;
        if (first) { w1[0] = *first; t1.ws = 1; }
        T = &one; nested++;
        if (!save) C.regions++;
        fn(data);
        nested--; T = save; free(w1);
        return;
    }
    team_t team; memset(&team, 0, sizeof team);
    C.regions++;
    team.n = n; team.t = pool; team.fn = fn; team.data = data; team.ws = wspool;
    memset(wspool, 0, sizeof wspool);
    team.stalled = C.policy == P_STALL ? (int)(rnd() % n) : -1;
    for (int i = 0; i < n; i++) {
        th_t *t = &pool[i];
        char *st = t->stack ? t->stack : malloc(STACK);
        memset(t, 0, sizeof *t);
        t->stack = st;
        t->prio = C.policy == P_PCT ? (long)(rnd() >> 34) + 1 : 0;
        if (first) t->ws = 1;
        getcontext(&t->ctx);
        t->ctx.uc_stack.ss_sp = st; t->ctx.uc_stack.ss_size = STACK;
        t->ctx.uc_link = NULL;
        makecontext(&t->ctx, entry, 0);
    }
    if (first) wspool[0] = *first;
    T = &team;
    C.step++;
    int s = 0;
    if (C.policy == P_REPLAY) {
        while (planpos < nplan && plan[planpos].at < C.step) planpos++;
        if (planpos < nplan && plan[planpos].at == C.step) {
            int t = plan[planpos++].to; if (t >= 0 && t < n) s = t;
        }
    } else s = pick(1);
    if (s != 0) note_switch(s, 1);
    T->cur = s;
    swapcontext(&main_ctx, &team.t[s].ctx);
    T = NULL;
}

static int team_size(unsigned req) {
    int n = C.nthreads;
    if (C.jitter_team && n > 1) n = 1 + (int)(rnd() % n);
    if (req && (int)req < n) n = req;
    if (n > MAXT) n = MAXT;
    return n < 1 ? 1 : n;
}

/* ------------------------------------------------------------- control API */
EXPORT void simomp_config(uint64_t seed, int nthreads, int policy, double rate, int jitter) {
    if (!rec) rec = malloc(sizeof(sw_t) * MAXSW);
    if (!ct) ct = calloc(CT, sizeof *ct);
    memset(ct, 0, CT * sizeof *ct);
    C.rng = seed * 6364136223846793005ULL + 1442695040888963407ULL;
    if (!C.rng) C.rng = 1;
    for (int i = 0; i < 8; i++) rnd();
    C.nthreads = nthreads > MAXT ? MAXT : nthreads; C.policy = policy; C.rate = rate;
    C.jitter_team = jitter;
    C.step = C.regions = C.accesses = C.switches = C.conflicts = 0;
    C.hash = 1469598103934665603ULL; C.overflow = C.deadlock = 0;
    nrec = 0; planpos = 0; nplan = 0;
}
EXPORT void simomp_plan(const uint64_t *at, const int32_t *to, int n) {
    free(plan); plan = malloc(sizeof(sw_t) * (n + 1)); nplan = n; planpos = 0;
    for (int i = 0; i < n; i++) { plan[i].at = at[i]; plan[i].to = to[i]; }
}
EXPORT void simomp_stats(uint64_t *o) {
    o[0] = C.regions; o[1] = C.accesses; o[2] = C.switches; o[3] = C.conflicts;
    o[4] = C.hash; o[5] = C.overflow; o[6] = C.deadlock; o[7] = nrec; o[8] = C.step;
}
EXPORT int simomp_trace(uint64_t *at, int32_t *to, int32_t *forced, int max) {
    int n = nrec < max ? nrec : max;
    for (int i = 0; i < n; i++) { at[i] = rec[i].at; to[i] = rec[i].to; forced[i] = rec[i].forced; }
    return n;
}

/* ------------------------------------------------------------------ libgomp */
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) {
    (void)flags; run_team(fn, data, team_size(nt), NULL);
}
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned flags) {
    (void)flags; int n = team_size(nt); run_team(fn, data, n, NULL); return n;
}
EXPORT int omp_get_num_threads(void) { return T ? T->n : 1; }
EXPORT int omp_get_thread_num(void) { return T ? T->cur : 0; }
EXPORT int omp_get_max_threads(void) { return C.nthreads; }
EXPORT int omp_get_num_procs(void) { return C.nthreads; }
EXPORT int omp_in_parallel(void) { return T && T->n > 1; }
EXPORT void omp_set_num_threads(int n) { (void)n; }
EXPORT int omp_get_thread_limit(void) { return MAXT; }
EXPORT void omp_set_dynamic(int n) { (void)n; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT int omp_get_level(void) { return T ? 1 : 0; }
EXPORT int omp_get_max_active_levels(void) { return 1; }
EXPORT double omp_get_wtime(void) { return (double)C.step * 1e-6; }

EXPORT void GOMP_barrier(void) {
    if (!T || T->n < 2) return;
    int waiting = 0;
    for (int i = 0; i < T->n; i++) if (T->t[i].state == 2) waiting++;
    int live = 0;
    for (int i = 0; i < T->n; i++) if (T->t[i].state != 1) live++;
    if (waiting + 1 == live) {
        for (int i = 0; i < T->n; i++) if (T->t[i].state == 2) T->t[i].state = 0;
        point(0);
        return;
    }
    T->t[T->cur].state = 2;
    int to = must_leave();
    if (to < 0) { C.deadlock = 1; swapcontext(&T->t[T->cur].ctx, &main_ctx); abort(); }
    go(to);
}
EXPORT int GOMP_barrier_cancel(void) { GOMP_barrier(); return 0; }

static struct { void *k; int held; } locks[256];
static int *lockslot(void *k) {
    for (int i = 0; i < 256; i++) {
        if (locks[i].k == k) return &locks[i].held;
        if (!locks[i].k) { locks[i].k = k; locks[i].held = 0; return &locks[i].held; }
    }
    abort();
}
static void lk(void *k) {
    if (!T || T->n < 2) return;
    int *h = lockslot(k);
    point(0);
    while (*h) {
        T->t[T->cur].state = 3; T->t[T->cur].waitlock = k;
        int to = must_leave();
        if (to < 0) { C.deadlock = 1; swapcontext(&T->t[T->cur].ctx, &main_ctx); abort(); }
        go(to);
    }
    *h = 1;
}
static void unlk(void *k) {
    if (!T || T->n < 2) return;
    *lockslot(k) = 0;
    for (int i = 0; i < T->n; i++)
        if (T->t[i].state == 3 && T->t[i].waitlock == k) T->t[i].state = 0;
    point(0);
}
static char k_crit, k_atomic, k_ord;
EXPORT void GOMP_critical_start(void) { lk(&k_crit); }
EXPORT void GOMP_critical_end(void) { unlk(&k_crit); }
EXPORT void GOMP_critical_name_start(void **p) { lk((void *)p); }
EXPORT void GOMP_critical_name_end(void **p) { unlk((void *)p); }
EXPORT void GOMP_atomic_start(void) { lk(&k_atomic); }
EXPORT void GOMP_atomic_end(void) { unlk(&k_atomic); }
EXPORT void GOMP_ordered_start(void) { lk(&k_ord); }
EXPORT void GOMP_ordered_end(void) { unlk(&k_ord); }
EXPORT int GOMP_single_start(void) {
    if (!T || T->n < 2) return 1;
    point(0);
    int k = T->t[T->cur].single++;
    if (k >= 256) abort();
    if (T->single_taken[k]) return 0;
    T->single_taken[k] = 1; return 1;
}
EXPORT void omp_init_lock(void **l) { *l = NULL; }
EXPORT void omp_destroy_lock(void **l) { (void)l; }
EXPORT void omp_set_lock(void **l) { lk(l); }
EXPORT void omp_unset_lock(void **l) { unlk(l); }

/* worksharing loops */
static int chunk(ws_t *w, long *is, long *ie) {
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr
                            : (w->end - w->next + w->incr + 1) / w->incr;
    if (left <= 0) return 0;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->guided) { long g = left / (2 * (T ? T->n : 1)); if (g > c) c = g; }
    if (c > left) c = left;
    *is = w->next; *ie = w->next + c * w->incr; w->next = *ie;
    return 1;
}
static int loop_start(long s, long e, long inc, long ch, int guided, long *is, long *ie) {
    if (!T) { ws_t w = { 1, s, e, inc, ch, 0, 0 }; w.chunk = e - s ? labs(e - s) : 1; return chunk(&w, is, ie); }
    if (T->n > 1) point(0);
    int k = T->t[T->cur].ws++;
    if (k >= MAXWS) abort();
    ws_t *w = &T->ws[k];
    if (!w->init) { w->init = 1; w->next = s; w->end = e; w->incr = inc; w->chunk = ch; w->guided = guided; }
    return chunk(w, is, ie);
}
static int loop_next(long *is, long *ie) {
    if (!T) return 0;
    if (T->n > 1) point(0);
    return chunk(&T->ws[T->t[T->cur].ws - 1], is, ie);
}
#define LOOP(name, g) \
  EXPORT unsigned char GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, g, is, ie); } \
  EXPORT unsigned char GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); } \
  EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned f) { \
    (void)f; ws_t w = { 1, s, e, i, c, g, 0 }; run_team(fn, d, team_size(nt), &w); }
LOOP(static, 0) LOOP(dynamic, 0) LOOP(guided, 1)
LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
#define LOOPR(name) \
  EXPORT unsigned char GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 0, is, ie); } \
  EXPORT unsigned char GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); } \
  EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned f) { \
    (void)f; ws_t w = { 1, s, e, i, 1, 0, 0 }; run_team(fn, d, team_size(nt), &w); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
EXPORT void GOMP_loop_end(void) { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void) { if (T && T->n > 1) point(0); }
EXPORT unsigned char GOMP_loop_end_cancel(void) { GOMP_barrier(); return 0; }

/* ------------------------------------------------- ThreadSanitizer callbacks */
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}
#define RW(n) \
  EXPORT void __tsan_read##n(void *p) { acc(p, 0); } \
  EXPORT void __tsan_write##n(void *p) { acc(p, 1); } \
  EXPORT void __tsan_volatile_read##n(void *p) { acc(p, 0); } \
  EXPORT void __tsan_volatile_write##n(void *p) { acc(p, 1); } \
  EXPORT void __tsan_unaligned_read##n(void *p) { acc(p, 0); } \
  EXPORT void __tsan_unaligned_write##n(void *p) { acc(p, 1); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void *p) { acc(p, 0); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void *p) { acc(p, 1); } \
  EXPORT void __tsan_read##n##_pc(void *p, void *q) { (void)q; acc(p, 0); } \
  EXPORT void __tsan_write##n##_pc(void *p, void *q) { (void)q; acc(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, long n) { (void)n; acc(p, 0); }
EXPORT void __tsan_write_range(void *p, long n) { (void)n; acc(p, 1); }
EXPORT void __tsan_vptr_update(void **p, void *q) { (void)q; acc(p, 1); }
EXPORT void __tsan_vptr_read(void **p) { acc(p, 0); }

/* atomics: one coroutine runs at a time, so a plain operation is atomic */
#define AT(bits, ty) \
  EXPORT ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; acc((void *)a, 0); return *a; } \
  EXPORT void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); *a = v; } \
  EXPORT ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); ty o = *a; *a = v; return o; } \
  EXPORT ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); ty o = *a; *a = o + v; return o; } \
  EXPORT ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); ty o = *a; *a = o - v; return o; } \
  EXPORT ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); ty o = *a; *a = o & v; return o; } \
  EXPORT ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); ty o = *a; *a = o | v; return o; } \
  EXPORT ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); ty o = *a; *a = o ^ v; return o; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int mo2) { (void)mo; (void)mo2; acc((void *)a, 1); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int mo2) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, mo2); } \
  EXPORT ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int mo2) { (void)mo; (void)mo2; acc((void *)a, 1); ty o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo) { (void)mo; if (T && T->n > 1) point(0); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
