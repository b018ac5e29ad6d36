// A stand-in for the OpenMP runtime and the ThreadSanitizer runtime. The library is compiled with -fopenmp -fsanitize=thread
// and linked against this file instead of libgomp and libtsan: the threads of a parallel region are coroutines, a seeded
// scheduler decides before every memory access which of them goes on, and vector clocks show unordered accesses.
#include "omp_sim.hpp"
#include <cstdarg>
#include <cstdint>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <vector>
#include <map>

namespace {
const int MAXT = 8;
const size_t STACK = 512 << 10;

struct Loop { bool up = true; long long next = 0, end = 0, incr = 1, chunk = 1; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; };
struct Thread {
    ucontext_t ctx;
    bool done = false, waiting_lock = false, at_barrier = false;
    void *lock = nullptr;
    uint32_t vc[MAXT];
    long loop_gen = 0, single_gen = 0;
    int nest = 0; // regions inside the region have a team of one
    Loop inner;
};
struct LockState { int owner = -1; uint32_t vc[MAXT] = {}; };

ucontext_t sched_ctx;
Thread th[MAXT];
char *stacks[MAXT];
int nth = 1, cur = -1;         // cur: running thread of the simulated region, -1 outside
void (*region_fn)(void *);
void *region_arg;
Loop outer_loop;
Loop &the_loop() { return cur >= 0 && th[cur].nest ? th[cur].inner : outer_loop; }
long loop_gen, single_gen;
int barrier_count;
std::map<void *, LockState> *locks;
uint32_t region_id = 1;

// schedule
int team = 1;
uint64_t rs = 1;
unsigned run_mode, quantum = 1;
long countdown;
int order_[MAXT];
char race_msg[1024];
OmpStats stats;

uint64_t rnd() { uint64_t z = (rs += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void new_slice() { countdown = run_mode == 0 ? -1 : (long)(1 + rnd() % quantum); }

// shadow memory: one cell per byte, valid for the current region only
struct Cell { uintptr_t addr; uint32_t region; int8_t wt; uint32_t wc; uint32_t rc[MAXT]; void *wpc, *rpc; };
Cell *tab;
size_t mask, used;
void clear_table() { used = 0; }
size_t slot(uintptr_t a) { return (((a >> 6) * 0x9e3779b97f4a7c15ULL >> 20 << 6) | (a & 63)) & mask; } // neighbours stay together
Cell *cell(uintptr_t a) {
    if (!tab) { mask = (1u << 20) - 1; tab = (Cell *)mmap(0, (mask + 1) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    size_t h = slot(a);
    while (tab[h].region == region_id && tab[h].addr != a) h = (h + 1) & mask;
    Cell *c = &tab[h];
    if (c->region != region_id) {
        if (used > mask / 2) return nullptr; // full: no more tracking in this region
        used++;
        memset(c, 0, sizeof *c);
        c->addr = a; c->region = region_id; c->wt = -1;
    }
    return c;
}
void describe(void *pc, char *b, size_t n) {
    Dl_info i;
    if (pc && dladdr(pc, &i) && i.dli_sname) snprintf(b, n, "%s", i.dli_sname);
    else snprintf(b, n, "?");
}
void race(uintptr_t a, int t, bool w, int u, bool uw, void *pc, void *upc) {
    stats.races++;
    if (race_msg[0]) return;
    char x[200], y[200];
    describe(pc, x, sizeof x); describe(upc, y, sizeof y);
    snprintf(race_msg, sizeof race_msg, "thread %d %s in %s and thread %d %s the same memory in %s without ordering", u, uw ? "writes" : "reads", y, t, w ? "writes" : "reads", x);
}
void track(uintptr_t a, size_t n, bool w, void *pc) {
    Thread &T = th[cur];
    for (size_t i = 0; i < n; i++) {
        Cell *c = cell(a + i);
        if (!c) return;
        if (c->wt >= 0 && c->wt != cur && c->wc > T.vc[c->wt]) race(a + i, cur, w, c->wt, true, pc, c->wpc);
        if (w) {
            for (int u = 0; u < nth; u++) if (u != cur && c->rc[u] > T.vc[u]) race(a + i, cur, true, u, false, pc, c->rpc);
            c->wt = (int8_t)cur; c->wc = T.vc[cur]; c->wpc = pc;
        } else { c->rc[cur] = T.vc[cur]; c->rpc = pc; }
    }
}
void yield_() { int me = cur; swapcontext(&th[me].ctx, &sched_ctx); }
bool on_own_stack(uintptr_t a) { return cur >= 0 && a >= (uintptr_t)stacks[cur] && a < (uintptr_t)stacks[cur] + STACK; }
void access(void *p, size_t n, bool w, void *pc) {
    if (cur < 0 || nth < 2) return;
    if (on_own_stack((uintptr_t)p)) return; // private
    stats.accesses++;
    if (countdown > 0 && --countdown == 0) { new_slice(); stats.switches++; yield_(); }
    track((uintptr_t)p, n, w, pc);
}
void acquire(uint32_t *from) { for (int i = 0; i < nth; i++) if (from[i] > th[cur].vc[i]) th[cur].vc[i] = from[i]; }
void release(uint32_t *to) { for (int i = 0; i < nth; i++) if (th[cur].vc[i] > to[i]) to[i] = th[cur].vc[i]; th[cur].vc[cur]++; }
void lock(void *k) {
    if (cur < 0) return;
    if (run_mode && nth > 1 && rnd() % 2) yield_();
    LockState &l = (*locks)[k];
    if (l.owner == cur) { fprintf(stderr, "omp_sim: a thread waits for itself\n"); abort(); }
    while (l.owner >= 0) { th[cur].waiting_lock = true; th[cur].lock = k; yield_(); }
    th[cur].waiting_lock = false;
    l.owner = cur;
    acquire(l.vc);
}
void unlock(void *k) {
    if (cur < 0) return;
    LockState &l = (*locks)[k];
    release(l.vc);
    l.owner = -1;
    if (run_mode && nth > 1 && rnd() % 2) yield_();
}
void barrier() {
    if (cur < 0 || nth < 2 || th[cur].nest) return;
    th[cur].at_barrier = true;
    barrier_count++;
    while (th[cur].at_barrier) yield_();
}
void trampoline(unsigned t) {
    region_fn(region_arg);
    th[t].done = true;
    swapcontext(&th[t].ctx, &sched_ctx);
}
int pick() {
    int live[MAXT], n = 0;
    for (int i = 0; i < nth; i++) {
        Thread &T = th[order_[i]];
        if (T.done || T.at_barrier) continue;
        if (T.waiting_lock) { LockState &l = (*locks)[T.lock]; if (l.owner >= 0) continue; }
        live[n++] = order_[i];
    }
    if (n == 0) return -1;
    return run_mode == 0 ? live[0] : live[rnd() % (unsigned)n];
}
void parallel(void (*fn)(void *), void *arg, unsigned n) {
    if (cur >= 0) { // nested: a team of one
        th[cur].nest++; fn(arg); th[cur].nest--; return;
    }
    nth = n ? (int)n : team;
    if (nth > MAXT) nth = MAXT;
    Loop save = outer_loop;
    if (nth <= 1) { nth = 1; fn(arg); outer_loop = save; return; }
    stats.regions++;
    region_id++;
    clear_table();
    if (!locks) locks = new std::map<void *, LockState>;
    locks->clear();
    region_fn = fn; region_arg = arg;
    loop_gen = single_gen = 0; outer_loop = Loop(); barrier_count = 0;
    for (int i = 0; i < nth; i++) order_[i] = i;
    for (int i = nth; i > 1; i--) { int j = (int)(rnd() % (unsigned)i), t = order_[i - 1]; order_[i - 1] = order_[j]; order_[j] = t; }
    new_slice();
    for (int i = 0; i < nth; i++) {
        if (!stacks[i]) stacks[i] = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        Thread &T = th[i];
        T.done = T.waiting_lock = T.at_barrier = false;
        T.loop_gen = T.single_gen = 0; T.nest = 0;
        memset(T.vc, 0, sizeof T.vc);
        T.vc[i] = 1;
        getcontext(&T.ctx);
        T.ctx.uc_stack.ss_sp = stacks[i]; T.ctx.uc_stack.ss_size = STACK; T.ctx.uc_link = &sched_ctx;
        makecontext(&T.ctx, (void (*)())trampoline, 1, (unsigned)i);
    }
    while (true) {
        int alive = 0;
        for (int i = 0; i < nth; i++) alive += !th[i].done;
        if (!alive) break;
        if (barrier_count == alive) { // all have arrived
            uint32_t m[MAXT] = {};
            for (int i = 0; i < nth; i++) for (int j = 0; j < nth; j++) if (th[i].vc[j] > m[j]) m[j] = th[i].vc[j];
            for (int i = 0; i < nth; i++) { memcpy(th[i].vc, m, sizeof m); th[i].vc[i]++; th[i].at_barrier = false; }
            barrier_count = 0;
        }
        int t = pick();
        if (t < 0) { fprintf(stderr, "omp_sim: the threads wait for each other\n"); abort(); }
        cur = t;
        swapcontext(&sched_ctx, &th[t].ctx);
        cur = -1;
    }
    nth = 1;
    outer_loop = save;
}
bool next_chunk(long long *a, long long *b) {
    Loop &L = the_loop();
    if (L.up ? L.next >= L.end : L.next <= L.end) return false;
    *a = L.next;
    long long e = L.next + L.incr * L.chunk;
    if (L.up ? e > L.end : e < L.end) e = L.end;
    L.next = *b = e;
    return true;
}
bool next_uchunk(unsigned long long *a, unsigned long long *b) {
    Loop &L = the_loop();
    if (L.up ? L.unext >= L.uend : L.unext <= L.uend) return false;
    *a = L.unext;
    unsigned long long span = L.up ? L.uend - L.unext : L.unext - L.uend, step = (L.up ? L.uincr : 0 - L.uincr) * L.uchunk;
    unsigned long long e = span <= step ? L.uend : L.up ? L.unext + step : L.unext - step;
    L.unext = *b = e;
    return true;
}
bool first_arrival() { // this thread meets its next work-sharing loop
    if (cur < 0 || th[cur].nest) return true;
    if (++th[cur].loop_gen > loop_gen) { loop_gen = th[cur].loop_gen; return true; }
    return false;
}
void maybe_yield() { if (cur >= 0 && run_mode && nth > 1 && rnd() % 2) yield_(); }
char critical_, atomic_;
}

void omp_sim_schedule(int threads, unsigned mode, unsigned q, uint64_t seed) { team = threads < 1 ? 1 : threads > MAXT ? MAXT : threads; run_mode = mode; quantum = q ? q : 1; rs = seed; race_msg[0] = 0; }
const char *omp_sim_race() { return race_msg[0] ? race_msg : nullptr; }
OmpStats omp_sim_stats() { return stats; }

extern "C" {
// ---- OpenMP
int omp_get_thread_num(void) { return cur < 0 || th[cur].nest ? 0 : cur; }
int omp_get_num_threads(void) { return cur < 0 || th[cur].nest ? 1 : nth; }
int omp_get_max_threads(void) { return team; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return cur >= 0; }
int omp_get_active_level(void) { return cur >= 0; }
int omp_get_level(void) { return cur >= 0; }
int omp_get_nested(void) { return 0; }
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { (void)n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void) { static double t; return t += 1e-3; }
void GOMP_parallel(void (*fn)(void *), void *arg, unsigned n, unsigned) { parallel(fn, arg, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *arg, unsigned n, unsigned) { parallel(fn, arg, n); return (unsigned)team; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { lock(&critical_); }
void GOMP_critical_end(void) { unlock(&critical_); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atomic_); }
void GOMP_atomic_end(void) { unlock(&atomic_); }
void omp_init_lock(void **) {} void omp_destroy_lock(void **) {}
void omp_init_lock_with_hint(void **, int) {}
int omp_test_lock(void **l) { if (cur < 0) return 1; maybe_yield(); if ((*locks)[l].owner >= 0) return 0; lock(l); return 1; }
struct NestLock { int owner1, count; }; // owner1: thread + 1
void omp_init_nest_lock(void **l) { *(NestLock *)l = {0, 0}; } void omp_destroy_nest_lock(void **) {}
int omp_test_nest_lock(void **l) {
    NestLock *n = (NestLock *)l;
    if (n->count && n->owner1 == cur + 1) return ++n->count;
    if (n->count) { maybe_yield(); return 0; }
    lock(l); n->owner1 = cur + 1; return ++n->count;
}
void omp_set_nest_lock(void **l) { NestLock *n = (NestLock *)l; if (n->count && n->owner1 == cur + 1) { n->count++; return; } lock(l); n->owner1 = cur + 1; n->count = 1; }
void omp_unset_nest_lock(void **l) { NestLock *n = (NestLock *)l; if (--n->count == 0) unlock(l); }
int omp_get_max_active_levels(void) { return 1; } void omp_set_max_active_levels(int) {}
int omp_get_team_num(void) { return 0; } int omp_get_num_teams(void) { return 1; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : l == 1 && cur >= 0 ? cur : -1; }
int omp_get_team_size(int l) { return l == 0 ? 1 : l == 1 && cur >= 0 ? nth : -1; }
int omp_in_final(void) { return 0; } int omp_get_cancellation(void) { return 0; } double omp_get_wtick(void) { return 1e-9; }
void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; } void omp_set_schedule(int, int) {}
static void *copied; // copyprivate
void *GOMP_single_copy_start(void) {
    if (cur < 0 || th[cur].nest) return 0;
    if (++th[cur].single_gen > single_gen) { single_gen = th[cur].single_gen; return 0; }
    barrier(); return copied;
}
void GOMP_single_copy_end(void *d) { copied = d; barrier(); }
void GOMP_taskyield(void) { maybe_yield(); }
// the chunks of a taskloop: one after the other
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num, int, long s, long e, long step) {
    unsigned long long n = step > 0 ? (e > s ? ((unsigned long long)(e - s) + (unsigned long long)step - 1) / (unsigned long long)step : 0) : (s > e ? ((unsigned long long)(s - e) + (unsigned long long)-step - 1) / (unsigned long long)-step : 0);
    unsigned long long per = n <= 1 ? 1 : (flags & 512) ? (num ? num : 1) : num ? (n + num - 1) / num : (n + 3) / 4; // 512: grainsize
    for (unsigned long long d = 0; d < n; d += per) {
        char *b = (char *)malloc((size_t)(size + align)), *p = (char *)(((uintptr_t)b + (uintptr_t)align - 1) & ~((uintptr_t)align - 1));
        if (cpy) cpy(p, data); else memcpy(p, data, (size_t)size);
        ((long *)p)[0] = s + (long)d * step; ((long *)p)[1] = d + per >= n ? e : s + (long)(d + per) * step;
        fn(p); free(b);
    }
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num, int, unsigned long long s, unsigned long long e, unsigned long long step) {
    bool up = flags & 256;
    unsigned long long a = up ? step : 0 - step, n = up ? (e > s ? (e - s + a - 1) / a : 0) : (s > e ? (s - e + a - 1) / a : 0), per = n <= 1 ? 1 : (flags & 512) ? (num ? num : 1) : num ? (n + num - 1) / num : (n + 3) / 4;
    for (unsigned long long d = 0; d < n; d += per) {
        char *b = (char *)malloc((size_t)(size + align)), *p = (char *)(((uintptr_t)b + (uintptr_t)align - 1) & ~((uintptr_t)align - 1));
        if (cpy) cpy(p, data); else memcpy(p, data, (size_t)size);
        ((unsigned long long *)p)[0] = s + d * step; ((unsigned long long *)p)[1] = d + per >= n ? e : s + (d + per) * step;
        fn(p); free(b);
    }
}
void GOMP_taskwait_depend(void **) {}
void GOMP_taskgroup_reduction_register(uintptr_t *) { fprintf(stderr, "omp_sim: no task reductions\n"); abort(); } void GOMP_taskgroup_reduction_unregister(uintptr_t *) {}
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
void GOMP_scope_start(uintptr_t *) {}
void omp_set_lock(void **l) { lock(l); } void omp_unset_lock(void **l) { unlock(l); }
bool GOMP_single_start(void) { if (cur < 0 || th[cur].nest) return true; if (++th[cur].single_gen > single_gen) { single_gen = th[cur].single_gen; return true; } return false; }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (!cpy) { fn(data); return; }
    char *b = (char *)malloc((size_t)(size + align)), *p = (char *)(((uintptr_t)b + (uintptr_t)align - 1) & ~((uintptr_t)align - 1));
    cpy(p, data); fn(p); free(b);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long ch, long *a, long *b) { \
    if (first_arrival()) { the_loop().up = i > 0; the_loop().next = s; the_loop().end = e; the_loop().incr = i; the_loop().chunk = ch < 1 ? 1 : ch; } \
    maybe_yield(); long long x, y; if (!next_chunk(&x, &y)) return false; *a = (long)x; *b = (long)y; return true; } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { maybe_yield(); long long x, y; if (!next_chunk(&x, &y)) return false; *a = (long)x; *b = (long)y; return true; } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long ch, unsigned long long *a, unsigned long long *b) { \
    if (first_arrival()) { the_loop().up = up; the_loop().unext = s; the_loop().uend = e; the_loop().uincr = i; the_loop().uchunk = ch < 1 ? 1 : ch; } \
    maybe_yield(); return next_uchunk(a, b); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long *a, unsigned long long *b) { maybe_yield(); return next_uchunk(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *arg, unsigned n, long s, long e, long i, long ch, unsigned) { \
    /* the threads begin with _next */ \
    struct A { void (*fn)(void *); void *arg; } z = {fn, arg}; (void)z; \
    pre_s = s; pre_e = e; pre_i = i; pre_c = ch; pre = true; parallel_pre(fn, arg, n); }
static long pre_s, pre_e, pre_i, pre_c; static bool pre;
static void (*pre_fn)(void *);
static void pre_tramp(void *arg) { // the first thread to run sets up the loop
    if (pre) { pre = false; the_loop().up = pre_i > 0; the_loop().next = pre_s; the_loop().end = pre_e; the_loop().incr = pre_i; the_loop().chunk = pre_c < 1 ? 1 : pre_c; }
    pre_fn(arg);
}
static void parallel_pre(void (*fn)(void *), void *arg, unsigned n) { pre_fn = fn; parallel(pre_tramp, arg, n); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(runtime_) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_next(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *arg, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, arg, n, s, e, i, 1, f); }
RLOOP(runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(nonmonotonic_runtime)
// ordered loops: the thread that comes first takes all iterations, in order
#define OLOOP(NAME, C, U) \
bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i C, long *a, long *b) { \
    if (first_arrival()) { Loop &L = the_loop(); L.up = i > 0; L.next = e; L.end = e; L.incr = i; L.chunk = 1; *a = s; *b = e; return i > 0 ? s < e : s > e; } return false; } \
bool GOMP_loop_ordered_##NAME##_next(long *, long *) { return false; } \
bool GOMP_loop_ull_ordered_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i U, unsigned long long *a, unsigned long long *b) { \
    if (first_arrival()) { Loop &L = the_loop(); L.up = up; L.unext = e; L.uend = e; L.uincr = i; L.uchunk = 1; *a = s; *b = e; return up ? s < e : s > e; } return false; } \
bool GOMP_loop_ull_ordered_##NAME##_next(unsigned long long *, unsigned long long *) { return false; }
#define CH , long
#define UCH , unsigned long long
OLOOP(static, CH, UCH) OLOOP(dynamic, CH, UCH) OLOOP(guided, CH, UCH) OLOOP(runtime, , )
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
unsigned GOMP_sections_start(unsigned n) { long a, b; if (!GOMP_loop_dynamic_start(1, (long)n + 1, 1, 1, &a, &b)) return 0; return (unsigned)a; }
unsigned GOMP_sections_next(void) { long a, b; if (!GOMP_loop_dynamic_next(&a, &b)) return 0; return (unsigned)a; }
void GOMP_parallel_sections(void (*fn)(void *), void *arg, unsigned n, unsigned count, unsigned f) { GOMP_parallel_loop_dynamic(fn, arg, n, 1, (long)count + 1, 1, 1, f); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}

// ---- ThreadSanitizer
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, RA); } void __tsan_vptr_read(void **p) { access(p, 8, false, RA); }
#define RW(N) \
void __tsan_read##N(void *p) { access(p, N, false, RA); } void __tsan_write##N(void *p) { access(p, N, true, RA); } \
void __tsan_unaligned_read##N(void *p) { access(p, N, false, RA); } void __tsan_unaligned_write##N(void *p) { access(p, N, true, RA); } \
void __tsan_volatile_read##N(void *p) { access(p, N, false, RA); } void __tsan_volatile_write##N(void *p) { access(p, N, true, RA); } \
void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false, RA); } void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, RA); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, RA); }
// atomic operations: in program order, each synchronises with the earlier ones on the same address
static void at(const volatile void *p) { if (cur >= 0 && nth > 1) { stats.accesses++; if (countdown > 0 && --countdown == 0) { new_slice(); yield_(); } LockState &l = (*locks)[(void *)p]; acquire(l.vc); release(l.vc); } }
#define ATOMIC(N, T) \
T __tsan_atomic##N##_load(const volatile T *p, int) { at(p); return *p; } \
void __tsan_atomic##N##_store(volatile T *p, T v, int) { at(p); *p = v; } \
T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { at(p); T o = *p; *p = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { at(p); T o = *p; *p = (T)(o + v); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { at(p); T o = *p; *p = (T)(o - v); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { at(p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { at(p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { at(p); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { at(p); T o = *p; *p = (T)~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at(p); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at(p); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at(p); T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// ---- library functions that touch memory (linked with --wrap)
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void __real_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (cur >= 0 && n) { access((void *)s, n, false, RA); access(d, n, true, RA); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (cur >= 0 && n) { access((void *)s, n, false, RA); access(d, n, true, RA); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (cur >= 0 && n) access(d, n, true, RA); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (cur >= 0 && n) { access((void *)a, n, false, RA); access((void *)b, n, false, RA); } return __real_memcmp(a, b, n); }
// strings
size_t __real_strlen(const char *); char *__real_strcpy(char *, const char *); char *__real_strncpy(char *, const char *, size_t); char *__real_strcat(char *, const char *); char *__real_strncat(char *, const char *, size_t);
int __real_strcmp(const char *, const char *); int __real_strncmp(const char *, const char *, size_t);
static void rd(const void *p, size_t n, void *ra) { if (cur >= 0 && n) access((void *)p, n, false, ra); }
static void wr(void *p, size_t n, void *ra) { if (cur >= 0 && n) access(p, n, true, ra); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); rd(s, n + 1, RA); return n; }
char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s) + 1; rd(s, n, RA); wr(d, n, RA); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { rd(s, strnlen(s, n), RA); wr(d, n, RA); return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { size_t n = __real_strlen(s) + 1, m = __real_strlen(d); rd(s, n, RA); wr(d + m, n, RA); return __real_strcat(d, s); }
char *__wrap_strncat(char *d, const char *s, size_t n) { size_t m = __real_strlen(d), k = strnlen(s, n); rd(s, k, RA); wr(d + m, k + 1, RA); return __real_strncat(d, s, n); }
int __wrap_strcmp(const char *a, const char *b) { rd(a, __real_strlen(a) + 1, RA); rd(b, __real_strlen(b) + 1, RA); return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { rd(a, strnlen(a, n), RA); rd(b, strnlen(b, n), RA); return __real_strncmp(a, b, n); }
int __real_vsnprintf(char *, size_t, const char *, va_list); int __real_vsprintf(char *, const char *, va_list);
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list a) { int r = __real_vsnprintf(d, n, f, a); if (r >= 0 && n) wr(d, (size_t)r < n ? (size_t)r + 1 : n, RA); return r; }
int __wrap_vsprintf(char *d, const char *f, va_list a) { int r = __real_vsprintf(d, f, a); if (r >= 0) wr(d, (size_t)r + 1, RA); return r; }
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = __real_vsnprintf(d, n, f, a); va_end(a); if (r >= 0 && n) wr(d, (size_t)r < n ? (size_t)r + 1 : n, RA); return r; }
int __wrap_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int r = __real_vsprintf(d, f, a); va_end(a); if (r >= 0) wr(d, (size_t)r + 1, RA); return r; }
size_t __real_strftime(char *, size_t, const char *, const struct tm *);
size_t __wrap_strftime(char *d, size_t n, const char *f, const struct tm *t) { size_t r = __real_strftime(d, n, f, t); wr(d, r + 1 <= n ? r + 1 : n, RA); return r; }
// these hand out one buffer that all threads share
typedef long time_t_;
struct tm *__real_localtime(const time_t_ *); struct tm *__real_gmtime(const time_t_ *); char *__real_ctime(const time_t_ *); char *__real_asctime(const struct tm *); char *__real_strtok(char *, const char *);
static long shared_tm, shared_text, shared_tok;
struct tm *__wrap_localtime(const time_t_ *t) { access(&shared_tm, 1, true, RA); return __real_localtime(t); }
struct tm *__wrap_gmtime(const time_t_ *t) { access(&shared_tm, 1, true, RA); return __real_gmtime(t); }
char *__wrap_ctime(const time_t_ *t) { access(&shared_text, 1, true, RA); return __real_ctime(t); }
char *__wrap_asctime(const struct tm *t) { access(&shared_text, 1, true, RA); return __real_asctime(t); }
char *__wrap_strtok(char *s, const char *d) { access(&shared_tok, 1, true, RA); return __real_strtok(s, d); }
void __wrap_qsort(void *p, size_t n, size_t w, int (*f)(const void *, const void *)) { if (cur >= 0 && n) { access(p, n * w, false, RA); access(p, n * w, true, RA); } __real_qsort(p, n, w, f); }
}
// memory that is handed out again is new; giving it back writes to it
extern "C" void omp_sim_fresh(void *p, size_t n) {
    if (cur < 0 || nth < 2 || !tab || !p) return;
    for (size_t i = 0; (i < n && i < 65536) || i == 0; i++) {
        uintptr_t a = (uintptr_t)p + i;
        size_t h = slot(a);
        while (tab[h].region == region_id && tab[h].addr != a) h = (h + 1) & mask;
        if (tab[h].region == region_id) { tab[h].wt = -1; memset(tab[h].rc, 0, sizeof tab[h].rc); }
    }
}
extern "C" void omp_sim_free(void *p) { if (p) access(p, 1, true, RA); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); omp_sim_fresh(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { omp_sim_free(p); free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
