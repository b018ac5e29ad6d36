/* Linked with --wrap=malloc etc.: counts the allocations that library and harness C code hold,
   and can hand out a prepared region for one huge allocation. */
#include <stddef.h>
#include <string.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static volatile long live;
int vh_fill = 0xbe;
void *vh_big_region; size_t vh_big_size; /* requests of at least this many bytes get vh_big_region */
long vh_live(void) { return __atomic_load_n(&live, __ATOMIC_SEQ_CST); }
long vh_fail_in; /* n > 0: the n-th request from now fails, once */
static int failing(void) { return vh_fail_in > 0 && --vh_fail_in == 0; }
#ifdef OMP_SIM
void omp_sim_fresh(void *, size_t), omp_sim_free(void *); /* memory handed out anew has no history */
#include <malloc.h>
static size_t old_size(void *q) { return q ? malloc_usable_size(q) : 0; }
#define omp_sim_fresh(p, n) omp_sim_fresh(p, p ? malloc_usable_size(p) : 0) /* a later realloc may use all of it */
#else
#define old_size(q) ((size_t)-1)
#define omp_sim_fresh(p, n) ((void)0)
#define omp_sim_free(p) ((void)0)
#endif
static int big(size_t n) { return vh_big_region && n >= vh_big_size; }
void *__wrap_malloc(size_t n) { if (big(n)) return vh_big_region;
  if (failing()) return 0;
  void *p = __real_malloc(n); if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST);
#ifdef VH_FILL
    memset(p, vh_fill, n);
#endif
    omp_sim_fresh(p, n);
  } return p; }
void *__wrap_calloc(size_t a, size_t b) { if (a && b && big(a * b)) return vh_big_region;
  if (failing()) return 0;
  void *p = __real_calloc(a, b); if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); omp_sim_fresh(p, a * b); } return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (failing()) return 0;
    size_t had = old_size(q);
    omp_sim_free(q);
    void *p = __real_realloc(q, n);
    if (p != q) omp_sim_fresh(p, n);
#ifdef OMP_SIM
    else if (p && malloc_usable_size(p) > had) (omp_sim_fresh)((char *)p + had, malloc_usable_size(p) - had);
#endif
    if (!q && p) __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST);
    else if (q && !p && n == 0) __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST);
    return p;
}
void __wrap_free(void *p) { if (p && p == vh_big_region) return;
  if (p) { __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST); omp_sim_free(p); } __real_free(p); }
