/* Model of the OpenMP runtime entry points emitted by clang.  Tasks are deferred; which ready task runs next at each
   scheduling point is a choice of the explorer (the first `nfree` decisions) or of a fixed policy (the rest).
   A task body runs without interruption between its own scheduling points (task creation, taskwait, barrier).
   Linked into the symbolic execution as IR and into the native replay binary as object code. */
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
int64_t vs_choose(const char*, int64_t, int64_t); void vs_check(int, const char*);
typedef int (*routine_t)(int, void*);
typedef struct { void* shareds; routine_t routine; int part, pad; routine_t destr; void* d2; } ktask;
typedef struct { intptr_t base; size_t len; unsigned char flags; } kdep;
#define MAXQ 4096
#define MAXP 24
typedef struct T { struct T *parent, *pred[MAXP]; int npred, state, unfinished, flags, ndep; kdep* dep; long pad_; } T;
static T root; static T* cur = &root; static T* all[MAXQ]; static int nall; static int nt = 1, policy, nfree, ndec, ncre, inpar;
void vs_omp_config(int threads, int pol, int free_) { nt = threads; policy = pol; nfree = free_; }
int vs_omp_decisions(void) { return ndec; }
static int decide(const char* pre, int* ctr, int k, int dflt) { if (*ctr >= nfree) { ++*ctr; return dflt; } char b[8]; b[0] = pre[0]; b[1] = pre[1]; b[2] = (char)('0' + *ctr / 10); b[3] = (char)('0' + *ctr % 10); b[4] = 0; ++*ctr; return (int)vs_choose(b, 0, k - 1); }
static int ready(T* t) { if (t->state != 1) return 0; for (int i = 0; i < t->npred; i++) if (t->pred[i]->state != 3) return 0; return 1; }
static void run(T* t) { T* s = cur; cur = t; t->state = 2; ktask* k = (ktask*)(t + 1); k->routine(0, k); if (t->flags & 8) k->destr(0, k); t->state = 3; t->parent->unfinished--; cur = s; }
static int runone(void) { int idx[MAXQ], k = 0; for (int i = 0; i < nall; i++) if (ready(all[i])) idx[k++] = i; if (!k) return 0; int c = k == 1 ? 0 : decide("sc", &ndec, k, policy == 1 ? k - 1 : 0); run(all[idx[c]]); return 1; }
static void drain(void) { for (;;) { if (!runone()) break; } for (int i = 0; i < nall; i++) vs_check(all[i]->state == 3 || all[i]->state == 2, "task never becomes ready"); }
void* __kmpc_omp_task_alloc(void* loc, int gtid, int flags, size_t sz, size_t ssz, routine_t r) { size_t a = (sz + 15) & ~(size_t)15; T* t = (T*)malloc(sizeof(T) + a + ssz); ktask* k = (ktask*)(t + 1); t->parent = cur; t->npred = t->unfinished = t->ndep = 0; t->state = 0; t->flags = flags; t->dep = 0; k->shareds = ssz ? (char*)k + a : 0; k->routine = r; k->part = 0; k->destr = 0; k->d2 = 0; return k; }
static int enqueue(ktask* k, int ndep, kdep* dep) { T* t = (T*)k - 1; vs_check(nall < MAXQ, "task table"); t->ndep = ndep; if (ndep) { t->dep = (kdep*)malloc(ndep * sizeof(kdep)); for (int i = 0; i < ndep; i++) t->dep[i] = dep[i]; }
  for (int i = 0; i < nall; i++) { T* p = all[i]; if (p->parent != cur || p->state == 3) continue; int c = 0; for (int a = 0; a < p->ndep; a++) for (int b = 0; b < ndep; b++) if (p->dep[a].base == dep[b].base && ((p->dep[a].flags | dep[b].flags) & 2)) c = 1; if (c) { vs_check(t->npred < MAXP, "dependence table"); t->pred[t->npred++] = p; } }
  t->state = 1; cur->unfinished++; all[nall++] = t; if (ready(t) && decide("sn", &ncre, 2, policy == 2)) run(t); return 0; }
int __kmpc_omp_task(void* loc, int gtid, ktask* k) { return enqueue(k, 0, 0); }
int __kmpc_omp_task_with_deps(void* loc, int gtid, ktask* k, int n, kdep* d, int n2, void* d2) { return enqueue(k, n, d); }
void __kmpc_omp_task_begin_if0(void* loc, int gtid, ktask* k) { T* t = (T*)k - 1; cur->unfinished++; t->state = 2; cur = t; }
void __kmpc_omp_task_complete_if0(void* loc, int gtid, ktask* k) { T* t = (T*)k - 1; t->state = 3; t->parent->unfinished--; cur = t->parent; }
void __kmpc_omp_wait_deps(void* loc, int gtid, int n, kdep* d, int n2, void* d2) { while (cur->unfinished) vs_check(runone(), "deadlock in wait_deps"); }
int __kmpc_omp_taskwait(void* loc, int gtid) { while (cur->unfinished) { int r = runone(); vs_check(r, "deadlock in taskwait"); if (!r) break; } return 0; }
int __kmpc_omp_taskyield(void* loc, int gtid, int e) { return 0; }
void __kmpc_taskgroup(void* l, int g) {} void __kmpc_end_taskgroup(void* l, int g) { drain(); }
void __kmpc_barrier(void* l, int g) { drain(); }
int __kmpc_single(void* l, int g) { return 1; } void __kmpc_end_single(void* l, int g) {}
int __kmpc_master(void* l, int g) { return 1; } void __kmpc_end_master(void* l, int g) {}
void __kmpc_critical(void* l, int g, void* c) {} void __kmpc_end_critical(void* l, int g, void* c) {}
void __kmpc_push_num_threads(void* l, int g, int n) {} void __kmpc_flush(void* l) {}
void __kmpc_serialized_parallel(void* l, int g) {} void __kmpc_end_serialized_parallel(void* l, int g) {}
int __kmpc_global_thread_num(void* l) { return 0; }
typedef void (*micro_t)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*);
void vs_kmpc_fork(void* loc, int argc, micro_t f, void* a0, void* a1, void* a2, void* a3, void* a4, void* a5, void* a6, void* a7, void* a8, void* a9, void* a10, void* a11, void* a12, void* a13, void* a14) {
  int g = 0, b = 0, was = inpar; inpar = 1;
#define C(n, ...) case n: ((void (*)())f)(&g, &b, ##__VA_ARGS__); break;
  switch (argc) {
#ifdef VS_NATIVE
    default: f(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
#else
    case 0: ((void (*)(int*, int*))f)(&g, &b); break; case 1: ((void (*)(int*, int*, void*))f)(&g, &b, a0); break; case 2: ((void (*)(int*, int*, void*, void*))f)(&g, &b, a0, a1); break; case 3: ((void (*)(int*, int*, void*, void*, void*))f)(&g, &b, a0, a1, a2); break;
    case 4: ((void (*)(int*, int*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3); break; case 5: ((void (*)(int*, int*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4); break; case 6: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5); break;
    case 7: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6); break; case 8: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7); break;
    case 9: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8); break; case 10: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); break;
    case 11: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); break; case 12: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); break;
    case 13: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12); break; case 14: ((void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*))f)(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); break;
    default: vs_check(argc == 15, "parallel region with too many captured variables for the model"); f(&g, &b, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
#endif
  }
  drain(); inpar = was; }
#ifdef VS_NATIVE
void __kmpc_fork_call(void* loc, int argc, micro_t f, ...) { void* a[15] = {0}; va_list ap; va_start(ap, f); for (int i = 0; i < argc && i < 15; i++) a[i] = va_arg(ap, void*); va_end(ap); vs_kmpc_fork(loc, argc, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14]); }
#endif
/* worksharing loops: one thread, one iteration at a time, ascending or descending */
static int64_t dlo, dhi;
void __kmpc_dispatch_init_8u(void* l, int g, int s, uint64_t lb, uint64_t ub, int64_t st, int64_t ch) { dlo = (int64_t)lb; dhi = (int64_t)ub; } void __kmpc_dispatch_init_8(void* l, int g, int s, int64_t lb, int64_t ub, int64_t st, int64_t ch) { dlo = lb; dhi = ub; } void __kmpc_dispatch_init_4u(void* l, int g, int s, uint32_t lb, uint32_t ub, int st, int ch) { dlo = lb; dhi = ub; } void __kmpc_dispatch_init_4(void* l, int g, int s, int lb, int ub, int st, int ch) { dlo = lb; dhi = ub; }
static int nxt(int64_t* i) { if (dlo > dhi) return 0; *i = policy == 1 ? dhi-- : dlo++; return 1; }
int __kmpc_dispatch_next_8u(void* l, int g, int* last, uint64_t* lb, uint64_t* ub, int64_t* st) { int64_t i; if (!nxt(&i)) return 0; *last = dlo > dhi; *lb = *ub = i; *st = 1; return 1; } int __kmpc_dispatch_next_8(void* l, int g, int* last, int64_t* lb, int64_t* ub, int64_t* st) { return __kmpc_dispatch_next_8u(l, g, last, (uint64_t*)lb, (uint64_t*)ub, st); }
int __kmpc_dispatch_next_4u(void* l, int g, int* last, uint32_t* lb, uint32_t* ub, int* st) { int64_t i; if (!nxt(&i)) return 0; *last = dlo > dhi; *lb = *ub = (uint32_t)i; *st = 1; return 1; } int __kmpc_dispatch_next_4(void* l, int g, int* last, int* lb, int* ub, int* st) { return __kmpc_dispatch_next_4u(l, g, last, (uint32_t*)lb, (uint32_t*)ub, st); }
#define SI(n, ty) void __kmpc_for_static_init_##n(void* l, int g, int s, int* last, ty* lb, ty* ub, void* st, ty inc, ty ch) { *last = 1; }
SI(4, int) SI(4u, unsigned) SI(8, int64_t) SI(8u, uint64_t)
void __kmpc_for_static_fini(void* l, int g) {}
int __kmpc_reduce(void* l, int g, int n, size_t s, void* d, void* f, void* lk) { return 1; } int __kmpc_reduce_nowait(void* l, int g, int n, size_t s, void* d, void* f, void* lk) { return 1; } void __kmpc_end_reduce(void* l, int g, void* lk) {} void __kmpc_end_reduce_nowait(void* l, int g, void* lk) {}
int omp_get_num_threads(void) { return inpar ? nt : 1; } int omp_get_max_threads(void) { return nt; } int omp_get_thread_num(void) { return 0; } int omp_in_parallel(void) { return inpar; } int omp_get_num_procs(void) { return nt; } int omp_get_level(void) { return inpar; } void omp_set_num_threads(int n) {} void omp_set_nested(int n) {} void omp_set_dynamic(int n) {} double omp_get_wtime(void) { return 0; }
