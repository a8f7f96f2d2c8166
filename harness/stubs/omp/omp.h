// Stand-in for the OpenMP runtime (libomp is not installed here). The compiler outlines the parallel regions of the real
// headers as usual (-fopenmp); this provides the entry points it calls, with every scheduling decision arbitrary:
// how many threads run (1 to VP_OMP_THREADS), in which order, and how the iterations of a loop are divided among them.
// Threads run one after another (a region without synchronisation inside and without data races behaves like some such
// order; races are looked for by the harnesses, see vp_race_*).
#pragma once
#include <cstdint>
#include "vp.h"
#ifndef VP_OMP_THREADS
#define VP_OMP_THREADS 3
#endif
static int vp_thread, vp_nthreads = 1, vp_req_threads; static bool vp_in_par;
static int vp_cut_set, vp_loops[VP_OMP_THREADS], vp_cuts_n; static std::uint64_t vp_cuts[4][VP_OMP_THREADS + 1]; static bool vp_disp_on[VP_OMP_THREADS]; static std::uint64_t vp_disp[VP_OMP_THREADS][2];
extern "C" {
typedef void (*vp_microtask)(int *, int *, void *, void *, void *, void *, void *, void *, void *, void *);
inline int omp_get_thread_num() { return vp_thread; }
inline int omp_get_num_threads() { return vp_nthreads; }
inline int omp_get_max_threads() { return VP_OMP_THREADS; }
inline int omp_in_parallel() { return vp_in_par; }
inline void omp_set_num_threads(int n) {}
int __kmpc_global_thread_num(void *) { return vp_thread; }
void __kmpc_push_num_threads(void *, int, int n) { vp_req_threads = n; }
void __kmpc_barrier(void *, int) {}
int __kmpc_master(void *, int) { return vp_thread == 0; }
void __kmpc_end_master(void *, int) {}
int __kmpc_single(void *, int) { return vp_thread == 0; }
void __kmpc_end_single(void *, int) {}
void __kmpc_critical(void *, int, void *) {}
void __kmpc_end_critical(void *, int, void *) {}
void __kmpc_fork_call(void *loc, int n, void *fn, void *a, void *b, void *c, void *d, void *e, void *f, void *g, void *h) {
	if (vp_in_par) { int t = vp_thread; int z = 0; ((vp_microtask)fn)(&z, &z, a, b, c, d, e, f, g, h); return; } // nested: one thread
	vp_in_par = true; vp_cuts_n = 0;
	vp_nthreads = 1; for (int i = 1; i < VP_OMP_THREADS; i++) if (vp_nondet(910001, 1) & 1) vp_nthreads++;
	for (int i = 0; i < VP_OMP_THREADS; i++) { vp_loops[i] = 0; vp_disp_on[i] = false; }
	bool rev = vp_nondet(910002, 1) & 1; // the order matters only to the harness' own bookkeeping; forwards and backwards
	for (int i = 0; i < vp_nthreads; i++) { int t = rev ? vp_nthreads - 1 - i : i; vp_thread = t; int gt = t, bt = t; ((vp_microtask)fn)(&gt, &bt, a, b, c, d, e, f, g, h); }
	vp_thread = 0; vp_nthreads = 1; vp_in_par = false;
}
void __kmpc_fork_call_if(void *loc, int n, void *fn, int cond, void *a) { if (cond) __kmpc_fork_call(loc, n, fn, a, 0, 0, 0, 0, 0, 0, 0); else { int z = 0; ((vp_microtask)fn)(&z, &z, a, 0, 0, 0, 0, 0, 0, 0); } }
void __kmpc_serialized_parallel(void *, int) {}
void __kmpc_end_serialized_parallel(void *, int) {}
}
// iterations lb..ub (inclusive, unit stride), cut into vp_nthreads contiguous parts at arbitrary places
static bool vp_part(int t, std::uint64_t lb, std::uint64_t ub, std::uint64_t &l, std::uint64_t &u) {
	int k = vp_loops[t]++;
	if (!vp_in_par) { l = lb; u = ub; return true; }
	if (k == vp_cuts_n) { vp_cuts_n++; std::uint64_t n = ub + 1 - lb, c = 0; vp_cuts[k][0] = 0;
		for (int i = 1; i < vp_nthreads; i++) { std::uint64_t d = vp_nondet(910003, 3); vp_assume(c <= d); vp_assume(d <= n); d = vp_case(d); c = d; vp_cuts[k][i] = c; }
		vp_cuts[k][vp_nthreads] = n; }
	if (vp_cuts[k][t] == vp_cuts[k][t + 1]) { l = ub + 1; u = ub; return false; } // nothing for this thread
	l = lb + vp_cuts[k][t]; u = lb + vp_cuts[k][t + 1] - 1; return true;
}
#define VP_STATIC_INIT(sfx, T, S) \
extern "C" void __kmpc_for_static_init_##sfx(void *, int gtid, int sched, int *last, T *lo, T *up, S *stride, S incr, S chunk) { \
	sched &= ~((1 << 29) | (1 << 30)); T n = *up; \
	if (sched == 33) { *stride = (S)(vp_nthreads * chunk); *lo += (T)(vp_thread * chunk); *up = *lo + (T)chunk - 1; *last = 1; return; } \
	std::uint64_t l, u; vp_part(vp_thread, (std::uint64_t)*lo, (std::uint64_t)*up, l, u); *lo = (T)l; *up = (T)u; *stride = (S)(n + 1); *last = (u == (std::uint64_t)n); } \
extern "C" void __kmpc_dispatch_init_##sfx(void *, int gtid, int sched, T lo, T up, S st, S chunk) { vp_disp_on[vp_thread] = vp_part(vp_thread, (std::uint64_t)lo, (std::uint64_t)up, vp_disp[vp_thread][0], vp_disp[vp_thread][1]); } \
extern "C" int __kmpc_dispatch_next_##sfx(void *, int gtid, int *last, T *lo, T *up, S *st) { if (!vp_disp_on[vp_thread]) return 0; vp_disp_on[vp_thread] = false; *lo = (T)vp_disp[vp_thread][0]; *up = (T)vp_disp[vp_thread][1]; *st = 1; *last = 1; return 1; } \
extern "C" void __kmpc_dispatch_fini_##sfx(void *, int) {}
VP_STATIC_INIT(4, std::int32_t, std::int32_t)
VP_STATIC_INIT(4u, std::uint32_t, std::int32_t)
VP_STATIC_INIT(8, std::int64_t, std::int64_t)
VP_STATIC_INIT(8u, std::uint64_t, std::int64_t)
extern "C" void __kmpc_for_static_fini(void *, int) {}
