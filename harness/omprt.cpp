// OpenMP runtime entry points for the P30 encoding: one thread walks all iterations while their footprints are recorded (engine/omptrack.hpp).
#include "se.hpp"
extern "C" {
void __se_iter_begin(); void __se_iter_end(); void __se_barrier(); void __se_lock(void*); void __se_unlock(void*); void __se_fork(const char*); long __se_join(); void __se_reduced(void*, long);
int __se_tid = 0;
void __kmpc_for_static_init_4(void*, int, int, int* last, int* lo, int* up, int* st, int, int) { *last = 1; *st = *up-*lo+1; }
void __kmpc_for_static_init_4u(void*, int, int, int* last, unsigned* lo, unsigned* up, int* st, int, int) { *last = 1; *st = (int)(*up-*lo+1); }
void __kmpc_for_static_init_8(void*, int, int, int* last, long* lo, long* up, long* st, long, long) { *last = 1; *st = *up-*lo+1; }
void __kmpc_for_static_init_8u(void*, int, int, int* last, unsigned long* lo, unsigned long* up, long* st, long, long) { *last = 1; *st = (long)(*up-*lo+1); }
void __kmpc_for_static_fini(void*, int) {}
static long d_lo, d_up; static int d_left;
void __kmpc_dispatch_init_4(void*, int, int, int lo, int up, int, int) { d_lo = lo; d_up = up; d_left = 1; }
int __kmpc_dispatch_next_4(void*, int, int* last, int* lo, int* up, int* st) { if (!d_left) return 0; d_left = 0; *last = 1; *lo = (int)d_lo; *up = (int)d_up; *st = 1; return d_lo <= d_up; }
void __kmpc_dispatch_init_8(void*, int, int, long lo, long up, long, long) { d_lo = lo; d_up = up; d_left = 1; }
int __kmpc_dispatch_next_8(void*, int, int* last, long* lo, long* up, long* st) { if (!d_left) return 0; d_left = 0; *last = 1; *lo = d_lo; *up = d_up; *st = 1; return d_lo <= d_up; }
void __kmpc_dispatch_init_4u(void*, int, int, unsigned lo, unsigned up, int, int) { d_lo = lo; d_up = up; d_left = 1; }
int __kmpc_dispatch_next_4u(void*, int, int* last, unsigned* lo, unsigned* up, int* st) { if (!d_left) return 0; d_left = 0; *last = 1; *lo = (unsigned)d_lo; *up = (unsigned)d_up; *st = 1; return d_lo <= d_up; }
void __kmpc_dispatch_init_8u(void*, int, int, unsigned long lo, unsigned long up, long, long) { d_lo = (long)lo; d_up = (long)up; d_left = 1; }
int __kmpc_dispatch_next_8u(void*, int, int* last, unsigned long* lo, unsigned long* up, long* st) { if (!d_left) return 0; d_left = 0; *last = 1; *lo = (unsigned long)d_lo; *up = (unsigned long)d_up; *st = 1; return d_lo <= d_up; }
void __kmpc_barrier(void*, int) { __se_barrier(); }
int __kmpc_cancel_barrier(void*, int) { __se_barrier(); return 0; }
void __kmpc_critical(void*, int, void* l) { __se_lock(l); }
void __kmpc_critical_with_hint(void*, int, void* l, unsigned) { __se_lock(l); }
void __kmpc_end_critical(void*, int, void* l) { __se_unlock(l); }
static int red(void* data, int n, long size, void* l) { for (int i = 0; i < n; i++) __se_reduced(((void**)data)[i], 8); (void)size; __se_lock(l); return 1; }
int __kmpc_reduce(void*, int, int n, long size, void* data, void*, void* l) { return red(data, n, size, l); }
int __kmpc_reduce_nowait(void*, int, int n, long size, void* data, void*, void* l) { return red(data, n, size, l); }
void __kmpc_end_reduce(void*, int, void* l) { __se_unlock(l); }
void __kmpc_end_reduce_nowait(void*, int, void* l) { __se_unlock(l); }
int __kmpc_single(void*, int) { __se_iter_begin(); return 1; }
void __kmpc_end_single(void*, int) { __se_iter_end(); }
int __kmpc_master(void*, int) { __se_iter_begin(); return 1; }
void __kmpc_end_master(void*, int) { __se_iter_end(); }
int __kmpc_masked(void*, int, int) { __se_iter_begin(); return 1; }
void __kmpc_end_masked(void*, int) { __se_iter_end(); }
int __kmpc_global_thread_num(void*) { return 0; }
void __kmpc_push_num_threads(void*, int, int) {}
void __kmpc_flush(void*) {}
int omp_get_max_threads() { return 1; }
int omp_get_num_threads() { return 1; }
int omp_get_thread_num() { return 0; }
void omp_set_num_threads(int) {}
int omp_in_parallel() { return 0; }
int omp_get_num_procs() { return 1; }
double omp_get_wtime() { return 0; }
void __se_joined(const char* label) { se_assert(__se_join() == 0, label); }
}
