#ifndef SE_OMP_H
#define SE_OMP_H
extern "C" { int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); double omp_get_wtime(); int omp_in_parallel(); int omp_get_num_procs(); }
#endif
