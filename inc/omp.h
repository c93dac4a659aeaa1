#ifndef VERIF_OMP_H
#define VERIF_OMP_H
/* minimal declarations: clang here has no omp.h of its own */
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void* p; } omp_lock_t;
typedef struct { void* p; void *q; } omp_nest_lock_t;
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void);
void omp_set_num_threads(int); int omp_get_num_procs(void); int omp_in_parallel(void);
void omp_set_nested(int); int omp_get_nested(void); void omp_set_dynamic(int); int omp_get_dynamic(void);
double omp_get_wtime(void); double omp_get_wtick(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
int omp_get_level(void); int omp_get_thread_limit(void);
#ifdef __cplusplus
}
#endif
#endif
