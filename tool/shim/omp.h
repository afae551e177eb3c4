// Minimal declarations of the OpenMP runtime API (clang's own omp.h is not installed). Analysis only.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int _x[4]; } omp_lock_t; typedef struct { int _x[8]; } omp_nest_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_num_procs(void);
void omp_set_num_threads(int); int omp_in_parallel(void); void omp_set_nested(int); int omp_get_nested(void); void omp_set_dynamic(int); int omp_get_dynamic(void);
int omp_get_thread_limit(void); double omp_get_wtime(void); double omp_get_wtick(void); int omp_get_level(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
