// Minimal OpenMP API declarations for the bitcode build (the engine models the runtime).
#ifndef SX_OMP_H
#define SX_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void);
void omp_set_num_threads(int); int omp_in_parallel(void); int omp_get_num_procs(void); double omp_get_wtime(void);
typedef struct { void *p; } omp_lock_t;
void omp_init_lock(omp_lock_t *); void omp_destroy_lock(omp_lock_t *); void omp_set_lock(omp_lock_t *); void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
