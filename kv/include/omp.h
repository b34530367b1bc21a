/* Declarations only: lets clang parse the OpenMP users without libomp installed. */
#ifndef KV_OMP_H
#define KV_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int);
int omp_get_num_procs(void);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
