#ifndef OMP_STUB_H
#define OMP_STUB_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void);
void omp_set_num_threads(int); int omp_get_nested(void); void omp_set_nested(int); double omp_get_wtime(void); int omp_in_parallel(void); int omp_get_num_procs(void);
#ifdef __cplusplus
}
#endif
#endif
