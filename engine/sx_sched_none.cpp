#include "sx.h"
#include "sx_sched.h"
void sx_sched_begin() {}
void sx_sched_finish() {}
extern "C" void sx_thread(void (*fn)(void *), void *arg) { fn(arg); }
extern "C" void sx_join(void) {}
extern "C" int omp_get_num_threads(void) { return 1; }
extern "C" int omp_get_thread_num(void) { return 0; }
extern "C" int omp_get_max_threads(void) { return 1; }
extern "C" int omp_get_num_procs(void) { return 1; }
extern "C" int omp_in_parallel(void) { return 0; }
extern "C" void omp_set_num_threads(int) {}
