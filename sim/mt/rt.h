// Simulated threads at memory-access granularity: own runtime behind the
// compiler's thread-sanitizer callbacks and behind the OpenMP entry points.
#ifndef SIM_MT_RT_H
#define SIM_MT_RT_H
#include "core.h"
namespace mt {
// Run the tasks as threads of one process. acc_mean: mean number of
// instrumented memory accesses between preemptions (0: none).
void run_threads(const std::vector<std::function<void()>>& tasks, uint32_t acc_mean, const char* what);
// OpenMP: threads the runtime announces and actually grants to a region
extern int omp_max, omp_granted;
extern uint32_t omp_acc_mean;
extern uint64_t n_accesses, n_regions, n_chunks;
void reset();
}
#endif
