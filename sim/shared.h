#ifndef SIM_SHARED_H
#define SIM_SHARED_H
#include "core.h"
namespace sim {
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3 };
enum { TAPE_CAP = 65536, TRACE_CAP = 32768, NPROBES = 48 };
struct RunShared {
        int status;
        char cls[160];
        char msg[2048];
        char cur_op[96];
        uint64_t hash, sched_hash;
        uint32_t ntape, ntrace;
        uint32_t fired[NKINDS];
        uint64_t n_ops, n_events, sim_ns;
        struct { char name[40]; uint32_t n; } probes[NPROBES];
        uint32_t tape[TAPE_CAP];
        char trace[TRACE_CAP];
};
extern RunShared* g_rs;
}
#endif
