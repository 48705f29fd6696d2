// Deterministic simulator for virg-nexus: choice tape, simulated processes,
// in-memory file system, fault plans, violation reporting.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <csetjmp>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choice tape
// Every decision of a run goes through choose(): one seed (or one recorded
// tape) is one exactly repeatable run. Value 0 is always the simplest choice.
uint32_t choose(uint32_t n);                   // uniform in [0,n); n==0 -> 0
bool     chance(uint32_t num, uint32_t den);   // true with probability num/den
int      range(int lo, int hi);                // uniform in [lo,hi], 0 on the tape = lo
uint64_t bits64();                             // full-entropy word (two tape entries)
// Biased towards small values, reaches up to max.
uint32_t small(uint32_t max);

// Cheap derived stream for bulk payload bytes (seeded from the tape).
struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
        uint64_t next() {
                uint64_t z = (s += 0x9E3779B97F4A7C15ull);
                z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
                return z ^ (z >> 31);
        }
        uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
        double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};

// -------------------------------------------------------------------- faults
enum Kind {
        K_OPEN_FAIL = 0,    // fopen/fdopen/tmpfile/mkstemp fails
        K_READ_EIO,         // read() fails with EIO
        K_READ_EOF,         // read() reports premature end of file
        K_WRITE_EIO,        // write() fails with EIO, nothing of the chunk stored
        K_WRITE_ENOSPC,     // write() stores a prefix, then ENOSPC (disk full, sticky)
        K_CLOSE_FAIL,       // close() fails (deferred write error: last chunk lost)
        K_ALLOC_FAIL,       // one allocation fails
        K_ALLOC_STICKY,     // this and all later allocations fail
        K_DIR_FAIL,         // opendir/scandir/mkdir/rename/unlink fails
        K_CRASH,            // process dies at this I/O step (stdio buffers lost)
        K_PIPE_FAIL,        // popen fails / peer closed the pipe
        K_CLOCK_JUMP,       // wall clock jumps at this read of the clock
        K_SHORT_READ,       // (soft) read() returns fewer bytes than asked
        K_SHORT_WRITE,      // (soft) write() split into several kernel writes
        K_PREEMPT,          // (soft) scheduler switched task here
        K_MOVE_REALLOC,     // (soft) realloc moved the block
        K_TRUNC,            // input truncated / corrupted by the scenario
        K_RAND,             // (soft) random generator produced extreme words
        NKINDS
};
extern const char* const kind_name[NKINDS];

// Event classes that faults attach to (counters are per op).
enum Ev { E_OPEN, E_READ, E_WRITE, E_CLOSE, E_ALLOC, E_DIR, E_IO /*any I/O step*/,
          E_PIPE, E_CLOCK, NEVS };

struct Fault { Kind kind; uint32_t nth; int err; };
struct Plan {
        std::vector<Fault> faults;
        bool empty() const { return faults.empty(); }
        static Plan none() { return Plan(); }
        static Plan one(Kind k, uint32_t nth, int err = 0) { Plan p; p.faults.push_back({k, nth, err}); return p; }
        std::string str() const;
};
// Draw a plan: number of faults, kinds out of `kinds`, position within the
// event counts `ev` measured on a fault-free execution of the same op.
Plan draw_plan(const std::vector<Kind>& kinds, const uint32_t* ev, int max_faults = 2);

struct OpResult {
        enum How { RETURNED = 0, EXITED = 1, CRASHED = 2 } how = RETURNED;
        int code = 0;
        uint32_t fired[NKINDS] = {0};
        uint32_t ev[NEVS] = {0};
        uint32_t hard = 0;          // hard faults fired
        size_t leaked_allocs = 0, leaked_bytes = 0;
        size_t leaked_files = 0, leaked_dirs = 0;
        std::string leak_info;
        bool ok() const { return how == RETURNED; }
        bool fatal() const { return how == EXITED; }
};

// Execute f as (part of) a simulated process: faults from plan, exit() and
// process death return here. f must not hold live objects with destructors
// across calls into the library.
OpResult run_op(const char* name, const Plan& plan, const std::function<void()>& f);
// Fault-free run whose failure is itself a violation (class "<name>:unexpected-exit").
OpResult run_clean(const char* name, const std::function<void()>& f);

// --------------------------------------------------------------- environment
struct Knobs {
        bool chunked_io = false;     // short reads / odd stdio buffer sizes
        uint64_t chunk_seed = 0;
        bool junk_fill = true;       // fresh memory is filled with seeded junk
        uint64_t junk_seed = 0;
        bool move_realloc = true;    // realloc always moves
        size_t alloc_cap = (size_t)256 << 20; // larger requests fail (like a real OOM)
        uint32_t rand_extremes = 0;  // about this many of 624 words of each generator refill are extreme values
        uint64_t rand_seed = 0;
        bool tty = false;            // stderr is a terminal
        int64_t wall0 = 1700000000;  // wall clock at start
        bool same_second = false;    // time() stays at wall0: everything happens within one second
};
Knobs& knobs();
void draw_knobs();                  // randomise the environment from the tape

// In-memory file system
struct Node { bool dir = false; bool unreadable = false; bool readonly = false; int mode = 0755; std::string data; };
typedef std::map<std::string, std::shared_ptr<Node>> Tree;
Tree& vfs();
std::string vfs_norm(const std::string& p);
void vfs_mkdir(const std::string& p);
void vfs_put(const std::string& p, const std::string& data);
bool vfs_has(const std::string& p);
bool vfs_is_dir(const std::string& p);
std::string vfs_get(const std::string& p);
std::vector<std::string> vfs_list(const std::string& dir);
uint64_t vfs_hash();
void vfs_clear();

// stdout/stderr of the simulated process
std::string& sim_stderr();
std::string& sim_stdout();
// text received by simulated pipes (popen), in creation order
struct Pipe { std::string cmd; std::string data; bool closed = false; bool reaped = false; int status = 0; bool broken = false; };
std::vector<std::shared_ptr<Pipe>>& pipes();

void break_stderr(bool b);          // stderr refuses all output (closed terminal, full disk)
size_t live_allocs();
size_t live_alloc_bytes();
size_t open_files();

// ------------------------------------------------------------------- threads
// Run the tasks as simulated threads (or processes): exactly one runs at a
// time, switches happen only at seam events, decided by the tape.
void run_tasks(const std::vector<std::function<void()>>& tasks, uint32_t mean_quantum);
int  task_id();
void yield_point();                 // explicit scheduling point
// memory-access granularity (mt variant)
void set_access_mean(uint32_t mean); // preempt about every mean accesses, 0: never
void access_point(bool force);
void switch_away();                  // let the next runnable task run (no choice)
bool is_sched_mutex(const void* m);
void set_mem_hook(void (*f)(void*, size_t));  // blocks handed out and taken back
void set_region(struct Proc* p);     // tasks are threads of process p (nullptr: processes of their own)
void region_exit_check();            // ends p if one of its threads called exit()
void set_root(int n);                // files of this task live under /t<n> (0: /)

// ---------------------------------------------------------------- reporting
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace a step
void note_kind(Kind k);                                               // scenario-level fault accounting
void hash_mix(uint64_t v);                                            // outcome hash
void hash_bytes(const void* p, size_t n);
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);       // sometimes-reached condition (coverage)
bool tracing();

struct Check {
        const char* id;
        void (*run)();
        const char* rule;
        uint32_t quick_runs, thorough_runs;
};
void register_check(const Check& c);
struct Reg { Reg(const Check& c) { register_check(c); } };

// ----------------------------------------------- shared between core & seams
struct Proc {
        sigjmp_buf jb;
        bool in_op = false;
        const char* opname = "";
        Plan plan;
        uint32_t ev[NEVS] = {0};
        uint32_t fired[NKINDS] = {0};
        uint32_t hard = 0;
        bool disk_full = false;
        bool alloc_dead = false;
        int exit_code = 0;
        uint64_t op_serial = 0;
        int id = 0;
};
Proc* cur();
void reset_run();
// true if a fault of this kind is due now (and records it).
bool fault_due(Kind k, Ev e, int* err = nullptr);
void step(Ev e, const char* what, const char* arg, long v);  // seam event
extern uint64_t g_sim_ns;
}  // namespace sim

#define V(cls, ...) sim::violate(cls, __VA_ARGS__)
#endif
