#include "rt.h"
#include "shared.h"
#include <dlfcn.h>
#include <locale.h>
#include <time.h>
#include <new>
#include <pthread.h>
#include <unordered_map>
#include <algorithm>
#include <stdio.h>
#include <jpeglib.h>
#include <png.h>

using namespace sim;
extern "C" { extern char __data_start, _end; void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*); }

namespace mt {
int omp_max = 1, omp_granted = 1;
uint32_t omp_acc_mean = 200;
uint64_t n_accesses = 0, n_regions = 0, n_chunks = 0;

// ------------------------------------------------------------ happens-before
enum { MAXT = 5 };
struct VC { uint16_t c[MAXT]; };
struct Cell { uint64_t pc; uint16_t w; uint16_t wt; uint16_t r[MAXT]; };
struct Page { Cell c[4096]; };
static std::unordered_map<uintptr_t, Page*>* g_pages;
static VC g_vc[MAXT];
static std::unordered_map<uintptr_t, VC>* g_sync;
static bool g_active = false;
static const char* g_what = "";
static thread_local bool t_rt = false;
static thread_local char *t_stack_lo = nullptr, *t_stack_hi = nullptr;
static uint32_t g_hot_left;
static uintptr_t g_last_key; static Page* g_last_page;

static void shadow_clear_all() {
        if (!g_pages) { g_pages = new std::unordered_map<uintptr_t, Page*>; g_sync = new std::unordered_map<uintptr_t, VC>; }
        for (auto& p : *g_pages) __real_free(p.second);
        g_pages->clear();
        g_sync->clear();
        g_last_page = nullptr;
        memset(g_vc, 0, sizeof g_vc);
        for (int i = 0; i < MAXT; ++i) g_vc[i].c[i] = 1;
}
static Page* page(uintptr_t a, bool make) {
        uintptr_t k = a >> 12;
        if (g_last_page && g_last_key == k) return g_last_page;
        auto it = g_pages->find(k);
        Page* p;
        if (it != g_pages->end()) p = it->second;
        else {
                if (!make) return nullptr;
                p = (Page*)__real_calloc(1, sizeof(Page));
                (*g_pages)[k] = p;
        }
        g_last_key = k; g_last_page = p;
        return p;
}
// memory changed hands through the allocator: what happened before is ordered
static void on_mem(void* q, size_t n) {
        if (!g_active || t_rt || !q) return;
        t_rt = true;
        uintptr_t a = (uintptr_t)q, e = a + n;
        while (a < e) {
                uintptr_t pe = (a | 4095) + 1;
                size_t m = std::min(pe, e) - a;
                if (Page* p = page(a, false)) memset(&p->c[a & 4095], 0, m * sizeof(Cell));
                a += m;
        }
        t_rt = false;
}
static const char* sym(uint64_t pc, char* b, size_t n) {
        Dl_info i;
        if (dladdr((void*)pc, &i) && i.dli_sname) snprintf(b, n, "%s", i.dli_sname); else snprintf(b, n, "0x%lx", (unsigned long)pc);
        return b;
}
[[noreturn]] static void race(const char* how, uintptr_t a, int other, uint64_t opc, uint64_t pc) {
        char s1[128], s2[128] = "an earlier read", cls[300];
        sym(pc, s1, sizeof s1);
        if (opc) sym(opc, s2, sizeof s2);
        bool glob = a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
        char gs[128] = "";
        if (glob) sym(a, gs, sizeof gs);
        snprintf(cls, sizeof cls, "data-race@%s", g_what);
        V(cls, "%s: thread %d in %s and thread %d in %s touch the same %s%s%s without ordering", how, task_id(), s1, other, s2, glob ? "static variable" : "memory", glob ? " " : "", gs);
}
static inline void access(const void* p, size_t n, bool wr, uint64_t pc) {
        if (!g_active || t_rt) return;
        int t = task_id();
        if (t < 0) return;
        const char* c = (const char*)p;
        if (c >= t_stack_lo && c < t_stack_hi) return;
        t_rt = true;
        ++n_accesses;
        bool hot = wr && c >= &__data_start && c < &_end;
        if (hot && g_hot_left) { --g_hot_left; access_point(choose(3) == 2); } else access_point(false);
        VC& me = g_vc[t];
        uintptr_t a = (uintptr_t)p, e = a + n;
        while (a < e) {
                Page* pg = page(a, true);
                uintptr_t pe = std::min((a | 4095) + 1, e);
                for (; a < pe; ++a) {
                        Cell& k = pg->c[a & 4095];
                        if (k.w && k.wt != t && k.w > me.c[k.wt]) race(wr ? "write after write" : "read after write", a, k.wt, k.pc, pc);
                        if (wr) {
                                for (int u = 0; u < MAXT; ++u) if (u != t && k.r[u] > me.c[u]) race("write after read", a, u, 0, pc);
                                k.w = me.c[t]; k.wt = (uint16_t)t; k.pc = pc;
                        } else k.r[t] = me.c[t];
                }
        }
        t_rt = false;
}
static void acquire(uintptr_t key) {
        int t = task_id();
        if (!g_active || t < 0) return;
        auto it = g_sync->find(key);
        if (it != g_sync->end()) for (int i = 0; i < MAXT; ++i) g_vc[t].c[i] = std::max(g_vc[t].c[i], it->second.c[i]);
}
static void release(uintptr_t key) {
        int t = task_id();
        if (!g_active || t < 0) return;
        VC& v = (*g_sync)[key];
        for (int i = 0; i < MAXT; ++i) v.c[i] = std::max(v.c[i], g_vc[t].c[i]);
        if (g_vc[t].c[t] < 0xfff0) ++g_vc[t].c[t];
}
static inline void atomic_op(const volatile void* p) {
        if (!g_active || t_rt || task_id() < 0) return;
        t_rt = true;
        access_point(false);
        acquire((uintptr_t)p); release((uintptr_t)p);
        t_rt = false;
}
template <class F> static void wait_until(const char* what, F f) {
        for (uint32_t n = 0; !f(); ++n) {
                if (n > 200000) { char c[100]; snprintf(c, sizeof c, "deadlock@%s", g_what); V(c, "thread %d waits forever at %s", task_id(), what); }
                switch_away();
        }
}

void run_threads(const std::vector<std::function<void()>>& tasks, uint32_t acc_mean, const char* what) {
        t_rt = true;
        shadow_clear_all();
        set_mem_hook(on_mem);
        g_what = what;
        g_hot_left = 600;
        std::vector<std::function<void()>> w;
        for (auto& f : tasks) w.push_back([&f] {
                pthread_attr_t at;
                void* lo; size_t sz;
                pthread_getattr_np(pthread_self(), &at);
                pthread_attr_getstack(&at, &lo, &sz);
                pthread_attr_destroy(&at);
                t_stack_lo = (char*)lo; t_stack_hi = (char*)lo + sz;
                f();
        });
        g_active = true;
        set_access_mean(acc_mean);
        run_tasks(w, 3);
        set_access_mean(0);
        g_active = false;
        shadow_clear_all();
        t_rt = false;
}
void reset() { omp_max = omp_granted = 1; g_active = false; }

// ---------------------------------------------------------------- OpenMP team
struct Loop { bool init = false, ull = false, up = true; long next = 0, end = 0, incr = 1, chunk = 1; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool guided = false; long sec_next = 1, sec_n = 0; bool single_taken = false; };
struct Team { int n = 1; std::vector<Loop> ws; int arrived = 0; unsigned gen = 0; std::map<void*, int> locks; };
static Team* g_team = nullptr;
static thread_local int t_ws = -1;        // work-share construct this thread is in
static thread_local int t_ws_count = 0;
static const uintptr_t KEY_BARRIER = 1, KEY_ATOMIC = 3;

static Loop& ws_enter(Team* t) {
        t_ws = t_ws_count++;
        while ((int)t->ws.size() <= t_ws) t->ws.emplace_back();
        return t->ws[t_ws];
}
static thread_local Team* t_team = nullptr;   // serialised region this thread is in
static Team* team() {
        static thread_local Team solo;    // code outside of any region
        return t_team ? t_team : g_team ? g_team : &solo;
}

static void region(void (*fn)(void*), void* data, unsigned nt, const std::function<void(Loop&)>& init) {
        int want = nt ? (int)nt : omp_max;
        int n = std::min(want, (int)MAXT - 1);
        if (!nt) n = std::min(n, omp_granted);
        Team T;
        ++n_regions;
        if (task_id() >= 0 || n <= 1 || !cur() || !cur()->in_op) {   // nested or serialised
                Team* save = t_team;
                int sw = t_ws, sc = t_ws_count;
                t_ws = -1; t_ws_count = 0;
                t_team = &T;
                if (init) { Loop& l = ws_enter(&T); init(l); l.init = true; }
                fn(data);
                t_team = save;
                t_ws = sw; t_ws_count = sc;
                return;
        }
        T.n = n;
        if (init) { T.ws.emplace_back(); init(T.ws[0]); T.ws[0].init = true; }
        std::vector<std::function<void()>> tasks;
        for (int i = 0; i < n; ++i) tasks.push_back([fn, data, &init] {
                t_ws = -1; t_ws_count = 0;
                if (init) { t_ws = 0; t_ws_count = 1; }
                fn(data);
        });
        g_team = &T;
        op("  parallel region of %d threads", n);
        set_region(cur());
        run_threads(tasks, omp_acc_mean, cur()->opname);
        set_region(nullptr);
        g_team = nullptr;
        region_exit_check();              // a worker called exit(): the process ends here
}
static bool loop_next(long* s, long* e) {
        Team* t = team();
        if (t_ws < 0) return false;
        bool save = t_rt; t_rt = true;
        if (task_id() >= 0) access_point(choose(4) == 3);
        Loop& l = t->ws[t_ws];
        bool more = l.incr > 0 ? l.next < l.end : l.next > l.end;
        if (more) {
                long c = l.chunk > 0 ? l.chunk : 1;
                if (l.guided) { long left = (l.end - l.next) / l.incr / (2 * t->n); c = std::max(c, left); }
                ++n_chunks;
                *s = l.next;
                long nx = l.next + c * l.incr;
                if (l.incr > 0 ? nx > l.end : nx < l.end) nx = l.end;
                *e = l.next = nx;
        }
        t_rt = save;
        return more;
}
static bool uloop_next(unsigned long long* s, unsigned long long* e) {
        Team* t = team();
        if (t_ws < 0) return false;
        bool save = t_rt; t_rt = true;
        if (task_id() >= 0) access_point(choose(4) == 3);
        Loop& l = t->ws[t_ws];
        bool more = l.up ? l.unext < l.uend : l.unext > l.uend;
        if (more) {
                unsigned long long c = l.uchunk ? l.uchunk : 1, left = l.up ? (l.uend - l.unext) / l.uincr : (l.unext - l.uend) / (0 - l.uincr);
                if (l.guided) c = std::max(c, left / (2 * (unsigned)t->n));
                ++n_chunks;
                *s = l.unext;
                l.unext = left <= c ? l.uend : l.unext + c * l.uincr;
                *e = l.unext;
        }
        t_rt = save;
        return more;
}
static void barrier() {
        Team* t = team();
        if (task_id() < 0 || t->n <= 1) return;
        bool save = t_rt; t_rt = true;
        release(KEY_BARRIER);
        unsigned g = t->gen;
        if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; }
        else wait_until("a barrier", [&] { return t->gen != g; });
        acquire(KEY_BARRIER);
        t_rt = save;
}
static void lock(void* k) {
        if (task_id() < 0) return;
        bool save = t_rt; t_rt = true;
        Team* t = team();
        access_point(choose(4) == 3);
        wait_until("a lock", [&] { return t->locks[k] == 0; });
        t->locks[k] = 1 + task_id();
        acquire((uintptr_t)k);
        t_rt = save;
}
static bool trylock(void* k) {
        if (task_id() < 0) return true;
        Team* t = team();
        if (t->locks[k]) return false;
        lock(k);
        return true;
}
static void unlock(void* k) {
        if (task_id() < 0) return;
        bool save = t_rt; t_rt = true;
        release((uintptr_t)k);
        team()->locks[k] = 0;
        t_rt = save;
}
static std::function<void(Loop&)> lp(long s, long e, long i, long c, bool g) { return [=](Loop& l) { l.next = s; l.end = e; l.incr = i; l.chunk = c; l.guided = g; }; }
}  // namespace mt

using namespace mt;
extern "C" {
// ------------------------------------------------------------------- OpenMP
int omp_get_thread_num(void) { return task_id() >= 0 && !t_team && g_team ? task_id() : 0; }
int omp_get_num_threads(void) { return team()->n; }
int omp_get_max_threads(void) { return omp_max; }
int omp_get_num_procs(void) { return omp_max; }
int omp_in_parallel(void) { return g_team && g_team->n > 1; }
void omp_set_num_threads(int n) { omp_max = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 1; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return g_team ? 1 : 0; }
int omp_get_thread_limit(void) { return MAXT - 1; }
double omp_get_wtime(void) { return (double)g_sim_ns * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock(l); }
void omp_unset_lock(void** l) { unlock(l); }
int omp_test_lock(void** l) { return trylock(l); }

void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { region(fn, d, n, nullptr); }
#define PLOOP(name, g) void name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { region(fn, d, n, lp(s, e, i, c, g)); }
PLOOP(GOMP_parallel_loop_static, false)
PLOOP(GOMP_parallel_loop_dynamic, false)
PLOOP(GOMP_parallel_loop_guided, true)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, false)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided, true)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region(fn, d, n, lp(s, e, i, 1, false)); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region(fn, d, n, lp(s, e, i, 1, false)); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region(fn, d, n, lp(s, e, i, 1, false)); }
static bool start(long s, long e, long i, long c, bool g, long* is, long* ie) {
        Loop& l = ws_enter(team());
        if (!l.init) { lp(s, e, i, c, g)(l); l.init = true; }
        return loop_next(is, ie);
}
#define LOOP(k, g) \
        bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* is, long* ie) { return start(s, e, i, c, g, is, ie); } \
        bool GOMP_loop_##k##_next(long* is, long* ie) { return loop_next(is, ie); }
LOOP(static, false)
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)
#define RLOOP(k) \
        bool GOMP_loop_##k##_start(long s, long e, long i, long* is, long* ie) { return start(s, e, i, 1, false, is, ie); } \
        bool GOMP_loop_##k##_next(long* is, long* ie) { return loop_next(is, ie); }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
static bool ustart(bool up, ull s, ull e, ull i, ull c, bool g, ull* is, ull* ie) {
        Loop& l = ws_enter(team());
        if (!l.init) { l.up = up; l.unext = s; l.uend = e; l.uincr = i; l.uchunk = c; l.guided = g; l.init = true; }
        return uloop_next(is, ie);
}
#define ULOOP(k, g) \
        bool GOMP_loop_ull_##k##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return ustart(up, s, e, i, c, g, is, ie); } \
        bool GOMP_loop_ull_##k##_next(ull* is, ull* ie) { return uloop_next(is, ie); }
ULOOP(static, false)
ULOOP(dynamic, false)
ULOOP(guided, true)
ULOOP(nonmonotonic_dynamic, false)
ULOOP(nonmonotonic_guided, true)
void GOMP_loop_end(void) { t_ws = -1; barrier(); }
void GOMP_loop_end_nowait(void) { t_ws = -1; }
void GOMP_barrier(void) { barrier(); }
static char g_crit;
void GOMP_critical_start(void) { lock(&g_crit); }
void GOMP_critical_end(void) { unlock(&g_crit); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start(void) { lock((void*)KEY_ATOMIC); }
void GOMP_atomic_end(void) { unlock((void*)KEY_ATOMIC); }
bool GOMP_single_start(void) { Loop& l = ws_enter(team()); t_ws = -1; if (l.single_taken) return false; l.single_taken = true; return true; }
unsigned GOMP_sections_next(void) { Loop& l = team()->ws[t_ws]; return l.sec_next <= l.sec_n ? (unsigned)l.sec_next++ : 0; }
unsigned GOMP_sections_start(unsigned n) { Loop& l = ws_enter(team()); if (!l.init) { l.sec_n = n; l.init = true; } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { region(fn, d, n, [cnt](Loop& l) { l.sec_n = cnt; }); }
void GOMP_sections_end(void) { t_ws = -1; barrier(); }
void GOMP_sections_end_nowait(void) { t_ws = -1; }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
        if (!cpy) { fn(data); return; }
        char* b = (char*)__builtin_alloca(sz + al);
        char* a = (char*)(((uintptr_t)b + al - 1) / al * al);
        cpy(a, data);
        fn(a);
}
void GOMP_taskwait(void) {}

// ------------------------------------------------------ compiler callbacks
#define PC ((uint64_t)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
        void __tsan_read##n(void* p) { access(p, n, false, PC); } \
        void __tsan_write##n(void* p) { access(p, n, true, PC); } \
        void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
        void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
        void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
        void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
        void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
        void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
        void __tsan_read##n##_pc(void* p, void* c) { access(p, n, false, (uint64_t)c); } \
        void __tsan_write##n##_pc(void* p, void* c) { access(p, n, true, (uint64_t)c); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define AT(n, T) \
        T __tsan_atomic##n##_load(const volatile T* p, int) { atomic_op(p); return *p; } \
        void __tsan_atomic##n##_store(volatile T* p, T v, int) { atomic_op(p); *p = v; } \
        T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { atomic_op(p); T o = *p; *p = v; return o; } \
        T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { atomic_op(p); T o = *p; *p = o + v; return o; } \
        T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { atomic_op(p); T o = *p; *p = o - v; return o; } \
        T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { atomic_op(p); T o = *p; *p = o & v; return o; } \
        T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { atomic_op(p); T o = *p; *p = o | v; return o; } \
        T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { atomic_op(p); T o = *p; *p = o ^ v; return o; } \
        T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { atomic_op(p); T o = *p; *p = ~(o & v); return o; } \
        int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { atomic_op(p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
        int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { atomic_op(p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
        T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int, int) { atomic_op(p); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { atomic_op((void*)5); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------- libc calls that touch memory for the library
void* mt_memcpy(void* d, const void* s, size_t n) { if (g_active && !t_rt) { access(s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void* mt_memmove(void* d, const void* s, size_t n) { if (g_active && !t_rt) { access(s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void* mt_memset(void* d, int c, size_t n) { if (g_active && !t_rt) access(d, n, true, PC); return memset(d, c, n); }
char* mt_strcpy(char* d, const char* s) { if (g_active && !t_rt) { size_t n = strlen(s) + 1; access(s, n, false, PC); access(d, n, true, PC); } return strcpy(d, s); }
char* mt_strncpy(char* d, const char* s, size_t n) { if (g_active && !t_rt) access(d, n, true, PC); return strncpy(d, s, n); }
char* mt_strcat(char* d, const char* s) { if (g_active && !t_rt) { size_t n = strlen(s) + 1; access(s, n, false, PC); access(d, strlen(d) + n, true, PC); } return strcat(d, s); }
int mt_vsnprintf(char* b, size_t n, const char* f, va_list ap) {
        int r = vsnprintf(b, n, f, ap);
        if (g_active && !t_rt && n && r >= 0) access(b, std::min(n, (size_t)r + 1), true, PC);
        return r;
}
int mt_snprintf(char* b, size_t n, const char* f, ...) {
        va_list ap;
        va_start(ap, f);
        int r = vsnprintf(b, n, f, ap);
        va_end(ap);
        if (g_active && !t_rt && n && r >= 0) access(b, std::min(n, (size_t)r + 1), true, PC);
        return r;
}
int mt_sprintf(char* b, const char* f, ...) {
        va_list ap;
        va_start(ap, f);
        int r = vsnprintf(b, (size_t)1 << 30, f, ap);
        va_end(ap);
        if (g_active && !t_rt && r >= 0) access(b, (size_t)r + 1, true, PC);
        return r;
}
size_t mt_fread(void* p, size_t s, size_t n, FILE* f) {
        size_t r = fread(p, s, n, f);
        if (g_active && !t_rt && r) access(p, s * r, true, PC);
        return r;
}
void mt_qsort(void* p, size_t n, size_t s, int (*c)(const void*, const void*)) { if (g_active && !t_rt) access(p, n * s, true, PC); qsort(p, n, s, c); }

// input conversions: what a scan stores through its arguments
static void scan_stores(const char* f, int got, va_list ap, uint64_t pc) {
        for (; *f && got > 0; ++f) {
                if (*f != '%') continue;
                ++f;
                if (*f == '%') continue;
                bool skip = false, alloc = false;
                if (*f == '*') { skip = true; ++f; }
                size_t width = 0;
                for (; *f >= '0' && *f <= '9'; ++f) width = width * 10 + (size_t)(*f - '0');
                if (*f == 'm') { alloc = true; ++f; }
                int l = 0, h = 0;
                bool L = false;
                for (;; ++f) {
                        if (*f == 'l') ++l; else if (*f == 'h') ++h; else if (*f == 'q' || *f == 'j' || *f == 'z' || *f == 't') l = 2; else if (*f == 'L') L = true; else break;
                }
                char c = *f;
                if (!c) return;
                if (c == '[') {
                        ++f;
                        if (*f == '^') ++f;
                        if (*f == ']') ++f;
                        while (*f && *f != ']') ++f;
                        if (!*f) --f;
                }
                if (skip) continue;
                void* q = va_arg(ap, void*);
                size_t n;
                if (alloc) n = sizeof(char*);
                else if (c == 's' || c == '[') n = strlen((char*)q) + 1;
                else if (c == 'c') n = width ? width : 1;
                else if (c == 'p') n = sizeof(void*);
                else if (strchr("aAeEfFgG", c)) n = L ? sizeof(long double) : l ? sizeof(double) : sizeof(float);
                else n = l ? 8 : h == 1 ? 2 : h ? 1 : 4;
                access(q, n, true, pc);
                if (c != 'n') --got;
        }
}
#define SCANS(name) \
        int mt_##name##fscanf(FILE* f, const char* fmt, ...) { \
                va_list ap, aq; \
                va_start(ap, fmt); va_copy(aq, ap); \
                int r = vfscanf(f, fmt, ap); \
                if (g_active && !t_rt && r > 0) scan_stores(fmt, r, aq, PC); \
                va_end(ap); va_end(aq); \
                return r; \
        } \
        int mt_##name##sscanf(const char* s, const char* fmt, ...) { \
                va_list ap, aq; \
                va_start(ap, fmt); va_copy(aq, ap); \
                if (g_active && !t_rt) access(s, strlen(s) + 1, false, PC); \
                int r = vsscanf(s, fmt, ap); \
                if (g_active && !t_rt && r > 0) scan_stores(fmt, r, aq, PC); \
                va_end(ap); va_end(aq); \
                return r; \
        }
SCANS() SCANS(__isoc99_) SCANS(__isoc23_)
char* mt_fgets(char* b, int n, FILE* f) {
        char* r = fgets(b, n, f);
        if (g_active && !t_rt && r) access(b, strlen(b) + 1, true, PC);
        return r;
}
ssize_t mt_getline(char** l, size_t* n, FILE* f) {
        ssize_t r = getline(l, n, f);
        if (g_active && !t_rt && r >= 0) { access(l, sizeof *l, true, PC); access(n, sizeof *n, true, PC); access(*l, (size_t)r + 1, true, PC); }
        return r;
}
size_t mt_fwrite(const void* p, size_t s, size_t n, FILE* f) { if (g_active && !t_rt) access(p, s * n, false, PC); return fwrite(p, s, n, f); }
int mt_fputs(const char* s, FILE* f) { if (g_active && !t_rt) access(s, strlen(s) + 1, false, PC); return fputs(s, f); }
size_t mt_strlen(const char* s) { size_t n = strlen(s); if (g_active && !t_rt) access(s, n + 1, false, PC); return n; }
char* mt_strdup(const char* s) { if (g_active && !t_rt) access(s, strlen(s) + 1, false, PC); return strdup(s); }
char* mt_strncat(char* d, const char* s, size_t n) {
        if (g_active && !t_rt) { size_t m = strnlen(s, n), k = strlen(d); access(s, m, false, PC); access(d, k, false, PC); access(d + k, m + 1, true, PC); }
        return strncat(d, s, n);
}
char* mt_strtok_r(char* s, const char* d, char** save) {
        char* r = strtok_r(s, d, save);
        if (g_active && !t_rt) { access(save, sizeof *save, true, PC); if (r) access(r, strlen(r) + 1, true, PC); }
        return r;
}
static size_t cmp_len(const char* a, const char* b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) ++i; return i < n ? i + 1 : n; }
int mt_strcmp(const char* a, const char* b) { if (g_active && !t_rt) { size_t m = cmp_len(a, b, (size_t)-1); access(a, m, false, PC); access(b, m, false, PC); } return strcmp(a, b); }
int mt_strncmp(const char* a, const char* b, size_t n) { if (g_active && !t_rt) { size_t m = cmp_len(a, b, n); access(a, m, false, PC); access(b, m, false, PC); } return strncmp(a, b, n); }

// image codecs and LAPACK: objects and arrays they change for the library
#define WR(p, n) do { if (g_active && !t_rt) access(p, n, true, PC); } while (0)
#define RD(p, n) do { if (g_active && !t_rt) access(p, n, false, PC); } while (0)
struct jpeg_error_mgr* mt_jpeg_std_error(struct jpeg_error_mgr* e) { WR(e, sizeof *e); return jpeg_std_error(e); }
void mt_jpeg_CreateDecompress(j_decompress_ptr c, int v, size_t n) { WR((char*)c + sizeof(void*), sizeof *c - sizeof(void*)); jpeg_CreateDecompress(c, v, n); }
void mt_jpeg_CreateCompress(j_compress_ptr c, int v, size_t n) { WR((char*)c + sizeof(void*), sizeof *c - sizeof(void*)); jpeg_CreateCompress(c, v, n); }
int mt_jpeg_read_header(j_decompress_ptr c, boolean r) { WR(c, sizeof *c); return jpeg_read_header(c, r); }
boolean mt_jpeg_start_decompress(j_decompress_ptr c) { WR(c, sizeof *c); return jpeg_start_decompress(c); }
void mt_jpeg_start_compress(j_compress_ptr c, boolean w) { WR(c, sizeof *c); jpeg_start_compress(c, w); }
void mt_jpeg_set_defaults(j_compress_ptr c) { WR(c, sizeof *c); jpeg_set_defaults(c); }
void mt_jpeg_set_quality(j_compress_ptr c, int q, boolean f) { WR(c, sizeof *c); jpeg_set_quality(c, q, f); }
boolean mt_jpeg_finish_decompress(j_decompress_ptr c) { WR(c, sizeof *c); return jpeg_finish_decompress(c); }
void mt_jpeg_finish_compress(j_compress_ptr c) { WR(c, sizeof *c); jpeg_finish_compress(c); }
void mt_jpeg_destroy_decompress(j_decompress_ptr c) { WR(c, sizeof *c); jpeg_destroy_decompress(c); }
void mt_jpeg_destroy_compress(j_compress_ptr c) { WR(c, sizeof *c); jpeg_destroy_compress(c); }
JDIMENSION mt_jpeg_read_scanlines(j_decompress_ptr c, JSAMPARRAY rows, JDIMENSION n) {
        size_t w = (size_t)c->output_width * (size_t)c->output_components;
        JDIMENSION r = jpeg_read_scanlines(c, rows, n);
        WR(&c->output_scanline, sizeof c->output_scanline);
        RD(rows, r * sizeof *rows);
        for (JDIMENSION i = 0; i < r; ++i) WR(rows[i], w);
        return r;
}
JDIMENSION mt_jpeg_write_scanlines(j_compress_ptr c, JSAMPARRAY rows, JDIMENSION n) {
        size_t w = (size_t)c->image_width * (size_t)c->input_components;
        WR(&c->next_scanline, sizeof c->next_scanline);
        RD(rows, n * sizeof *rows);
        for (JDIMENSION i = 0; i < n; ++i) RD(rows[i], w);
        return jpeg_write_scanlines(c, rows, n);
}
static thread_local png_infop t_png_info = nullptr;
static thread_local png_structp t_png = nullptr;
void mt_png_read_info(png_structp p, png_infop i) { t_png = p; t_png_info = i; png_read_info(p, i); }
void mt_png_write_info(png_structp p, png_const_infop i) { t_png = p; t_png_info = (png_infop)i; png_write_info(p, i); }
static size_t png_rowbytes(png_structp p) { return p == t_png && t_png_info ? png_get_rowbytes(p, t_png_info) : 0; }
static size_t png_height(png_structp p) { return p == t_png && t_png_info ? png_get_image_height(p, t_png_info) : 0; }
void mt_png_read_image(png_structp p, png_bytepp rows) {
        png_read_image(p, rows);
        size_t h = png_height(p);       // transforms may make rows shorter than the file's: the first byte stands for the row
        RD(rows, h * sizeof *rows);
        for (size_t i = 0; i < h; ++i) WR(rows[i], 1);
}
void mt_png_write_image(png_structp p, png_bytepp rows) {
        size_t w = png_rowbytes(p), h = png_height(p);
        RD(rows, h * sizeof *rows);
        for (size_t i = 0; i < h; ++i) RD(rows[i], w);
        png_write_image(p, rows);
}
void mt_png_read_row(png_structp p, png_bytep a, png_bytep b) { png_read_row(p, a, b); if (a) WR(a, 1); }
void mt_png_write_row(png_structp p, png_const_bytep a) { RD(a, 1); png_write_row(p, a); }
#define GESVD(name, T) \
        void name(char*, char*, int*, int*, T*, int*, T*, T*, int*, T*, int*, T*, int*, int*); \
        void mt_##name(char* ju, char* jv, int* m, int* n, T* A, int* lda, T* S, T* U, int* ldu, T* Vt, int* ldv, T* work, int* lwork, int* info) { \
                if (g_active && !t_rt) { \
                        int k = std::min(*m, *n), cu = *ju == 'A' ? *m : *ju == 'S' ? k : 0, rv = *jv == 'A' ? *n : *jv == 'S' ? k : 0; \
                        access(work, sizeof(T) * (size_t)(*lwork > 0 ? *lwork : 1), true, PC); \
                        if (*lwork > 0) { \
                                for (int j = 0; j < *n; ++j) access(A + (size_t)j * *lda, sizeof(T) * (size_t)*m, true, PC); \
                                access(S, sizeof(T) * (size_t)k, true, PC); \
                                for (int j = 0; j < cu; ++j) access(U + (size_t)j * *ldu, sizeof(T) * (size_t)*m, true, PC); \
                                for (int j = 0; rv && j < *n; ++j) access(Vt + (size_t)j * *ldv, sizeof(T) * (size_t)rv, true, PC); \
                        } \
                } \
                name(ju, jv, m, n, A, lda, S, U, ldu, Vt, ldv, work, lwork, info); \
                WR(info, sizeof *info); \
        }
GESVD(sgesvd_, float) GESVD(dgesvd_, double)
#define SYSV(name, T) \
        void name(char*, int*, int*, T*, int*, int*, T*, int*, T*, int*, int*); \
        void mt_##name(char* ul, int* n, int* nrhs, T* A, int* lda, int* ipiv, T* B, int* ldb, T* work, int* lwork, int* info) { \
                if (g_active && !t_rt) { \
                        access(work, sizeof(T) * (size_t)(*lwork > 0 ? *lwork : 1), true, PC); \
                        if (*lwork > 0) { \
                                access(ipiv, sizeof(int) * (size_t)*n, true, PC); \
                                for (int j = 0; j < *nrhs; ++j) access(B + (size_t)j * *ldb, sizeof(T) * (size_t)*n, true, PC); \
                                for (int j = 0; j < *n; ++j) { \
                                        if (*ul == 'U' || *ul == 'u') access(A + (size_t)j * *lda, sizeof(T) * (size_t)(j + 1), true, PC); \
                                        else access(A + (size_t)j * *lda + j, sizeof(T) * (size_t)(*n - j), true, PC); \
                                } \
                        } \
                } \
                name(ul, n, nrhs, A, lda, ipiv, B, ldb, work, lwork, info); \
                WR(info, sizeof *info); \
        }
SYSV(dsysv_, double) SYSV(ssysv_, float)

// locks the library (or libstdc++) may take
int mt_pthread_mutex_lock(pthread_mutex_t* m) {
        if (!g_active || t_rt || task_id() < 0 || is_sched_mutex(m)) return pthread_mutex_lock(m);
        t_rt = true;
        access_point(choose(4) == 3);
        wait_until("a mutex", [&] { return pthread_mutex_trylock(m) == 0; });
        acquire((uintptr_t)m);
        t_rt = false;
        return 0;
}
int mt_pthread_mutex_trylock(pthread_mutex_t* m) {
        int r = pthread_mutex_trylock(m);
        if (r == 0 && g_active && !t_rt && task_id() >= 0) acquire((uintptr_t)m);
        return r;
}
int mt_pthread_mutex_unlock(pthread_mutex_t* m) {
        if (g_active && !t_rt && task_id() >= 0 && !is_sched_mutex(m)) release((uintptr_t)m);
}
int mt_pthread_once(pthread_once_t* o, void (*f)(void)) {
        // 0 new, 1 running, 2 done
        volatile int* st = (volatile int*)o;
        if (*st == 2) { bool s = t_rt; t_rt = true; acquire((uintptr_t)o); t_rt = s; return 0; }
        if (*st == 1) { bool s = t_rt; t_rt = true; wait_until("pthread_once", [&] { return *st == 2; }); acquire((uintptr_t)o); t_rt = s; return 0; }
        *st = 1;
        f();
        *st = 2;
        bool s = t_rt; t_rt = true; release((uintptr_t)o); t_rt = s;
        return 0;
}
int mt___cxa_guard_acquire(char* g) {
        if (g[0]) { bool s = t_rt; t_rt = true; acquire((uintptr_t)g); t_rt = s; return 0; }
        if (g[1]) { bool s = t_rt; t_rt = true; wait_until("a static initialiser", [&] { return g[0] || !g[1]; }); acquire((uintptr_t)g); t_rt = s; if (g[0]) return 0; }
        g[1] = 1;
        return 1;
}
void mt___cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; bool s = t_rt; t_rt = true; release((uintptr_t)g); t_rt = s; }
void mt___cxa_guard_abort(char* g) { g[1] = 0; }

// libc calls with state of the process behind them: one thread at a time
static char g_libc_state[16];
#define STATEFUL(k) do { if (g_active && !t_rt) access(&g_libc_state[k], 1, true, PC); } while (0)
char* mt_strtok(char* s, const char* d) { STATEFUL(0); return strtok(s, d); }
struct tm* mt_localtime(const time_t* t) { STATEFUL(1); return localtime(t); }
struct tm* mt_gmtime(const time_t* t) { STATEFUL(1); return gmtime(t); }
char* mt_asctime(const struct tm* t) { STATEFUL(2); return asctime(t); }
char* mt_ctime(const time_t* t) { STATEFUL(2); return ctime(t); }
char* mt_setlocale(int c, const char* l) { STATEFUL(3); return setlocale(c, l); }
int mt_rand(void) { STATEFUL(4); return rand(); }
void mt_srand(unsigned s) { STATEFUL(4); srand(s); }
double mt_drand48(void) { STATEFUL(5); return drand48(); }
void mt_srand48(long s) { STATEFUL(5); srand48(s); }
int mt_putenv(char* e) { STATEFUL(6); return putenv(e); }
int mt_setenv(const char* n, const char* v, int o) { STATEFUL(6); return setenv(n, v, o); }
}

// every block the C++ side hands out starts without history
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
static void* cxx_new(size_t n) {
        void* p = __real_malloc(n ? n : 1);
        if (!p) abort();
        if (g_active && !t_rt) on_mem(p, n);
        return p;
}
void* operator new(size_t n) { return cxx_new(n); }
void* operator new[](size_t n) { return cxx_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return cxx_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return cxx_new(n); }
void operator delete(void* p) noexcept { __real_free(p); }
void operator delete[](void* p) noexcept { __real_free(p); }
void operator delete(void* p, size_t) noexcept { __real_free(p); }
void operator delete[](void* p, size_t) noexcept { __real_free(p); }
