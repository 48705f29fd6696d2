// The seams: every libc entry point through which the library (and libpng,
// libjpeg, zlib) touches the outside world is redirected here by the linker
// (-Wl,--wrap=...). Files live in memory; FILE streams are real glibc streams
// over fopencookie() so stdio buffering, EOF and error flags are the real ones.
#include "core.h"
#include "shared.h"
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#endif
#include <cerrno>
#include <cstdlib>
#include <dirent.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_map>
#include <set>
#include <algorithm>

extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __real_tmpfile(void);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __real_time(time_t*);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
[[noreturn]] void __real_exit(int);
}

namespace sim {
FILE* real_tmpfile() { return __real_tmpfile(); }

uint64_t g_sim_ns = 0;
static int64_t g_wall_jump = 0;
static Knobs g_knobs;
Knobs& knobs() { return g_knobs; }
void draw_knobs() {
        g_knobs.chunked_io = chance(1, 2);
        if (g_knobs.chunked_io) g_knobs.chunk_seed = choose(1u << 20);
        g_knobs.junk_seed = choose(1u << 16);
        g_knobs.move_realloc = !chance(1, 4);
}

// ------------------------------------------------------------------ process
static thread_local Proc* t_cur = nullptr;
static Proc g_main;
static uint64_t g_op_serial = 0;
Proc* cur() { return t_cur; }

// ------------------------------------------------------------------ tasks
struct Task {
        pthread_t th;
        std::function<void()> f;
        bool done = false;
        Proc proc;
        pthread_cond_t cv;
};
static std::vector<Task*> g_tasks;
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static int g_turn = -1;                 // running task, -1: main
static pthread_cond_t g_main_cv;
static uint32_t g_quantum = 0, g_mean_q = 0;
static thread_local int t_task = -1;
int task_id() { return t_task; }

static void draw_quantum() {
        uint32_t v = choose(2 * g_mean_q + 1);
        g_quantum = v == 0 ? 0xffffffffu : v;
}
static void hand_over(int next) {  // g_mx held
        g_turn = next;
        if (next < 0) pthread_cond_signal(&g_main_cv);
        else pthread_cond_signal(&g_tasks[next]->cv);
}
static void switch_now();
static void switch_maybe() {
        if (t_task < 0) return;
        if (g_quantum != 0xffffffffu && g_quantum > 0) --g_quantum;
        if (g_quantum) return;
        switch_now();
}
static uint32_t g_acc_mean = 0, g_acc_left = 0, g_acc_switches = 0;
static void draw_acc() {
        uint32_t v = choose(2 * g_acc_mean + 1);
        g_acc_left = v == 0 ? 0xffffffffu : v;
}
void set_access_mean(uint32_t m) { g_acc_mean = m; g_acc_switches = 0; if (m) draw_acc(); }
void access_point(bool force) {
        if (t_task < 0 || !g_acc_mean) return;
        if (!force) {
                if (g_acc_left == 0xffffffffu || --g_acc_left) return;
                if (++g_acc_switches > 3000) { g_acc_left = 0xffffffffu; return; }   // bounded number of preemptions
                draw_acc();
        }
        switch_now();
}
static void to_task(int nxt) {
        pthread_mutex_lock(&g_mx);
        hand_over(nxt);
        while (g_turn != t_task) pthread_cond_wait(&g_tasks[t_task]->cv, &g_mx);
        pthread_mutex_unlock(&g_mx);
}
void switch_away() {
        if (t_task < 0) return;
        int n = (int)g_tasks.size();
        for (int i = 1; i < n; ++i) { int k = (t_task + i) % n; if (!g_tasks[k]->done) { to_task(k); return; } }
}
bool is_sched_mutex(const void* m) { return m == &g_mx; }
static Proc* g_region = nullptr;
static int g_region_code = 0;
static bool g_region_exit = false;
static thread_local sigjmp_buf t_region_jb;
void set_region(Proc* p) { g_region = p; if (p) g_region_exit = false; }
static void switch_now() {
        std::vector<int> r;
        r.push_back(t_task);
        for (int i = 0; i < (int)g_tasks.size(); ++i)
                if (i != t_task && !g_tasks[i]->done) r.push_back(i);
        int nxt = r[choose(r.size())];
        draw_quantum();
        if (nxt == t_task) return;
        g_rs->fired[K_PREEMPT]++;
        op("  -- switch task %d -> %d", t_task, nxt);
        to_task(nxt);
}
static void* task_main(void* p) {
        int id = (int)(intptr_t)p;
        Task* t = g_tasks[id];
        pthread_mutex_lock(&g_mx);
        while (g_turn != id) pthread_cond_wait(&t->cv, &g_mx);
        pthread_mutex_unlock(&g_mx);
        t_task = id;
        t_cur = g_region ? g_region : &t->proc;
        t->proc.id = id + 1;
        if (!g_region) t->f();
        else if (sigsetjmp(t_region_jb, 0) == 0) t->f();
        t->done = true;
        if (g_region_exit) {             // the process ended: the other threads never run again
                pthread_mutex_lock(&g_mx);
                hand_over(-1);
                pthread_mutex_unlock(&g_mx);
                return nullptr;
        }
        std::vector<int> r;
        for (int i = 0; i < (int)g_tasks.size(); ++i) if (!g_tasks[i]->done) r.push_back(i);
        int nxt = r.empty() ? -1 : r[choose(r.size())];
        if (nxt >= 0) draw_quantum();
        pthread_mutex_lock(&g_mx);
        hand_over(nxt);
        pthread_mutex_unlock(&g_mx);
        return nullptr;
}
void run_tasks(const std::vector<std::function<void()>>& fs, uint32_t mean_quantum) {
        g_mean_q = mean_quantum ? mean_quantum : 1;
        pthread_cond_init(&g_main_cv, nullptr);
        g_tasks.clear();
        for (auto& f : fs) { Task* t = new Task; t->f = f; pthread_cond_init(&t->cv, nullptr); g_tasks.push_back(t); }
        g_turn = -1;
        for (size_t i = 0; i < g_tasks.size(); ++i) pthread_create(&g_tasks[i]->th, nullptr, task_main, (void*)(intptr_t)i);
        int first = (int)choose(g_tasks.size());
        draw_quantum();
        Proc* save = t_cur;
        pthread_mutex_lock(&g_mx);
        hand_over(first);
        while (g_turn != -1) pthread_cond_wait(&g_main_cv, &g_mx);
        pthread_mutex_unlock(&g_mx);
        for (auto t : g_tasks) if (t->done) pthread_join(t->th, nullptr);
        g_tasks.clear();
        t_cur = save;
}
void yield_point() { switch_maybe(); }
static void (*g_mem_hook)(void*, size_t) = nullptr;
void set_mem_hook(void (*f)(void*, size_t)) { g_mem_hook = f; }
static thread_local int t_root = 0;
void set_root(int n) { t_root = n; }

// ------------------------------------------------------------------ steps
enum { JMP_EXIT = 1, JMP_CRASH = 2 };
static const uint64_t EVENT_CAP = 20000000;

void step(Ev e, const char* what, const char* arg, long v) {
        Proc* p = cur();
        g_sim_ns += e == E_ALLOC ? 50 : 20000;
        g_rs->n_events++;
        if (!p || !p->in_op) return;
        if (g_rs->n_events > EVENT_CAP) V((std::string("hang@") + p->opname).c_str(), "more than %lu seam events in one run", (unsigned long)EVENT_CAP);
        p->ev[e]++;
        if (e == E_ALLOC) return;
        p->ev[E_IO]++;
        op(t_task >= 0 ? "  [%d] %s %s %ld" : "  %.0d%s %s %ld", t_task >= 0 ? t_task : 0, what, arg, v);
        switch_maybe();
}
static bool crash_due(int* prm) {
        Proc* p = cur();
        if (!p || !p->in_op) return false;
        for (auto& f : p->plan.faults)
                if (f.kind == K_CRASH && f.nth + 1 == p->ev[E_IO]) {
                        p->fired[K_CRASH]++; p->hard++;
                        g_rs->fired[K_CRASH]++;
                        op("  !! process dies here");
                        *prm = f.err;
                        return true;
                }
        return false;
}
[[noreturn]] static void die() { siglongjmp(cur()->jb, JMP_CRASH); }
static void crash_maybe() { int prm; if (crash_due(&prm)) die(); }

// ------------------------------------------------------------------ vfs
static Tree g_tree;
Tree& vfs() { return g_tree; }
std::string vfs_norm(const std::string& p) {
        std::vector<std::string> parts;
        size_t i = 0;
        while (i < p.size()) {
                size_t j = p.find('/', i);
                if (j == std::string::npos) j = p.size();
                std::string s = p.substr(i, j - i);
                if (s == "..") { if (!parts.empty()) parts.pop_back(); }
                else if (!s.empty() && s != ".") parts.push_back(s);
                i = j + 1;
        }
        std::string r;
        std::string top = "t" + std::to_string(t_root);
        if (t_root && (parts.empty() || parts[0] != top)) r = "/" + top;
        for (auto& s : parts) r += "/" + s;
        return r.empty() ? "/" : r;
}
static std::string parent_of(const std::string& n) {
        size_t p = n.rfind('/');
        return p == 0 || p == std::string::npos ? "/" : n.substr(0, p);
}
static std::shared_ptr<Node> lookup(const std::string& n) {
        auto it = g_tree.find(n);
        return it == g_tree.end() ? nullptr : it->second;
}
void vfs_mkdir(const std::string& p) { auto n = std::make_shared<Node>(); n->dir = true; g_tree[vfs_norm(p)] = n; }
void vfs_put(const std::string& p, const std::string& d) { auto n = std::make_shared<Node>(); n->data = d; g_tree[vfs_norm(p)] = n; }
bool vfs_has(const std::string& p) { return lookup(vfs_norm(p)) != nullptr; }
bool vfs_is_dir(const std::string& p) { auto n = lookup(vfs_norm(p)); return n && n->dir; }
std::string vfs_get(const std::string& p) { auto n = lookup(vfs_norm(p)); return n ? n->data : std::string(); }
std::vector<std::string> vfs_list(const std::string& dir) {
        std::string d = vfs_norm(dir);
        std::vector<std::string> v;
        for (auto& e : g_tree) if (e.first != "/" && e.first != d && parent_of(e.first) == d) v.push_back(e.first.substr(d == "/" ? 1 : d.size() + 1));
        return v;
}
uint64_t vfs_hash() {
        uint64_t h = fnv("", 0);
        for (auto& e : g_tree) { h = fnv(e.first.data(), e.first.size(), h); h = fnv(e.second->data.data(), e.second->data.size(), h); }
        return h;
}
void vfs_clear() { g_tree.clear(); vfs_mkdir("/"); vfs_mkdir("/tmp"); vfs_mkdir("/d"); }

// ------------------------------------------------------------------ streams
struct Stream {
        std::vector<char> vbuf;   // stdio buffer of a drawn size
        std::shared_ptr<Node> node;
        std::shared_ptr<Pipe> pipe;
        std::string* sink = nullptr;     // stdout / stderr
        std::string path;
        size_t pos = 0;
        bool rd = false, wr = false, app = false, broken = false;
        size_t last_chunk = 0;
        Proc* owner = nullptr;
        uint64_t op_serial = 0;
        FILE* fp = nullptr;
        Rng rng{0};
};
static std::unordered_map<FILE*, Stream*> g_open;
static std::string g_stderr_text, g_stdout_text;
std::string& sim_stderr() { return g_stderr_text; }
std::string& sim_stdout() { return g_stdout_text; }
static std::vector<std::shared_ptr<Pipe>> g_pipes;
std::vector<std::shared_ptr<Pipe>>& pipes() { return g_pipes; }
size_t open_files() { return g_open.size(); }
static uint64_t g_stream_serial = 0;

static ssize_t ck_read(void* c, char* buf, size_t n) {
        Stream* s = (Stream*)c;
        step(E_READ, "read", s->path.c_str(), (long)n);
        crash_maybe();
        int err = 0;
        if (fault_due(K_READ_EIO, E_READ, &err)) { errno = EIO; return -1; }
        if (fault_due(K_READ_EOF, E_READ)) return 0;
        if (s->node->dir) { errno = EISDIR; return -1; }
        size_t sz = s->node->data.size();
        size_t av = s->pos < sz ? sz - s->pos : 0;
        size_t m = std::min(n, av);
        if (g_knobs.chunked_io && m > 1 && cur() && cur()->in_op) {
                size_t lim;
                switch (s->rng.below(4)) {
                case 0: lim = 1 + s->rng.below(4); break;
                case 1: lim = 1 + s->rng.below(64); break;
                case 2: lim = 1 + s->rng.below(1000); break;
                default: lim = m; break;
                }
                if (lim < m) { m = lim; g_rs->fired[K_SHORT_READ]++; }
        }
        memcpy(buf, s->node->data.data() + s->pos, m);
        s->pos += m;
        return (ssize_t)m;
}
static void put_at(Stream* s, const char* b, size_t n) {
        if (s->app) s->pos = s->node->data.size();
        if (s->pos + n > s->node->data.size()) s->node->data.resize(s->pos + n, '\0');
        memcpy(&s->node->data[s->pos], b, n);
        s->pos += n;
}
static ssize_t ck_write(void* c, const char* buf, size_t n) {
        Stream* s = (Stream*)c;
        if (s->sink) {
                if (s->broken) { errno = EIO; return 0; }
                s->sink->append(buf, n);
                if (s->sink->size() > (1u << 22)) s->sink->erase(0, 1u << 21);
                return (ssize_t)n;
        }
        if (s->pipe) {
                step(E_PIPE, "pipe-write", s->path.c_str(), (long)n);
                crash_maybe();
                if (s->pipe->broken || fault_due(K_PIPE_FAIL, E_PIPE)) { s->pipe->broken = true; errno = EPIPE; return 0; }
                s->pipe->data.append(buf, n);
                return (ssize_t)n;
        }
        size_t done = 0;
        while (done < n) {   // glibc loops over short kernel writes the same way
                size_t m = n - done;
                if (g_knobs.chunked_io && m > 1 && cur() && cur()->in_op && s->rng.below(3) == 0) {
                        m = 1 + s->rng.below((uint32_t)std::min<size_t>(m, 700));
                        if (m < n - done) g_rs->fired[K_SHORT_WRITE]++;
                }
                step(E_WRITE, "write", s->path.c_str(), (long)m);
                int prm = 0;
                if (crash_due(&prm)) { put_at(s, buf + done, m * (size_t)prm / 8); die(); }
                Proc* p = cur();
                if (p && p->in_op && p->disk_full) { errno = ENOSPC; break; }
                if (fault_due(K_WRITE_EIO, E_WRITE, &prm)) { errno = EIO; break; }
                if (fault_due(K_WRITE_ENOSPC, E_WRITE, &prm)) {
                        size_t part = m * (size_t)prm / 8;
                        put_at(s, buf + done, part);
                        done += part;
                        p->disk_full = true;
                        errno = ENOSPC;
                        break;
                }
                s->last_chunk = m;
                put_at(s, buf + done, m);
                done += m;
        }
        return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* off, int whence) {
        Stream* s = (Stream*)c;
        if (!s->node) { errno = ESPIPE; return -1; }
        int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)s->pos : (int64_t)s->node->data.size();
        int64_t np = base + *off;
        if (np < 0) { errno = EINVAL; return -1; }
        s->pos = (size_t)np;
        *off = np;
        return 0;
}
static int ck_close(void* c) {
        Stream* s = (Stream*)c;
        if (s->sink) return 0;
        int rc = 0;
        step(E_CLOSE, "close", s->path.c_str(), 0);
        g_open.erase(s->fp);
        crash_maybe();
        // Deferred write-back error: the tail never made it to the device.
        if (s->wr && s->node && fault_due(K_CLOSE_FAIL, E_CLOSE)) {
                size_t lost = std::min(s->last_chunk, s->node->data.size());
                s->node->data.resize(s->node->data.size() - lost);
                errno = EIO;
                rc = -1;
        }
        if (s->pipe) s->pipe->closed = true;
        delete s;
        return rc;
}
static FILE* make_stream(Stream* s, const char* mode) {
        cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
        FILE* f = fopencookie(s, mode, io);
        if (!f) { delete s; errno = ENOMEM; return nullptr; }
        s->fp = f;
        s->owner = cur();
        s->op_serial = cur() ? cur()->op_serial : 0;
        s->rng = Rng(g_knobs.chunk_seed * 1000003ull + ++g_stream_serial);
        if (!s->sink) g_open[f] = s;
        if (g_knobs.chunked_io && !s->sink && cur() && cur()->in_op) {
                static const size_t szs[] = {0, 1, 7, 16, 64, 333, 1024, 4096};
                size_t b = szs[s->rng.below(8)];
                if (b == 1 && s->wr) setvbuf(f, nullptr, _IONBF, 0);   // every transfer reaches the seam
                else if (b) { s->vbuf.resize(b); setvbuf(f, s->vbuf.data(), _IOFBF, b); }
        }
        return f;
}
static FILE* open_node(const std::string& path, const char* mode, std::shared_ptr<Node> n) {
        Stream* s = new Stream;
        s->path = path;
        s->rd = strchr(mode, 'r') || strchr(mode, '+');
        s->wr = mode[0] != 'r' || strchr(mode, '+');
        s->app = mode[0] == 'a';
        s->node = n;
        return make_stream(s, mode);
}

// ------------------------------------------------------------------ heap
struct Alloc { size_t n; uint64_t serial; uint32_t seq; const Proc* p; };
static std::unordered_map<void*, Alloc>& table() { static auto* t = new std::unordered_map<void*, Alloc>; return *t; }
static uint32_t g_alloc_seq = 0;
static size_t g_live_bytes = 0;
size_t live_allocs() { return table().size(); }
size_t live_alloc_bytes() { return g_live_bytes; }
static thread_local bool t_busy = false;

static inline bool tracked() { Proc* p = t_cur; return p && p->in_op && !t_busy; }
static bool alloc_denied(size_t n) {
        Proc* p = t_cur;
        step(E_ALLOC, "", "", 0);
        if (p->alloc_dead) { p->fired[K_ALLOC_STICKY]++; p->hard++; return true; }
        t_busy = true;
        bool deny = false;
        if (fault_due(K_ALLOC_FAIL, E_ALLOC)) deny = true;
        else if (fault_due(K_ALLOC_STICKY, E_ALLOC)) { p->alloc_dead = true; deny = true; }
        else if (n > g_knobs.alloc_cap) {
                p->fired[K_ALLOC_FAIL]++; p->hard++; g_rs->fired[K_ALLOC_FAIL]++;
                op("  !! allocation of %zu bytes refused (over the memory limit)", n);
                deny = true;
        }
        t_busy = false;
        return deny;
}
static void fill(void* q, size_t n, size_t from = 0) {
        if (!g_knobs.junk_fill || n <= from) return;
        if (n - from > (1u << 20)) n = from + (1u << 20);
        uint64_t v = (g_knobs.junk_seed + 1) * 0x9E3779B97F4A7C15ull ^ (uint64_t)g_alloc_seq * 0xD1B54A32D192ED03ull;
        v |= 0x0101010101010101ull;      // never accidentally zero
        unsigned char* c = (unsigned char*)q;
        size_t i = from;
        for (; i < n; ++i) c[i] = (unsigned char)(v >> ((i & 7) * 8));
}
// LAPACK rounds differently for differently aligned arrays: every block starts
// on a cache line, so that numerical results do not depend on the heap layout.
extern "C" int __real_posix_memalign(void**, size_t, size_t);
static void* line_alloc(size_t n) { void* q; return __real_posix_memalign(&q, 64, n) == 0 ? q : nullptr; }
// Code the sanitizer does not see (libpng, libjpeg, LAPACK) may also overrun a
// block: every tracked block has a guard tail, verified when it is released.
enum { GUARD = 16 };
static void guard_set(void* q, size_t n) {
        unsigned char* t = (unsigned char*)q + n;
        for (int i = 0; i < GUARD; ++i) t[i] = (unsigned char)(0xA5 ^ (i * 37));
#ifdef __SANITIZE_ADDRESS__
        __asan_poison_memory_region(t, GUARD);
#endif
}
static void guard_check(void* q, const Alloc& a, bool release) {
        unsigned char* t = (unsigned char*)q + a.n;
#ifdef __SANITIZE_ADDRESS__
        __asan_unpoison_memory_region(t, GUARD);
#endif
        int bad = -1;
        for (int i = 0; i < GUARD && bad < 0; ++i) if (t[i] != (unsigned char)(0xA5 ^ (i * 37))) bad = i;
        if (bad >= 0) {
                t_busy = true;
                std::string cls = std::string("memory-error:heap-overrun@") + t_cur->opname;
                V(cls.c_str(), "a block of %zu bytes was overrun: the byte at offset %zu was overwritten while executing '%s'", a.n, a.n + bad, t_cur->opname);
        }
        if (!release) guard_set(q, a.n);
}
static void* note(void* q, size_t n) {
        if (!q) return q;
        t_busy = true;
        guard_set(q, n);
        table()[q] = Alloc{n, t_cur->op_serial, ++g_alloc_seq, t_cur};
        g_live_bytes += n;
        if (g_mem_hook) g_mem_hook(q, n);
        t_busy = false;
        return q;
}
static void forget(void* q) {
        auto it = table().find(q);
        if (it != table().end()) { guard_check(q, it->second, true); g_live_bytes -= it->second.n; table().erase(it); }
}

// ------------------------------------------------------------------ ops
static void setup_std();
void reset_run() {
        g_knobs = Knobs();
        g_sim_ns = 0; g_wall_jump = 0;
        g_main = Proc();
        t_cur = &g_main;
        vfs_clear();
        g_pipes.clear();
        setup_std();
}
static Stream *g_serr, *g_sout;
static void setup_std() {
        g_stderr_text.clear(); g_stdout_text.clear();
        g_serr = new Stream; g_serr->sink = &g_stderr_text; g_serr->wr = true;
        g_sout = new Stream; g_sout->sink = &g_stdout_text; g_sout->wr = true;
        stderr = make_stream(g_serr, "w");
        setvbuf(stderr, nullptr, _IONBF, 0);
        stdout = make_stream(g_sout, "w");
}
void break_stderr(bool b) { g_serr->broken = b; }

struct SimDir { std::vector<std::string> names; size_t i; struct dirent de; Proc* owner; uint64_t op_serial; };
static std::set<SimDir*>& dirs() { static auto* s = new std::set<SimDir*>; return *s; }
void region_exit_check() {
        if (!g_region_exit) return;
        g_region_exit = false;
        t_cur->exit_code = g_region_code;
        siglongjmp(t_cur->jb, JMP_EXIT);
}
OpResult run_op(const char* name, const Plan& plan, const std::function<void()>& f) {
        Proc* p = cur();
        OpResult r;
        if (p->in_op) { f(); return r; }
        snprintf(g_rs->cur_op, sizeof g_rs->cur_op, "%s", name);
        g_rs->n_ops++;
        op("op %s faults=%s", name, plan.str().c_str());
        p->opname = name;
        p->plan = plan;
        memset(p->ev, 0, sizeof p->ev);
        memset(p->fired, 0, sizeof p->fired);
        p->hard = 0;
        p->disk_full = p->alloc_dead = false;
        p->op_serial = ++g_op_serial;
        int j = sigsetjmp(p->jb, 0);
        if (j == 0) {
                p->in_op = true;
                f();
                p->in_op = false;
        } else {
                p->in_op = false;
                r.how = j == JMP_EXIT ? OpResult::EXITED : OpResult::CRASHED;
                r.code = p->exit_code;
        }
        t_busy = false;
        memcpy(r.fired, p->fired, sizeof r.fired);
        memcpy(r.ev, p->ev, sizeof r.ev);
        r.hard = p->hard;
        if (r.how == OpResult::RETURNED)
                for (auto& a : table()) if (a.second.p == p) guard_check(a.first, a.second, false);
        if (r.how == OpResult::RETURNED) {
                uint32_t first = 0xffffffffu;
                for (auto& a : table())
                        if (a.second.serial == p->op_serial && a.second.p == p) {
                                r.leaked_allocs++; r.leaked_bytes += a.second.n;
                                first = std::min(first, a.second.seq);
                        }
                for (auto& s : g_open) if (s.second->owner == p && s.second->op_serial == p->op_serial) { r.leaked_files++; r.leak_info += " file:" + s.second->path; }
                for (auto d : dirs()) if (d->owner == p && d->op_serial == p->op_serial) r.leaked_dirs++;
        } else {
                // the process is gone: so are its descriptors and its heap
                std::vector<void*> gone;
                for (auto& a : table()) if (a.second.p == p) gone.push_back(a.first);
                for (void* q : gone) forget(q);
                for (auto it = g_open.begin(); it != g_open.end();)
                        if (it->second->owner == p) it = g_open.erase(it); else ++it;
                for (auto it = dirs().begin(); it != dirs().end();)
                        if ((*it)->owner == p) it = dirs().erase(it); else ++it;
        }
        op("  => %s code=%d", r.how == 0 ? "returned" : r.how == 1 ? "exit" : "died", r.code);
        p->plan = Plan();
        return r;
}
OpResult run_clean(const char* name, const std::function<void()>& f) {
        OpResult r = run_op(name, Plan::none(), f);
        if (!r.ok()) V((std::string("unexpected-exit@") + name).c_str(), "%s ended the process (code %d) although nothing failed; stderr: %.600s", name, r.code, g_stderr_text.c_str());
        return r;
}
}  // namespace sim

using namespace sim;
extern "C" {

FILE* __wrap_fopen(const char* path, const char* mode) {
        if (!cur()) return __real_fopen(path, mode);
        std::string n = vfs_norm(path);
        step(E_OPEN, "open", n.c_str(), mode[0]);
        crash_maybe();
        int err = 0;
        if (fault_due(K_OPEN_FAIL, E_OPEN, &err)) { static const int e[] = {EACCES, EMFILE, ENOENT, EIO}; errno = e[err & 3]; return nullptr; }
        auto nd = lookup(n);
        bool w = mode[0] != 'r' || strchr(mode, '+');
        if (nd && nd->dir && w) { errno = EISDIR; return nullptr; }
        if (nd && (nd->unreadable || (w && nd->readonly))) { errno = EACCES; return nullptr; }
        { auto pd = lookup(parent_of(n)); if (pd && (!(pd->mode & 0100) || (!nd && !(pd->mode & 0200)))) { errno = EACCES; return nullptr; } }
        size_t plen = strlen(path);
        if (plen && path[plen - 1] == '/' && nd && !nd->dir) { errno = ENOTDIR; return nullptr; }
        if (!nd) {
                if (mode[0] == 'r') { errno = ENOENT; return nullptr; }
                auto pd = lookup(parent_of(n));
                if (!pd || !pd->dir) { errno = ENOENT; return nullptr; }
                if (cur()->in_op && cur()->disk_full) { errno = ENOSPC; return nullptr; }
                if (strchr(mode, 'x') && nd) { errno = EEXIST; return nullptr; }
                nd = std::make_shared<Node>();
                g_tree[n] = nd;
        } else if (strchr(mode, 'x')) { errno = EEXIST; return nullptr; }
        else if (mode[0] == 'w') nd->data.clear();
        return open_node(n, mode, nd);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
FILE* __wrap_tmpfile(void) {
        if (!cur()) return __real_tmpfile();
        step(E_OPEN, "tmpfile", "", 0);
        crash_maybe();
        int err = 0;
        if (fault_due(K_OPEN_FAIL, E_OPEN, &err)) { static const int e[] = {EMFILE, EACCES, ENOSPC, EROFS}; errno = e[err & 3]; return nullptr; }
        return open_node("(tmp)", "w+", std::make_shared<Node>());
}
// descriptors: only what mkstemp/open/fdopen need
static std::map<int, std::pair<std::string, std::shared_ptr<Node>>>& fdtab() { static auto* m = new std::map<int, std::pair<std::string, std::shared_ptr<Node>>>; return *m; }
static int g_next_fd = 1000;
int __wrap_mkstemp(char* tmpl) {
        step(E_OPEN, "mkstemp", tmpl, 0);
        crash_maybe();
        if (fault_due(K_OPEN_FAIL, E_OPEN)) { errno = EACCES; return -1; }
        size_t l = strlen(tmpl);
        if (l < 6 || strcmp(tmpl + l - 6, "XXXXXX")) { errno = EINVAL; return -1; }
        for (int i = 0;; ++i) {
                snprintf(tmpl + l - 6, 7, "%06d", i);
                if (!vfs_has(tmpl)) break;
        }
        auto pd = lookup(parent_of(vfs_norm(tmpl)));
        if (!pd || !pd->dir) { errno = ENOENT; return -1; }
        auto nd = std::make_shared<Node>();
        g_tree[vfs_norm(tmpl)] = nd;
        int fd = g_next_fd++;
        fdtab()[fd] = {vfs_norm(tmpl), nd};
        return fd;
}
FILE* __real_fdopen(int, const char*);
FILE* __wrap_fdopen(int fd, const char* mode) {
        auto it = fdtab().find(fd);
        if (it == fdtab().end()) return __real_fdopen(fd, mode);
        step(E_OPEN, "fdopen", it->second.first.c_str(), fd);
        if (fault_due(K_OPEN_FAIL, E_OPEN)) { errno = ENOMEM; return nullptr; }
        auto pr = it->second;
        fdtab().erase(it);
        return open_node(pr.first, mode, pr.second);
}
int __real_close(int);
int __wrap_close(int fd) {
        auto it = fdtab().find(fd);
        if (it == fdtab().end()) return __real_close(fd);
        fdtab().erase(it);
        return 0;
}
int __real_fileno(FILE*);
int __wrap_fileno(FILE* f) { if (cur() && f == stderr) return 2; return __real_fileno(f); }
int __real_isatty(int);
int __wrap_isatty(int fd) { if (!cur()) return __real_isatty(fd); return (fd == 2) == knobs().tty ? 1 : 0; }

int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char* path, mode_t m) {
        if (!cur()) return __real_mkdir(path, m);
        std::string n = vfs_norm(path);
        step(E_DIR, "mkdir", n.c_str(), 0);
        crash_maybe();
        int err = 0;
        if (fault_due(K_DIR_FAIL, E_DIR, &err)) { static const int e[] = {EACCES, ENOSPC, EROFS, EMLINK}; errno = e[err & 3]; return -1; }
        if (lookup(n)) { errno = EEXIST; return -1; }
        auto pd = lookup(parent_of(n));
        if (!pd) { errno = ENOENT; return -1; }
        if (!pd->dir) { errno = ENOTDIR; return -1; }
        if ((pd->mode & 0300) != 0300) { errno = EACCES; return -1; }
        vfs_mkdir(n);
        lookup(n)->mode = m & 0777;
        return 0;
}
int __wrap_unlink(const char* path) {
        std::string n = vfs_norm(path);
        step(E_DIR, "unlink", n.c_str(), 0);
        crash_maybe();
        if (fault_due(K_DIR_FAIL, E_DIR)) { errno = EACCES; return -1; }
        auto nd = lookup(n);
        if (!nd) { errno = ENOENT; return -1; }
        if (nd->dir) { errno = EISDIR; return -1; }
        g_tree.erase(n);
        return 0;
}
int __wrap_rmdir(const char* path) {
        std::string n = vfs_norm(path);
        step(E_DIR, "rmdir", n.c_str(), 0);
        auto nd = lookup(n);
        if (!nd) { errno = ENOENT; return -1; }
        if (!nd->dir) { errno = ENOTDIR; return -1; }
        if (!vfs_list(n).empty()) { errno = ENOTEMPTY; return -1; }
        g_tree.erase(n);
        return 0;
}
int __wrap_remove(const char* path) { auto nd = lookup(vfs_norm(path)); return nd && nd->dir ? __wrap_rmdir(path) : __wrap_unlink(path); }
int __wrap_rename(const char* a, const char* b) {
        std::string na = vfs_norm(a), nb = vfs_norm(b);
        step(E_DIR, "rename", (na + " " + nb).c_str(), 0);
        crash_maybe();
        int err = 0;
        if (fault_due(K_DIR_FAIL, E_DIR, &err)) { static const int e[] = {EACCES, ENOSPC, EROFS, EXDEV}; errno = e[err & 3]; return -1; }
        auto nd = lookup(na);
        if (!nd) { errno = ENOENT; return -1; }
        auto pd = lookup(parent_of(nb));
        if (!pd || !pd->dir) { errno = ENOENT; return -1; }
        auto tb = lookup(nb);
        if (tb && tb->dir && !nd->dir) { errno = EISDIR; return -1; }
        g_tree.erase(na);
        g_tree[nb] = nd;
        return 0;
}
static void stat_fill(std::shared_ptr<Node> n, struct stat* st) {
        memset(st, 0, sizeof *st);
        st->st_mode = n->dir ? (S_IFDIR | 0700) : (S_IFREG | 0600);
        st->st_size = n->data.size();
        st->st_mtime = knobs().wall0;
        st->st_nlink = 1;
}
int __wrap_stat(const char* path, struct stat* st) {
        std::string n = vfs_norm(path);
        step(E_DIR, "stat", n.c_str(), 0);
        if (fault_due(K_DIR_FAIL, E_DIR)) { errno = EACCES; return -1; }
        auto nd = lookup(n);
        if (!nd) { errno = ENOENT; return -1; }
        stat_fill(nd, st);
        return 0;
}
int __wrap_lstat(const char* path, struct stat* st) { return __wrap_stat(path, st); }
int __wrap_access(const char* path, int mode) {
        std::string n = vfs_norm(path);
        step(E_DIR, "access", n.c_str(), 0);
        if (fault_due(K_DIR_FAIL, E_DIR)) { errno = EACCES; return -1; }
        auto nd = lookup(n);
        if (!nd) { errno = ENOENT; return -1; }
        if (nd->unreadable && (mode & R_OK)) { errno = EACCES; return -1; }
        if (nd->readonly && (mode & W_OK)) { errno = EACCES; return -1; }
        return 0;
}
DIR* __wrap_opendir(const char* path) {
        std::string n = vfs_norm(path);
        step(E_DIR, "opendir", n.c_str(), 0);
        crash_maybe();
        int err = 0;
        if (fault_due(K_DIR_FAIL, E_DIR, &err)) { static const int e[] = {EACCES, EMFILE, ENFILE, EIO}; errno = e[err & 3]; return nullptr; }
        auto nd = lookup(n);
        if (!nd) { errno = ENOENT; return nullptr; }
        if (!nd->dir) { errno = ENOTDIR; return nullptr; }
        if (!(nd->mode & 0400)) { errno = EACCES; return nullptr; }
        SimDir* d = new SimDir;
        d->names = vfs_list(n);
        d->names.push_back("."); d->names.push_back("..");
        Rng r(g_knobs.chunk_seed + 77);
        for (size_t i = d->names.size(); i > 1; --i) std::swap(d->names[i - 1], d->names[r.below(i)]);
        d->i = 0;
        d->owner = cur(); d->op_serial = cur() ? cur()->op_serial : 0;
        dirs().insert(d);
        return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* dd) {
        SimDir* d = (SimDir*)dd;
        step(E_DIR, "readdir", "", 0);
        if (fault_due(K_DIR_FAIL, E_DIR)) { errno = EIO; return nullptr; }
        if (d->i >= d->names.size()) return nullptr;
        memset(&d->de, 0, sizeof d->de);
        snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->names[d->i++].c_str());
        return &d->de;
}
int __wrap_closedir(DIR* dd) {
        step(E_DIR, "closedir", "", 0);
        if (!dirs().erase((SimDir*)dd)) V("closedir-invalid", "closedir of a handle that is not open");
        delete (SimDir*)dd;
        return 0;
}
size_t sim_open_dirs() { return dirs().size(); }

void* __wrap_malloc(size_t n);
int __wrap_scandir(const char* path, struct dirent*** out, int (*sel)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
        std::string n = vfs_norm(path);
        step(E_DIR, "scandir", n.c_str(), 0);
        crash_maybe();
        int err = 0;
        if (fault_due(K_DIR_FAIL, E_DIR, &err)) { static const int e[] = {EACCES, EMFILE, ENOMEM, EIO}; errno = e[err & 3]; return -1; }
        auto nd = lookup(n);
        if (!nd) { errno = ENOENT; return -1; }
        if (!nd->dir) { errno = ENOTDIR; return -1; }
        std::vector<std::string>* names = new std::vector<std::string>(vfs_list(n));
        names->push_back("."); names->push_back("..");
        Rng r(g_knobs.chunk_seed + 77);
        for (size_t i = names->size(); i > 1; --i) std::swap((*names)[i - 1], (*names)[r.below(i)]);
        struct dirent** v = (struct dirent**)__wrap_malloc(sizeof(struct dirent*) * names->size());
        if (!v) { delete names; errno = ENOMEM; return -1; }
        int k = 0;
        for (auto& s : *names) {
                struct dirent* d = (struct dirent*)__wrap_malloc(sizeof(struct dirent));
                if (!d) { for (int i = 0; i < k; ++i) free(v[i]); free(v); delete names; errno = ENOMEM; return -1; }
                memset(d, 0, sizeof *d);
                snprintf(d->d_name, sizeof d->d_name, "%s", s.c_str());
                if (sel && !sel(d)) { free(d); continue; }
                v[k++] = d;
        }
        delete names;
        if (cmp) std::sort(v, v + k, [cmp](struct dirent* a, struct dirent* b) {
                const struct dirent* x = a; const struct dirent* y = b; return cmp(&x, &y) < 0; });
        *out = v;
        return k;
}

FILE* __wrap_popen(const char* cmd, const char* mode) {
        step(E_PIPE, "popen", cmd, mode[0]);
        crash_maybe();
        if (fault_due(K_PIPE_FAIL, E_PIPE)) { errno = EMFILE; return nullptr; }
        Stream* s = new Stream;
        s->pipe = std::make_shared<Pipe>();
        s->pipe->cmd = cmd;
        s->wr = true;
        s->path = std::string("|") + cmd;
        g_pipes.push_back(s->pipe);
        return make_stream(s, mode);
}
int __wrap_pclose(FILE* f) {
        auto it = g_open.find(f);
        if (it == g_open.end()) V("pclose-invalid", "pclose of a stream that is not open");
        std::shared_ptr<Pipe> p = it->second->pipe;
        if (!p) V("pclose-invalid", "pclose of a stream that is not a pipe");
        fclose(f);
        p->reaped = true;
        return p->broken ? 256 : p->status;
}

int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
        if (!cur() || !cur()->in_op) return __real_clock_gettime(id, ts);
        step(E_CLOCK, "clock", "", id);
        int err = 0;
        if (fault_due(K_CLOCK_JUMP, E_CLOCK, &err)) g_wall_jump += (int64_t)(err - 4) * 86400;
        g_sim_ns += 1000;
        int64_t ns = (int64_t)g_sim_ns, s = ns / 1000000000;
        ts->tv_sec = s; ts->tv_nsec = ns % 1000000000;
        if (id == CLOCK_REALTIME) ts->tv_sec += g_knobs.wall0 + g_wall_jump;
        else ts->tv_sec += 5000;
        return 0;
}
time_t __wrap_time(time_t* t) {
        if (!cur() || !cur()->in_op) return __real_time(t);
        step(E_CLOCK, "time", "", 0);
        int err = 0;
        if (fault_due(K_CLOCK_JUMP, E_CLOCK, &err)) g_wall_jump += (int64_t)(err - 4) * 86400;
        time_t v = (time_t)(g_knobs.wall0 + g_wall_jump + (g_knobs.same_second ? 0 : (int64_t)(g_sim_ns / 1000000000)));
        if (t) *t = v;
        return v;
}
// Randomness: after each refill of an SFMT generator the simulator may replace
// some of the words by the rarest values a generator can produce.
void __real_sfmt_gen_rand_all(void* st);
void __wrap_sfmt_gen_rand_all(void* st) {
        __real_sfmt_gen_rand_all(st);
        if (!cur() || !g_knobs.rand_extremes) return;
        static const uint32_t ext[] = {0xffffffffu, 0xffffff80u, 0xffffff7fu, 0, 0x80000000u, 0x7fffffffu, 0x80000001u, 1, 0xfffffffeu, 0x7fffff80u, 0x40000000u, 0xc0000000u};
        Rng r(g_knobs.rand_seed++);
        uint32_t* w = (uint32_t*)st;
        for (uint32_t i = 0; i < g_knobs.rand_extremes; ++i) {
                uint32_t at = r.below(624), run = 1 + (r.below(3) == 0 ? r.below(5) : 0), v = ext[r.below(12)];
                for (uint32_t k = 0; k < run && at + k < 624; ++k) w[at + k] = v;
                g_rs->fired[K_RAND]++;
        }
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
        if (!cur() || !cur()->in_op) return __real_gettimeofday(tv, tz);
        struct timespec ts;
        __wrap_clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
}

void* __wrap_malloc(size_t n) {
        if (!tracked()) { void* q = __real_malloc(n); if (g_mem_hook && t_task >= 0) g_mem_hook(q, n); return q; }
        if (alloc_denied(n)) { errno = ENOMEM; return nullptr; }
        void* q = note(line_alloc(n + GUARD), n);
        if (q) fill(q, n);
        return q;
}
void* __wrap_calloc(size_t a, size_t b) {
        if (!tracked()) { void* q = __real_calloc(a, b); if (g_mem_hook && t_task >= 0 && q) g_mem_hook(q, a * b); return q; }
        size_t n;
        if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
        if (alloc_denied(n)) { errno = ENOMEM; return nullptr; }
        void* q = line_alloc(n + GUARD);
        if (q) memset(q, 0, n + GUARD);
        return note(q, n);
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
        if (!tracked()) { void* q = nullptr; return posix_memalign(&q, al < 8 ? 8 : al, n) ? nullptr : q; }
        if (alloc_denied(n)) { errno = ENOMEM; return nullptr; }
        void* q = nullptr;
        if (posix_memalign(&q, al < 8 ? 8 : al, n + GUARD)) return nullptr;
        note(q, n);
        fill(q, n);
        return q;
}
int __real_posix_memalign(void**, size_t, size_t);
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
        if (!tracked()) return __real_posix_memalign(out, al, n);
        if (alloc_denied(n)) return ENOMEM;
        int rc = __real_posix_memalign(out, al, n + GUARD);
        if (rc == 0) { note(*out, n); fill(*out, n); }
        return rc;
}
void __wrap_free(void* q) {
        if (q && !t_busy) { t_busy = true; forget(q); t_busy = false; }
        __real_free(q);
}
void* __wrap_realloc(void* old, size_t n) {
        if (!tracked()) {
                if (old && !t_busy) { t_busy = true; forget(old); t_busy = false; }
                return __real_realloc(old, n);
        }
        if (!old) return __wrap_malloc(n);
        if (n == 0) { __wrap_free(old); return nullptr; }
        if (alloc_denied(n)) { errno = ENOMEM; return nullptr; }
        size_t have = malloc_usable_size(old);
        auto it = table().find(old);
        if (it != table().end()) have = it->second.n;
        if (knobs().move_realloc) {
                void* q = line_alloc(n + GUARD);
                if (!q) return nullptr;
                memcpy(q, old, std::min(have, n));
                g_rs->fired[K_MOVE_REALLOC]++;
                t_busy = true; forget(old); t_busy = false;
                __real_free(old);
                note(q, n);
                fill(q, n, std::min(have, n));
                return q;
        }
        t_busy = true; forget(old); t_busy = false;
        void* q = __real_realloc(old, n + GUARD);
        if (q && ((uintptr_t)q & 63)) {
                void* a = line_alloc(n + GUARD);
                memcpy(a, q, std::min(have, n));
                __real_free(q);
                q = a;
        }
        note(q, n);
        if (q) fill(q, n, std::min(have, n));
        return q;
}
char* __wrap_strdup(const char* s) {
        size_t n = strlen(s) + 1;
        char* q = (char*)__wrap_malloc(n);
        if (q) memcpy(q, s, n);
        return q;
}

void __wrap_exit(int code) {
        Proc* p = cur();
        if (!p || !p->in_op) __real_exit(code);
        op("  exit(%d)", code);
        // exit() flushes what the process still has open
        std::vector<Stream*> mine;
        for (auto& s : g_open) if (s.second->owner == p) mine.push_back(s.second);
        std::sort(mine.begin(), mine.end(), [](Stream* a, Stream* b) { return a->rng.s < b->rng.s; });
        for (auto s : mine) fflush(s->fp);
        p->exit_code = code;
        if (t_task >= 0 && p == g_region) { g_region_exit = true; g_region_code = code; siglongjmp(t_region_jb, 1); }
        siglongjmp(p->jb, JMP_EXIT);
}
void __real_abort(void);
void __wrap_abort(void) {
        if (cur() && cur()->in_op) V((std::string("abort@") + cur()->opname).c_str(), "abort() called");
        __real_abort();
}
int __wrap_backtrace(void** b, int n) { for (int i = 0; i < 3 && i < n; ++i) b[i] = (void*)(intptr_t)(0x1000 + i); return n < 3 ? n : 3; }
char** __wrap_backtrace_symbols(void* const*, int n) {
        char** v = (char**)__wrap_malloc(sizeof(char*) * (size_t)n + 8);
        if (!v) return nullptr;
        for (int i = 0; i < n; ++i) v[i] = (char*)"frame";
        return v;
}
}
