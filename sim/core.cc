// Choice tape, run isolation (one forked child per simulated run), seeded
// search, minimisation, replay and statistics.
#include "core.h"
#include "shared.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <signal.h>
#include <set>
#include <sstream>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <atomic>

extern "C" int __real_clock_gettime(clockid_t, struct timespec*);

namespace sim {

const char* const kind_name[NKINDS] = {
        "open_fail", "read_eio", "read_premature_eof", "write_eio", "write_enospc",
        "close_fail", "alloc_fail_once", "alloc_fail_sticky", "dir_op_fail",
        "process_crash", "pipe_fail", "clock_jump", "short_read", "short_write",
        "preemption", "realloc_moved", "input_torn_or_corrupted", "extreme_random_words"};

RunShared* g_rs = nullptr;      // shared with the parent of the current run
static Rng g_rng(0);
static bool g_replaying = false;
static uint32_t g_replay_n = 0;
static const uint32_t* g_replay = nullptr;
static bool g_trace = false;
bool tracing() { return g_trace; }

// ---------------------------------------------------------------- tape
static uint32_t tape_next(uint32_t n, uint64_t (*draw)(uint32_t)) {
        uint32_t pos = g_rs->ntape, v;
        if (pos >= TAPE_CAP) return 0;
        if (g_replaying) v = pos < g_replay_n ? g_replay[pos] : 0;
        else v = (uint32_t)draw(n);
        if (n && v >= n) v = v % n;
        g_rs->tape[pos] = v;
        g_rs->ntape = pos + 1;
        return v;
}
uint32_t choose(uint32_t n) {
        if (n <= 1) return 0;
        return tape_next(n, [](uint32_t m) -> uint64_t { return g_rng.next() % m; });
}
bool chance(uint32_t num, uint32_t den) {
        static uint32_t s_num, s_den;
        s_num = num; s_den = den;
        return tape_next(2, [](uint32_t) -> uint64_t { return (g_rng.next() % s_den) < s_num; }) != 0;
}
int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)choose((uint32_t)(hi - lo) + 1); }
uint64_t bits64() {
        uint64_t a = tape_next(0, [](uint32_t) -> uint64_t { return (uint32_t)g_rng.next(); });
        uint64_t b = tape_next(0, [](uint32_t) -> uint64_t { return (uint32_t)g_rng.next(); });
        return (a << 32) | b;
}
uint32_t small(uint32_t max) {
        if (max == 0) return 0;
        static uint32_t s_max;
        s_max = max;
        return tape_next(max + 1, [](uint32_t) -> uint64_t {
                uint64_t r = g_rng.next();
                uint32_t lim;
                switch (r & 7) {
                case 0: case 1: lim = 3; break;
                case 2: case 3: case 4: lim = 10; break;
                case 5: case 6: lim = s_max / 4 + 1; break;
                default: lim = s_max; break;
                }
                if (lim > s_max) lim = s_max;
                return (r >> 8) % (lim + 1);
        });
}

// ---------------------------------------------------------------- plan
static Ev kind_ev(Kind k) {
        switch (k) {
        case K_OPEN_FAIL: return E_OPEN;
        case K_READ_EIO: case K_READ_EOF: return E_READ;
        case K_WRITE_EIO: case K_WRITE_ENOSPC: return E_WRITE;
        case K_CLOSE_FAIL: return E_CLOSE;
        case K_ALLOC_FAIL: case K_ALLOC_STICKY: return E_ALLOC;
        case K_DIR_FAIL: return E_DIR;
        case K_PIPE_FAIL: return E_PIPE;
        case K_CLOCK_JUMP: return E_CLOCK;
        default: return E_IO;
        }
}
Plan draw_plan(const std::vector<Kind>& kinds, const uint32_t* ev, int max_faults) {
        Plan p;
        std::vector<Kind> av;
        for (Kind k : kinds) if (ev[kind_ev(k)] > 0) av.push_back(k);
        if (av.empty()) return p;
        int n = 1 + (max_faults > 1 && chance(1, 5) ? (int)choose(max_faults - 1) + 1 : 0);
        for (int i = 0; i < n; ++i) {
                Kind k = av[choose(av.size())];
                uint32_t c = ev[kind_ev(k)], nth;
                // early, late and uniform positions
                switch (choose(4)) {
                case 0: nth = choose(c); break;
                case 1: nth = c - 1 - std::min<uint32_t>(c - 1, choose(4)); break;
                case 2: nth = std::min<uint32_t>(c - 1, choose(6)); break;
                default: nth = choose(c); break;
                }
                p.faults.push_back({k, nth, (int)choose(8)});
        }
        return p;
}
std::string Plan::str() const {
        std::string s;
        for (auto& f : faults) {
                char b[80];
                snprintf(b, sizeof b, "%s%s@%u", s.empty() ? "" : "+", kind_name[f.kind], f.nth);
                s += b;
        }
        return s.empty() ? "none" : s;
}
bool fault_due(Kind k, Ev e, int* err) {
        Proc* p = cur();
        if (!p || !p->in_op) return false;
        for (auto& f : p->plan.faults)
                if (f.kind == k && f.nth + 1 == p->ev[e]) {
                        p->fired[k]++; p->hard++;
                        g_rs->fired[k]++;
                        if (err) *err = f.err;
                        op("  !! fault %s (#%u)", kind_name[k], f.nth);
                        return true;
                }
        return false;
}

// ---------------------------------------------------------------- reporting
uint64_t fnv(const void* p, size_t n, uint64_t h) {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        return h;
}
void hash_mix(uint64_t v) { g_rs->hash = fnv(&v, 8, g_rs->hash); }
void hash_bytes(const void* p, size_t n) { g_rs->hash = fnv(p, n, g_rs->hash); }
void op(const char* fmt, ...) {
        char b[400];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (n > (int)sizeof b - 1) n = sizeof b - 1;
        g_rs->sched_hash = fnv(b, n, g_rs->sched_hash);
        uint32_t t = g_rs->ntrace;
        if (t + n + 2 < TRACE_CAP) {
                memcpy(g_rs->trace + t, b, n);
                g_rs->trace[t + n] = '\n';
                g_rs->ntrace = t + n + 1;
        }
}
void note_kind(Kind k) { g_rs->fired[k]++; }
void probe(const char* name) {
        for (int i = 0; i < NPROBES; ++i) {
                if (g_rs->probes[i].name[0] == 0) strncpy(g_rs->probes[i].name, name, sizeof g_rs->probes[i].name - 1);
                if (!strncmp(g_rs->probes[i].name, name, sizeof g_rs->probes[i].name - 1)) { g_rs->probes[i].n++; return; }
        }
}
void violate(const char* cls, const char* fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(g_rs->msg, sizeof g_rs->msg, fmt, ap);
        va_end(ap);
        strncpy(g_rs->cls, cls, sizeof g_rs->cls - 1);
        g_rs->status = ST_VIOLATION;
        g_rs->sim_ns = g_sim_ns;
        _exit(1);
}

static std::vector<Check>& checks() { static std::vector<Check> c; return c; }
void register_check(const Check& c) { checks().push_back(c); }
static const Check* find_check(const std::string& id) {
        for (auto& c : checks()) if (id == c.id) return &c;
        return nullptr;
}

// ---------------------------------------------------------------- one run
static int g_errfd = -1;
static RunShared* new_shared() {
        void* m = mmap(nullptr, sizeof(RunShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); exit(2); }
        return (RunShared*)m;
}
static void clear_shared(RunShared* r) {
        r->status = ST_RUNNING;
        r->cls[0] = r->msg[0] = r->cur_op[0] = 0;
        r->hash = 1469598103934665603ull;
        r->sched_hash = 1469598103934665603ull;
        r->ntape = r->ntrace = 0;
        memset(r->fired, 0, sizeof r->fired);
        memset(r->probes, 0, sizeof r->probes);
        r->n_ops = r->n_events = r->sim_ns = 0;
}
static int g_cpu_limit = 20;

struct Outcome { int status; std::string cls, msg; uint64_t hash, sched; std::vector<uint32_t> tape; };

static void run_child(const Check* c, RunShared* rs, uint64_t seed, const std::vector<uint32_t>* tape) {
        g_rs = rs;
        g_rng = Rng(seed);
        g_replaying = tape != nullptr;
        if (tape) { g_replay = tape->data(); g_replay_n = tape->size(); }
        struct itimerval it = {{0, 0}, {g_cpu_limit, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
        reset_run();
        c->run();
        rs->sim_ns = g_sim_ns;
        rs->status = ST_OK;
        _exit(0);
}

static std::string read_fd_all(int fd) {
        std::string s;
        char b[4096];
        lseek(fd, 0, SEEK_SET);
        ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0) { s.append(b, n); if (s.size() > 65536) break; }
        return s;
}

static double now_s() {
        struct timespec ts;
        __real_clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// Forks, runs, classifies.
static Outcome execute(const Check* c, RunShared* rs, uint64_t seed, const std::vector<uint32_t>* tape) {
        clear_shared(rs);
        if (g_errfd < 0) g_errfd = memfd_create("simerr", 0);
        if (ftruncate(g_errfd, 0)) {}
        lseek(g_errfd, 0, SEEK_SET);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                dup2(g_errfd, 1);
                dup2(g_errfd, 2);
                run_child(c, rs, seed, tape);
        }
        int st = 0;
        double t0 = now_s();
        bool wall_killed = false;
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
        while (waitpid(pid, &st, WNOHANG) != pid) {
                struct timespec to = {1, 0};
                sigtimedwait(&ss, nullptr, &to);
                if (now_s() - t0 > 6 * g_cpu_limit) {
                        kill(pid, SIGKILL);
                        wall_killed = true;
                        waitpid(pid, &st, 0);
                        break;
                }
        }
        Outcome o;
        o.hash = rs->hash;
        o.sched = rs->sched_hash;
        o.tape.assign(rs->tape, rs->tape + rs->ntape);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && rs->status == ST_OK) {
                o.status = ST_OK;
        } else if (rs->status == ST_VIOLATION) {
                o.status = ST_VIOLATION; o.cls = rs->cls; o.msg = rs->msg;
        } else if (rs->status == ST_HARNESS) {
                o.status = ST_HARNESS; o.cls = rs->cls; o.msg = rs->msg;
        } else {
                o.status = ST_VIOLATION;
                std::string err = read_fd_all(g_errfd), kind;
                size_t p = err.find("ERROR: AddressSanitizer: ");
                if (p != std::string::npos) {
                        size_t q = p + strlen("ERROR: AddressSanitizer: ");
                        size_t e = err.find_first_of(" \n:", q);
                        kind = "memory-error:" + err.substr(q, e - q);
                } else if (wall_killed) kind = "blocked-forever";
                else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) kind = "hang";
                else if (WIFSIGNALED(st)) kind = std::string("signal-") + std::to_string(WTERMSIG(st));
                else kind = std::string("exit-") + std::to_string(WEXITSTATUS(st));
                o.cls = kind + "@" + (rs->cur_op[0] ? rs->cur_op : "scenario");
                o.msg = kind + " while executing '" + std::string(rs->cur_op) + "'";
                o.msg += "\n" + err.substr(p == std::string::npos ? 0 : p, 1500);
                o.hash = 0;  // state at the point of death is not hashed
        }
        return o;
}

// ---------------------------------------------------------------- minimise
static std::vector<uint32_t> minimise(const Check* c, RunShared* rs, std::vector<uint32_t> tape,
                                      const std::string& cls, double budget_s, unsigned* tries) {
        double t0 = now_s();
        auto still = [&](const std::vector<uint32_t>& t) {
                ++*tries;
                Outcome o = execute(c, rs, 0, &t);
                return o.status == ST_VIOLATION && o.cls == cls;
        };
        auto left = [&] { return now_s() - t0 < budget_s; };
        // trailing zeros are implied
        auto strip = [](std::vector<uint32_t>& t) { while (!t.empty() && t.back() == 0) t.pop_back(); };
        strip(tape);
        bool progress = true;
        while (progress && left()) {
                progress = false;
                for (size_t len = std::max<size_t>(1, tape.size() / 2); len >= 1 && left(); len /= 2) {
                        for (size_t i = 0; i + len <= tape.size() && left();) {
                                std::vector<uint32_t> t(tape);
                                t.erase(t.begin() + i, t.begin() + i + len);
                                strip(t);
                                if (t.size() < tape.size() && still(t)) { tape = t; progress = true; continue; }
                                bool any = false;
                                t = tape;
                                for (size_t j = i; j < i + len; ++j) { any |= t[j] != 0; t[j] = 0; }
                                strip(t);
                                if (any && still(t)) { tape = t; progress = true; }
                                i += len;
                        }
                        if (len == 1) break;
                }
                for (size_t i = 0; i < tape.size() && left(); ++i) {
                        while (tape[i] > 0 && left()) {
                                std::vector<uint32_t> t(tape);
                                t[i] = t[i] / 2;
                                strip(t);
                                if (still(t)) { tape = t; progress = true; if (i >= tape.size()) break; continue; }
                                if (tape[i] > 1) {
                                        t = tape; t[i]--; 
                                        if (still(t)) { tape = t; progress = true; continue; }
                                }
                                break;
                        }
                }
        }
        return tape;
}

// ---------------------------------------------------------------- json
static std::string jesc(const std::string& s) {
        std::string o;
        for (unsigned char ch : s) {
                switch (ch) {
                case '"': o += "\\\""; break;
                case '\\': o += "\\\\"; break;
                case '\n': o += "\\n"; break;
                case '\t': o += "\\t"; break;
                default:
                        if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
                        else o += ch;
                }
        }
        return o;
}
static std::string jlines(const std::string& s, size_t maxlines = 400) {
        std::string o = "[";
        std::istringstream is(s);
        std::string l;
        size_t n = 0;
        while (std::getline(is, l)) {
                if (n++ >= maxlines) { o += ", \"... (truncated)\""; break; }
                o += (n > 1 ? ",\n    \"" : "\n    \"") + jesc(l) + "\"";
        }
        return o + "]";
}

static void write_replay(const std::string& path, const Check* c, uint64_t seed, uint64_t run, const Outcome& o,
                         RunShared* rs, size_t orig_len) {
        std::ofstream f(path);
        f << "{\n  \"property\": \"" << c->id << "\",\n  \"verif_seed\": " << seed << ",\n  \"run_index\": " << run
          << ",\n  \"class\": \"" << jesc(o.cls) << "\",\n  \"message\": \"" << jesc(o.msg) << "\",\n  \"hash\": \""
          << o.hash << "\",\n  \"original_tape_length\": " << orig_len << ",\n  \"tape\": [";
        for (size_t i = 0; i < o.tape.size(); ++i) f << (i ? "," : "") << o.tape[i];
        f << "],\n  \"trace\": " << jlines(std::string(rs->trace, rs->ntrace)) << "\n}\n";
}
static bool load_replay(const std::string& path, std::string& prop, std::string& cls, std::string& hash, std::vector<uint32_t>& tape) {
        std::ifstream f(path);
        if (!f) return false;
        std::stringstream ss;
        ss << f.rdbuf();
        std::string s = ss.str();
        auto str = [&](const char* key) {
                std::string k = std::string("\"") + key + "\": \"";
                size_t p = s.find(k);
                if (p == std::string::npos) return std::string();
                p += k.size();
                std::string v;
                while (p < s.size() && s[p] != '"') { if (s[p] == '\\') ++p; v += s[p++]; }
                return v;
        };
        prop = str("property"); cls = str("class"); hash = str("hash");
        size_t p = s.find("\"tape\": [");
        if (p == std::string::npos) return false;
        p += 9;
        size_t e = s.find(']', p);
        std::stringstream ts(s.substr(p, e - p));
        std::string tok;
        while (std::getline(ts, tok, ',')) if (!tok.empty()) tape.push_back((uint32_t)strtoul(tok.c_str(), nullptr, 10));
        return true;
}

struct Known { std::string prop, cls, text; };
static std::vector<Known> load_known(const std::string& path) {
        // lines: open: property=C07 class=<glob> <what fails>   (other lines ignored)
        std::vector<Known> v;
        std::ifstream f(path);
        std::string l;
        while (std::getline(f, l)) {
                if (l.compare(0, 5, "open:") != 0) continue;
                size_t p = l.find("property="), q = l.find("class=");
                if (p == std::string::npos || q == std::string::npos) continue;
                Known k;
                k.prop = l.substr(p + 9, l.find(' ', p) - p - 9);
                size_t e = l.find(' ', q);
                k.cls = l.substr(q + 6, e - q - 6);
                k.text = e == std::string::npos ? "" : l.substr(e + 1);
                v.push_back(k);
        }
        return v;
}

// ---------------------------------------------------------------- search
struct Control { std::atomic<uint64_t> next; std::atomic<uint32_t> stop; };

static uint64_t run_seed(const char* id, uint64_t vseed, uint64_t idx) {
        uint64_t h = fnv(id, strlen(id));
        h = fnv(&vseed, 8, h);
        return fnv(&idx, 8, h);
}

static int cmd_run(int argc, char** argv) {
        std::string id, out, rdir = ".", known, work;
        uint64_t seed = 1, runs = 1000;
        double tmax = 60;
        int workers = 8;
        for (int i = 0; i + 1 < argc; i += 2) {
                std::string a = argv[i];
                if (a == "--check") id = argv[i + 1];
                else if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
                else if (a == "--runs") runs = strtoull(argv[i + 1], nullptr, 10);
                else if (a == "--time") tmax = atof(argv[i + 1]);
                else if (a == "--workers") workers = atoi(argv[i + 1]);
                else if (a == "--out") out = argv[i + 1];
                else if (a == "--replays") rdir = argv[i + 1];
                else if (a == "--known") known = argv[i + 1];
        }
        const Check* c = find_check(id);
        if (!c) { fprintf(stderr, "no such check %s\n", id.c_str()); return 2; }
        std::vector<Known> kn = load_known(known);
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);

        Control* ctl = (Control*)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (ctl) Control();
        ctl->next = 0; ctl->stop = 0;
        double t0 = now_s();
        std::vector<FILE*> res;
        std::vector<pid_t> pids;
        extern FILE* real_tmpfile();
        for (int w = 0; w < workers; ++w) {
                FILE* f = real_tmpfile();
                res.push_back(f);
                pid_t pid = fork();
                if (pid == 0) {
                        prctl(PR_SET_PDEATHSIG, SIGKILL);
                        RunShared* rs = new_shared();
                        uint64_t n = 0, ops = 0, events = 0, simns = 0, nontriv = 0, harness = 0;
                        uint64_t fired[NKINDS] = {0};
                        std::unordered_set<uint64_t> sched, schedn, hashes;
                        std::map<std::string, uint64_t> probes;
                        std::map<std::string, uint64_t> knownhits;
                        std::string viol, samples;
                        int nsamples = 0;
                        while (!ctl->stop.load()) {
                                uint64_t i = ctl->next.fetch_add(1);
                                if (i >= runs || now_s() - t0 > tmax) break;
                                Outcome o = execute(c, rs, run_seed(c->id, seed, i), nullptr);
                                ++n;
                                ops += rs->n_ops; events += rs->n_events; simns += rs->sim_ns;
                                bool nt = false;
                                for (int k = 0; k < NKINDS; ++k) { fired[k] += rs->fired[k]; nt |= rs->fired[k] != 0; }
                                for (int k = 0; k < NPROBES && rs->probes[k].name[0]; ++k) probes[rs->probes[k].name] += rs->probes[k].n;
                                sched.insert(o.sched);
                                if (nt) { ++nontriv; schedn.insert(o.sched); }
                                hashes.insert(o.hash);
                                if (nt && nsamples < 2 && o.status == ST_OK) {
                                        ++nsamples;
                                        samples += "S\t" + std::to_string(i) + "\t" +
                                                   jesc(std::string(rs->trace, std::min<uint32_t>(rs->ntrace, 1200))) + "\n";
                                }
                                if (o.status == ST_HARNESS) { viol += "H\t" + std::to_string(i) + "\t" + jesc(o.cls + ": " + o.msg) + "\n"; ctl->stop = 1; }
                                if (o.status == ST_VIOLATION) {
                                        bool isknown = false;
                                        for (auto& k : kn)
                                                if (k.prop == c->id && !fnmatch(k.cls.c_str(), o.cls.c_str(), 0)) { knownhits[k.cls]++; isknown = true; }
                                        if (!isknown) {
                                                viol += "V\t" + std::to_string(i) + "\t" + jesc(o.cls) + "\n";
                                                if (!getenv("SIM_KEEP")) ctl->stop = 1;
                                        }
                                }
                        }
                        fprintf(f, "N\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\n", n, ops, events, simns, nontriv, harness);
                        for (int k = 0; k < NKINDS; ++k) fprintf(f, "F\t%d\t%lu\n", k, fired[k]);
                        for (auto& p : probes) fprintf(f, "P\t%s\t%lu\n", p.first.c_str(), p.second);
                        for (auto& p : knownhits) fprintf(f, "K\t%s\t%lu\n", p.first.c_str(), p.second);
                        for (auto h : sched) fprintf(f, "A\t%lu\n", h);
                        for (auto h : schedn) fprintf(f, "B\t%lu\n", h);
                        for (auto h : hashes) fprintf(f, "O\t%lu\n", h);
                        fputs(viol.c_str(), f);
                        fputs(samples.c_str(), f);
                        fflush(f);
                        _exit(0);
                }
                pids.push_back(pid);
        }
        int bad = 0;
        for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
        if (bad) { fprintf(stderr, "worker failed\n"); return 2; }
        double search_s = now_s() - t0;
        uint64_t n = 0, ops = 0, events = 0, simns = 0, nontriv = 0;
        uint64_t fired[NKINDS] = {0};
        std::set<uint64_t> sched, schedn, hashes;
        std::map<std::string, uint64_t> probes, knownhits;
        std::map<uint64_t, std::string> viols;
        std::vector<std::pair<uint64_t, std::string>> samples;
        std::string harness;
        for (FILE* f : res) {
                rewind(f);
                char* line = nullptr; size_t cap = 0; ssize_t len;
                while ((len = getline(&line, &cap, f)) > 0) {
                        if (line[len - 1] == '\n') line[--len] = 0;
                        std::vector<std::string> t;
                        std::stringstream st(line);
                        std::string x;
                        while (std::getline(st, x, '\t')) t.push_back(x);
                        auto U = [&](size_t i) { return i < t.size() ? strtoull(t[i].c_str(), nullptr, 10) : 0ull; };
                        switch (line[0]) {
                        case 'N': n += U(1); ops += U(2); events += U(3); simns += U(4); nontriv += U(5); break;
                        case 'F': fired[U(1)] += U(2); break;
                        case 'P': probes[t[1]] += U(2); break;
                        case 'K': knownhits[t[1]] += U(2); break;
                        case 'A': sched.insert(U(1)); break;
                        case 'B': schedn.insert(U(1)); break;
                        case 'O': hashes.insert(U(1)); break;
                        case 'V': viols[U(1)] = t.size() > 2 ? t[2] : ""; break;
                        case 'H': harness = t.size() > 2 ? t[2] : "?"; break;
                        case 'S': if (t.size() > 2) samples.push_back({U(1), t[2]}); break;
                        }
                }
                free(line);
        }
        if (!harness.empty()) { fprintf(stderr, "HARNESS ERROR: %s\n", harness.c_str()); return 2; }
        RunShared* rs = new_shared();
        // determinism self-check on a few of the runs just made
        unsigned det_checked = 0;
        for (uint64_t i = 0; i < std::min<uint64_t>(n, 6); ++i) {
                Outcome a = execute(c, rs, run_seed(c->id, seed, i), nullptr);
                std::vector<uint32_t> tape = a.tape;
                Outcome b = execute(c, rs, run_seed(c->id, seed, i), nullptr);
                Outcome d = execute(c, rs, 0, &tape);
                if (a.cls != b.cls || a.hash != b.hash || a.sched != b.sched || a.cls != d.cls || a.hash != d.hash || a.sched != d.sched) {
                        fprintf(stderr, "NONDETERMINISM: check %s run %lu: cls %s/%s/%s hash %lx/%lx/%lx sched %lx/%lx/%lx\n", c->id, (unsigned long)i,
                                a.cls.c_str(), b.cls.c_str(), d.cls.c_str(), a.hash, b.hash, d.hash, a.sched, b.sched, d.sched);
                        return 2;
                }
                ++det_checked;
        }
        if (getenv("SIM_KEEP")) {
                std::map<std::string, std::pair<int, uint64_t>> tally;
                for (auto& v : viols) { if (!tally.count(v.second)) tally[v.second].second = v.first; tally[v.second].first++; }
                for (auto& t : tally) fprintf(stderr, "%6d x %s (first run %lu)\n", t.second.first, t.first.c_str(), (unsigned long)t.second.second);
                return viols.empty() ? 0 : 1;
        }
        int rc = 0, nv = 0;
        std::string vjson;
        std::set<std::string> seen;
        for (auto& kh : knownhits)
                for (auto& k : kn)
                        if (k.cls == kh.first && k.prop == c->id)
                                printf("KNOWN-FINDING: property=%s %s (seen in %lu runs)\n", c->id, k.text.c_str(), kh.second);
        for (auto& v : viols) {
                if (nv >= 2 || seen.count(v.second)) continue;
                seen.insert(v.second);
                Outcome o = execute(c, rs, run_seed(c->id, seed, v.first), nullptr);
                Outcome o2 = execute(c, rs, run_seed(c->id, seed, v.first), nullptr);
                if (o.status != ST_VIOLATION || o2.cls != o.cls || o2.hash != o.hash) {
                        fprintf(stderr, "GATE: run %lu not repeatable (%s / %s)\n", (unsigned long)v.first, o.cls.c_str(), o2.cls.c_str());
                        rc = 2; continue;
                }
                unsigned tries = 0;
                size_t orig = o.tape.size();
                double mb = getenv("SIM_MIN_S") ? atof(getenv("SIM_MIN_S")) : 20;
                std::vector<uint32_t> t = minimise(c, rs, o.tape, o.cls, mb, &tries);
                Outcome m = execute(c, rs, 0, &t);
                if (m.status != ST_VIOLATION || m.cls != o.cls) { m = execute(c, rs, 0, &o.tape); t = o.tape; }
                m.tape = t;
                mkdir(rdir.c_str(), 0777);
                std::string path = rdir + "/" + c->id + "-" + std::to_string(seed) + "-" + std::to_string(v.first) + ".json";
                write_replay(path, c, seed, v.first, m, rs, orig);
                fprintf(stderr, "violation class %s: %s\n  run %lu, tape %zu -> %zu after %u replays\n", m.cls.c_str(), m.msg.c_str(),
                        (unsigned long)v.first, orig, t.size(), tries);
                // fresh-process replay
                char exe[512];
                ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
                exe[l > 0 ? l : 0] = 0;
                pid_t pid = fork();
                if (pid == 0) {
                        int fd = open("/dev/null", O_WRONLY);
                        dup2(fd, 1); dup2(fd, 2);
                        execl(exe, exe, "replay", path.c_str(), (char*)nullptr);
                        _exit(3);
                }
                int st;
                waitpid(pid, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
                        fprintf(stderr, "GATE: replay of %s in a fresh process did not reproduce (status %x)\n", path.c_str(), st);
                        rc = 2; continue;
                }
                printf("VIOLATION property=%s replay=%s\n", c->id, path.c_str());
                vjson += (nv ? ", " : "") + std::string("{\"class\": \"") + jesc(m.cls) + "\", \"message\": \"" + jesc(m.msg.substr(0, 600)) + "\", \"replay\": \"" + jesc(path) + "\"}";
                ++nv;
        }
        if (nv) rc = 1;
        if (!out.empty()) {
                std::ofstream f(out);
                f << "{\n  \"evaluations\": " << n << ",\n  \"requested_runs\": " << runs << ",\n  \"distinct_nontrivial\": " << schedn.size()
                  << ",\n  \"distinct_event_sequences\": " << sched.size() << ",\n  \"distinct_outcomes\": " << hashes.size()
                  << ",\n  \"runs_with_a_fault_or_preemption\": " << nontriv
                  << ",\n  \"ops\": " << ops << ",\n  \"seam_events\": " << events << ",\n  \"simulated_seconds\": " << simns * 1e-9
                  << ",\n  \"search_wall_s\": " << search_s << ",\n  \"runs_per_hour\": " << (uint64_t)(search_s > 0 ? n / search_s * 3600 : 0)
                  << ",\n  \"determinism_reruns\": " << det_checked
                  << ",\n  \"rule\": \"" << jesc(c->rule) << "\",\n  \"faults_fired\": {";
                bool first = true;
                for (int k = 0; k < NKINDS; ++k) if (fired[k]) { f << (first ? "" : ", ") << "\"" << kind_name[k] << "\": " << fired[k]; first = false; }
                f << "},\n  \"probes\": {";
                first = true;
                for (auto& p : probes) { f << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
                f << "},\n  \"samples\": [";
                std::sort(samples.begin(), samples.end());
                for (size_t i = 0; i < std::min<size_t>(samples.size(), 3); ++i)
                        f << (i ? ",\n    " : "\n    ") << "{\"run_index\": " << samples[i].first << ", \"trace\": \"" << samples[i].second << "\"}";
                f << "],\n  \"violations\": [" << vjson << "],\n  \"known_findings_seen\": " << knownhits.size() << "\n}\n";
        }
        return rc;
}

static int cmd_replay(const char* path) {
        std::string prop, cls, hash;
        std::vector<uint32_t> tape;
        if (!load_replay(path, prop, cls, hash, tape)) { fprintf(stderr, "cannot read %s\n", path); return 2; }
        const Check* c = find_check(prop);
        if (!c) return 2;
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
        RunShared* rs = new_shared();
        Outcome o = execute(c, rs, 0, &tape);
        fwrite(rs->trace, 1, rs->ntrace, stdout);
        printf("status=%d class=%s hash=%lu\n%s\n", o.status, o.cls.c_str(), o.hash, o.msg.c_str());
        if (o.status == ST_VIOLATION && o.cls == cls && std::to_string(o.hash) == hash) {
                printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path);
                return 1;
        }
        return o.status == ST_OK ? 0 : 2;
}
static int cmd_one(const char* id, uint64_t seed, uint64_t idx) {
        const Check* c = find_check(id);
        if (!c) return 2;
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
        RunShared* rs = new_shared();
        Outcome o = execute(c, rs, run_seed(id, seed, idx), nullptr);
        fwrite(rs->trace, 1, rs->ntrace, stdout);
        printf("status=%d class=%s tape=%zu hash=%lx sched=%lx\n%s\n", o.status, o.cls.c_str(), o.tape.size(), o.hash, o.sched, o.msg.c_str());
        return o.status == ST_OK ? 0 : 1;
}
}  // namespace sim

int main(int argc, char** argv) {
        // identical address layout in every process keeps replays exact
        if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR_DONE")) {
                setenv("SIM_ASLR_DONE", "1", 1);
                if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
        }
        if (argc >= 2 && !strcmp(argv[1], "run")) return sim::cmd_run(argc - 2, argv + 2);
        if (argc >= 3 && !strcmp(argv[1], "replay")) return sim::cmd_replay(argv[2]);
        if (argc >= 5 && !strcmp(argv[1], "one")) return sim::cmd_one(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10));
        if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto& c : sim::checks()) printf("%s %u %u\n", c.id, c.quick_runs, c.thorough_runs); return 0; }
        fprintf(stderr, "usage: sim run --check ID ... | replay FILE | one ID SEED IDX | list\n");
        return 2;
}

// ASan options baked in: identical behaviour however the binary is started.
extern "C" const char* __asan_default_options() {
        return "detect_leaks=0:allocator_may_return_null=1:symbolize=0:exitcode=77:abort_on_error=0:"
               "detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:max_malloc_fill_size=0:"
               "malloc_context_size=4:quarantine_size_mb=16:print_summary=0:color=never:alloc_dealloc_mismatch=0";
}
