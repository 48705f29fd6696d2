// C15: directory helpers tell the truth and converge while other processes
// create and remove entries and the file system fails.
#include "util.h"
#include <set>
#include "virg/nexus/nx_filesystem.h"
#include "virg/nexus/nx_string_array.h"

namespace {
typedef std::set<std::string> Names;
uint64_t g_time;
std::vector<std::pair<uint64_t, std::string>> g_added, g_removed;
Names all_paths() { Names s; for (auto& e : vfs()) s.insert(e.first); return s; }
void put(const std::string& p, const std::string& d) { vfs_put(p, d); g_added.push_back({++g_time, vfs_norm(p)}); }
void del(const std::string& p) { if (vfs().erase(vfs_norm(p))) g_removed.push_back({++g_time, vfs_norm(p)}); }

struct Window {
        Names s0, s1;
        uint64_t t0;
        void open() { s0 = all_paths(); t0 = g_time; }
        void close() { s1 = all_paths(); }
        bool possible(const std::string& n) const {     // existed at some moment of the call
                if (s0.count(n) || s1.count(n)) return true;
                for (auto& a : g_added) if (a.first > t0 && a.second == n) return true;
                return false;
        }
        bool certain(const std::string& n) const {      // existed all through the call
                if (!s0.count(n) || !s1.count(n)) return false;
                for (auto& a : g_removed) if (a.first > t0 && a.second == n) return false;
                return true;
        }
};
const char* DIRS[] = {"/w/a", "/w/b", "/w/a/c", "/w/a/c/d", "/w/none/x", "/w", "w2", "/w/a/", "/w/b//", "/w/f0"};
std::string name_of(int i, int flavour) {
        static const char* odd[] = {"B", "a", "Z9", "_x", ".hidden", "10", "9", "a b", "\xc3\xa9", "~", "aa", "A"};
        if (flavour) return odd[i % 12];
        char b[32];
        snprintf(b, sizeof b, "f%d", i);
        return b;
}
void one_op(int task, const Plan& plan) {
        (void)task;
        Window w;
        int k = choose(8);
        std::string path;
        static std::string result[4][64];
        size_t e0 = sim_stderr().size();
        if (k <= 2) {                              // ensure_dir
                path = DIRS[choose(10)];
                std::string n = vfs_norm(path);
                std::string parent = n.substr(0, n.rfind('/'));
                if (parent.empty()) parent = "/";
                op("p%d ensure_dir %s", task, path.c_str());
                w.open();
                std::string p = path;
                OpResult r = run_op("nx_ensure_dir", plan, [&] { nx_ensure_dir(p.c_str()); });
                w.close();
                if (r.how == OpResult::CRASHED) return;
                bool isfile = vfs_has(n) && !vfs_is_dir(n);
                if (r.ok()) {
                        if (!vfs_is_dir(n)) V("ensure-dir-missing", "nx_ensure_dir(%s) returned but there is no such directory", p.c_str());
                        probe("ensured");
                } else {
                        expect_orderly_fatal(r, "nx_ensure_dir", e0);
                        if (!r.hard && w.certain(parent) && vfs_is_dir(parent) && !isfile) V("ensure-dir-fails", "nx_ensure_dir(%s) stopped the process although nothing kept it from creating the directory", p.c_str());
                        probe("ensure-fatal");
                }
                if (r.leaked_dirs) V("dir-handle-leak", "nx_ensure_dir(%s) left %zu directory handles open", p.c_str(), r.leaked_dirs);
                hash_mix(r.how);
        } else if (k <= 4) {                       // scan_dir
                path = DIRS[choose(10)];
                std::string n = vfs_norm(path);
                op("p%d scan_dir %s", task, path.c_str());
                w.open();
                std::vector<std::string>* got = new std::vector<std::string>;
                OpResult r = run_op("nx_scan_dir", plan, [&] {
                        struct NXStringArray* sa = nx_scan_dir(path.c_str());
                        for (int i = 0; i < nx_string_array_size(sa); ++i) { const char* q = nx_string_array_get(sa, i); got->push_back(q ? q : "(null)"); }
                        nx_string_array_free(sa);
                });
                w.close();
                std::vector<std::string> l = *got;
                delete got;
                if (r.how == OpResult::CRASHED) return;
                if (!r.ok()) {
                        expect_orderly_fatal(r, "nx_scan_dir", e0);
                        if (!r.hard && w.certain(n) && vfs_is_dir(n)) V("scan-fails", "nx_scan_dir(%s) stopped the process although the directory exists", path.c_str());
                        return;
                }
                if (!w.possible(n)) V("scan-of-nothing", "nx_scan_dir(%s) listed a directory that does not exist", path.c_str());
                if (!vfs_is_dir(n) && w.certain(n)) V("scan-of-nothing", "nx_scan_dir(%s) listed something that is not a directory", path.c_str());
                for (size_t i = 0; i < l.size(); ++i) {
                        if (i && strcmp(l[i - 1].c_str(), l[i].c_str()) >= 0) V("scan-order", "nx_scan_dir(%s) lists '%s' before '%s'", path.c_str(), l[i - 1].c_str(), l[i].c_str());
                        if (l[i] == "." || l[i] == "..") continue;
                        if (!w.possible(vfs_norm(n + "/" + l[i]))) V("scan-invents", "nx_scan_dir(%s) lists '%s', which never existed", path.c_str(), l[i].c_str());
                }
                for (auto& x : w.s0) {
                        if (x == "/" || x.size() <= n.size() || x.substr(0, x.rfind('/')) != n || !w.certain(x)) continue;
                        if (std::find(l.begin(), l.end(), x.substr(x.rfind('/') + 1)) == l.end()) V("scan-misses", "nx_scan_dir(%s) does not list %s, which existed all along (%zu entries listed)", path.c_str(), x.c_str(), l.size());
                }
                hash_mix(l.size());
                if (r.leaked_dirs || r.leaked_allocs) V("scan-leak", "nx_scan_dir(%s) left %zu allocations and %zu directory handles behind: %s", path.c_str(), r.leaked_allocs, r.leaked_dirs, r.leak_info.c_str());
                if (l.size() > 20) probe("big-dir");
        } else if (k == 5) {                       // check_dir
                path = DIRS[choose(10)];
                std::string n = vfs_norm(path);
                op("p%d check_dir %s", task, path.c_str());
                w.open();
                NXBool b = NX_FALSE;
                OpResult r = run_op("nx_check_dir", plan, [&] { b = nx_check_dir(path.c_str()); });
                w.close();
                if (r.how == OpResult::CRASHED) return;
                if (!r.ok()) V("check-stops", "nx_check_dir(%s) stopped the process", path.c_str());
                bool isdir = vfs_is_dir(n);
                if (b && (!w.possible(n) || (w.certain(n) && !isdir))) V("check-dir-lies", "nx_check_dir(%s) says yes", path.c_str());
                if (!b && !r.hard && w.certain(n) && isdir) V("check-dir-lies", "nx_check_dir(%s) says no although the directory existed all along", path.c_str());
                if (r.leaked_dirs) V("dir-handle-leak", "nx_check_dir(%s) left %zu directory handles open", path.c_str(), r.leaked_dirs);
                hash_mix(b);
        } else if (k == 6) {                       // check_file
                std::string n = std::string(DIRS[choose(2)]) + "/" + name_of(choose(12), choose(2));
                if (chance(1, 8)) n = "/w/f0";
                if (chance(1, 8)) n = "/w/secret";
                if (chance(1, 8)) n = "/w/fixed";
                path = n;
                op("p%d check_file %s", task, n.c_str());
                w.open();
                NXBool b = NX_FALSE;
                OpResult r = run_op("nx_check_file", plan, [&] { b = nx_check_file(path.c_str()); });
                w.close();
                if (r.how == OpResult::CRASHED) return;
                if (!r.ok()) V("check-stops", "nx_check_file(%s) stopped the process", n.c_str());
                bool readable = n != "/w/secret";
                if (b && (!w.possible(n) || !readable)) V("check-file-lies", "nx_check_file(%s) says yes", n.c_str());
                if (!b && !r.hard && w.certain(n) && readable) V("check-file-lies", "nx_check_file(%s) says no although the file existed all along", n.c_str());
                if (r.leaked_files) V("file-handle-leak", "nx_check_file(%s) left %zu files open", n.c_str(), r.leaked_files);
                hash_mix(b);
        } else {                                   // another program at work
                std::string d = DIRS[choose(2)];
                if (vfs_is_dir(d)) {
                        std::string n = d + "/" + name_of(choose(12), choose(2));
                        if (chance(2, 3)) { op("p%d creates %s", task, n.c_str()); put(n, "x"); } else { op("p%d removes %s", task, n.c_str()); del(n); }
                }
                yield_point();
        }
}
void run() {
        draw_knobs();
        g_time = 0; g_added.clear(); g_removed.clear();
        vfs_mkdir("/w");
        for (const char* d : {"/w/a", "/w/b"}) if (chance(1, 2)) {
                vfs_mkdir(d);
                int n = small(60), fl = choose(2);
                for (int i = 0; i < n; ++i) put(std::string(d) + "/" + name_of(i, fl), "y");
                if (chance(1, 3)) vfs_mkdir(std::string(d) + "/sub");
        }
        put("/w/f0", "file");
        put("/w/fixed", "c");
        vfs()["/w/fixed"]->readonly = true;
        put("/w/secret", "s");
        vfs()["/w/secret"]->unreadable = true;
        std::map<std::string, std::string> files;
        bool faulty = chance(1, 2);
        int np = 1 + choose(4), nops = 1 + small(5);
        std::vector<std::function<void()>> ts;
        static const std::vector<Kind> kinds = {K_DIR_FAIL, K_OPEN_FAIL, K_ALLOC_FAIL, K_ALLOC_STICKY, K_CRASH, K_CLOSE_FAIL};
        static const uint32_t ev[NEVS] = {2, 2, 2, 2, 12, 4, 6, 0, 0};
        if (np == 1) {
                for (int j = 0; j < nops * 2; ++j) one_op(0, faulty && chance(1, 2) ? draw_plan(kinds, ev) : Plan::none());
        } else {
                for (int i = 0; i < np; ++i) ts.push_back([=] { for (int j = 0; j < nops; ++j) one_op(i, faulty && chance(1, 2) ? draw_plan(kinds, ev) : Plan::none()); });
                run_tasks(ts, 1 + choose(3));
        }
        if (vfs_get("/w/f0") != "file" || vfs_get("/w/fixed") != "c") V("file-damaged", "a directory helper changed a regular file");
        // once faults stop every process can establish its directories
        run_clean("settle", [&] {
                nx_ensure_dir("/w/a"); nx_ensure_dir("/w/a/c"); nx_ensure_dir("/w/a/c/d");
                FILE* f = fopen("/w/a/c/d/data", "w");
                if (!f) V("unusable-dir", "no file can be created in a directory nx_ensure_dir made");
                fclose(f);
                if (!nx_check_file("/w/a/c/d/data")) V("check-file-lies", "a file just created is not found");
                remove("/w/a/c/d/data");
                if (!nx_check_dir("/w/a/c/d")) V("no-convergence", "after faults stopped the nested directories could not be established");
                struct NXStringArray* sa = nx_scan_dir("/w/a/c");
                bool ok = false;
                for (int i = 0; i < nx_string_array_size(sa); ++i) ok |= !strcmp(nx_string_array_get(sa, i), "d");
                nx_string_array_free(sa);
                if (!ok) V("scan-misses", "a directory just created is not listed");
        });
}
Reg reg({"C15", run,
         "one run = 1-4 simulated processes calling nx_ensure_dir/nx_scan_dir/nx_check_dir/nx_check_file on overlapping paths (missing parents, regular files, trailing slashes, odd names, up to 62 entries) while others "
         "create and remove entries, switched at every file-system step, half of them with directory/open/close/allocation failures or a crash; non-trivial = a preemption or fault happened; distinct = different seam "
         "event/fault/switch/outcome sequence",
         40000, 1500000});
}
