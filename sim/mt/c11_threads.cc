// C11: independent library calls on several threads of one process.
#include "../checks/ops.h"
#include "rt.h"
#include <set>
#include "virg/nexus/nx_log.h"

namespace {
// operations built on the process-wide objects of the library (default random
// generators, JSON log, log settings) are documented to share them
const std::set<std::string>& shared_state_ops() {
        static const std::set<std::string> s = {"samplers", "robust estimation", "JSON log"};
        return s;
}
std::vector<const ApiOp*> usable() {
        std::vector<const ApiOp*> v;
        for (auto& o : api_ops()) if (!shared_state_ops().count(o.name)) v.push_back(&o);
        return v;
}
struct Job { const ApiOp* o; uint64_t seed; Dig ref; bool exited; int code; OpResult r; Dig got; Plan plan; };
void run() {
        draw_knobs();
        mt::reset();
        static const std::vector<const ApiOp*>* ops = new std::vector<const ApiOp*>(usable());
        int n = 2 + choose(2);
        bool faults = chance(1, 3);
        if (faults) knobs().chunked_io = false;         // a fault position means the same alone and together
        std::vector<Job> js(n);
        bool twins = choose(3) == 0;    // the same operation on every thread
        for (int i = 0; i < n; ++i) {
                const char* f = getenv("SIM_C11_OP");
                js[i].o = twins && i ? js[0].o : (*ops)[choose((uint32_t)ops->size())];
                if (f) for (auto o : *ops) if (!strcmp(f, o->name)) js[i].o = o;
                js[i].seed = bits64();
        }
        // reference: each call alone
        for (int i = 0; i < n; ++i) {
                Job& j = js[i];
                set_root(i + 1);
                vfs_mkdir("/d"); vfs_mkdir("/tmp"); vfs_mkdir("/");
                Tree before = vfs();
                Rng pr(j.seed ^ 0x77);
                if (j.o->prep) j.o->prep(pr);
                Tree prepared = vfs();
                op("thread %d alone: %s", i, j.o->name);
                auto alone = [&](const Plan& p) {
                        vfs() = prepared;
                        for (auto& e : vfs()) if (!e.second->dir) { auto c = std::make_shared<Node>(*e.second); e.second = c; }
                        j.ref.clear();
                        OpResult r;
                        mt::run_threads({[&] { set_root(i + 1); r = run_op(j.o->name, p, [&] { Rng r(j.seed); j.o->fn(r, j.ref); }); }}, 0, j.o->name);
                        return r;
                };
                OpResult r0 = alone(Plan::none());
                for (int k = 0; k < 4 && !r0.ok(); ++k) {       // this input is one the call refuses: take another
                        j.seed = bits64();
                        vfs() = before;
                        Rng p2(j.seed ^ 0x77);
                        if (j.o->prep) j.o->prep(p2);
                        prepared = vfs();
                        sim_stderr().clear();
                        r0 = alone(Plan::none());
                }
                if (!r0.ok()) { probe("only refused inputs"); return; }
                if (faults && choose(2)) {     // an I/O error on this thread that the call reports to its caller
                        Plan p = draw_plan({K_OPEN_FAIL, K_READ_EIO, K_READ_EOF, K_WRITE_EIO, K_WRITE_ENOSPC, K_CLOSE_FAIL}, r0.ev, 1);
                        if (!p.empty()) {
                                OpResult r1 = alone(p);
                                if (r1.ok()) { j.plan = p; probe("I/O error on a thread"); }
                                else alone(Plan::none());
                        }
                }
                // the files as they were before the call
                vfs() = prepared;
                for (auto& e : vfs()) if (!e.second->dir) { auto c = std::make_shared<Node>(*e.second); e.second = c; }
        }
        set_root(0);
        static const uint32_t means[] = {10, 60, 400, 3000, 30000, 300000};
        uint32_t mean = means[choose(6)];
        std::string what = js[0].o->name;
        for (int i = 1; i < n; ++i) if (what.find(js[i].o->name) == std::string::npos) what += std::string("+") + js[i].o->name;
        op("%d threads, preemption every %u accesses: %s", n, mean, what.c_str());
        std::vector<std::function<void()>> tasks;
        for (int i = 0; i < n; ++i) tasks.push_back([&js, i] {
                set_root(i + 1);
                Job& j = js[i];
                j.r = run_op(j.o->name, j.plan, [&j] { Rng r(j.seed); j.o->fn(r, j.got); });
        });
        mt::run_threads(tasks, mean, what.c_str());
        for (int i = 0; i < n; ++i) {
                Job& j = js[i];
                std::string cls = std::string("interference@") + j.o->name;
                if (!j.r.ok()) V(cls.c_str(), "%s on thread %d ended the process (code %d) next to %s: %.300s", j.o->name, i, j.r.code, what.c_str(), sim_stderr().c_str());
                if (j.got.failed != j.ref.failed || j.got.seq != j.ref.seq) {
                        size_t k = 0;
                        while (k < j.got.seq.size() && k < j.ref.seq.size() && j.got.seq[k] == j.ref.seq[k]) ++k;
                        V(cls.c_str(), "%s on thread %d gives another result than alone (observation %zu of %zu) next to %s", j.o->name, i, k, j.ref.seq.size(), what.c_str());
                }
                for (uint64_t v : j.got.seq) hash_mix(v);
        }
        probe(twins ? "same call on every thread" : "different calls");
}
Reg reg({"C11", run,
         "2-3 simulated threads of one process, each in a drawn whole-API operation on its own objects and files, preempted at single memory accesses and at I/O steps, observe exactly what each observes alone, "
         "without unordered conflicting accesses to any memory", 16000, 600000});
}  // namespace
