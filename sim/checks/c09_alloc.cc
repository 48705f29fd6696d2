// C09: running out of memory stops the process in an orderly way or is reported; it never yields a wrong result.
// C10: operations give back everything they took, also when they fail.
#include "ops.h"

namespace {
Dig want, got;
struct Case { const ApiOp* op; uint64_t seed; };
Case draw_case() {
        auto& ops = api_ops();
        Case c;
        c.op = &ops[choose((uint32_t)ops.size())];
        c.seed = choose(1u << 20);
        op("operation '%s' seed %llu", c.op->name, (unsigned long long)c.seed);
        return c;
}
void fresh(const Case& c) {
        vfs_clear();
        vfs_mkdir("/d"); vfs_mkdir("/tmp");
        pipes().clear();
        if (c.op->prep) { Rng r(c.seed ^ 0x5555); c.op->prep(r); }
}
OpResult exec(const Case& c, Dig& d, const Plan& p) {
        fresh(c);
        d.clear();
        run_clean("reset", [] { reset_library_globals(); });
        return run_op(c.op->name, p, [&] { Rng r(c.seed); c.op->fn(r, d); });
}
// what a run observed, against the fault-free run
void compare(const Case& c, const OpResult& r, const Plan& p, size_t e0) {
        std::string at = std::string("@") + c.op->name;
        if (r.fatal()) {
                if (!r.hard) V(("spurious-failure" + at).c_str(), "%s stopped although no fault was injected", c.op->name);
                expect_orderly_fatal(r, c.op->name, e0);
                probe("orderly stop");
                return;
        }
        if (got.failed && !want.failed && !r.hard) V(("spurious-failure" + at).c_str(), "%s reported a failure although no fault was injected", c.op->name);
        size_t n = std::min(got.seq.size(), want.seq.size());
        for (size_t i = 0; i < n; ++i)
                if (got.seq[i] != want.seq[i]) V(("wrong-result" + at).c_str(), "%s under %s: observation %zu of %zu differs from the fault-free run although no failure was reported before it", c.op->name, p.str().c_str(), i, want.seq.size());
        if (!got.failed) {
                if (want.failed) V(("failure-lost" + at).c_str(), "%s succeeds under %s although it fails without faults", c.op->name, p.str().c_str());
                if (got.seq.size() != want.seq.size()) V(("wrong-result" + at).c_str(), "%s under %s: %zu observations, the fault-free run has %zu", c.op->name, p.str().c_str(), got.seq.size(), want.seq.size());
        } else if (got.seq.size() > want.seq.size()) V(("wrong-result" + at).c_str(), "%s under %s made more observations than the fault-free run", c.op->name, p.str().c_str());
        probe(got.failed ? "failure reported" : r.hard ? "survived the fault" : "no fault");
        if (got.failed && r.hard && sim_stderr().size() <= e0) probe("quiet failure");
}
void run_c09() {
        draw_knobs();
        int n = 1 + choose(2);
        while (n-- > 0) {
                Case c = draw_case();
                OpResult base = exec(c, want, Plan::none());
                if (!base.ok()) { probe("fault-free run stops"); continue; }
                hash_bytes(want.seq.data(), want.seq.size() * 8);
                Dig keep = want;
                uint32_t na = base.ev[E_ALLOC];
                if (!na) continue;
                int m = 1 + choose(4);
                while (m-- > 0) {
                        Plan p = Plan::one(choose(3) == 0 ? K_ALLOC_STICKY : K_ALLOC_FAIL, choose(na));
                        if (chance(1, 5)) p.faults.push_back({K_ALLOC_FAIL, choose(na), 0});
                        size_t e0 = sim_stderr().size();
                        OpResult r = exec(c, got, p);
                        compare(c, r, p, e0);
                        hash_mix(r.how); hash_mix(got.failed);
                }
                size_t e0 = sim_stderr().size();
                OpResult r = exec(c, got, Plan::none());
                if (!r.ok()) V("not-usable-after-oom", "%s fails when repeated after allocation failures", c.op->name);
                compare(c, r, Plan::none(), e0);
        }
}
const std::vector<Kind> ANY = {K_OPEN_FAIL, K_READ_EIO, K_READ_EOF, K_WRITE_EIO, K_WRITE_ENOSPC, K_CLOSE_FAIL, K_DIR_FAIL, K_PIPE_FAIL, K_ALLOC_FAIL, K_ALLOC_STICKY};
void leaks(const Case& c, const OpResult& r, const Plan& p) {
        if (!r.ok()) return;
        std::string at = std::string("@") + c.op->name;
        if (r.leaked_files) V(("leaked-file" + at).c_str(), "%s under %s left %zu streams open:%s", c.op->name, p.str().c_str(), r.leaked_files, r.leak_info.c_str());
        if (r.leaked_dirs) V(("leaked-directory" + at).c_str(), "%s under %s left %zu directory handles open", c.op->name, p.str().c_str(), r.leaked_dirs);
        if (r.leaked_allocs) V(("leaked-memory" + at).c_str(), "%s under %s returned (%s) and kept %zu blocks, %zu bytes", c.op->name, p.str().c_str(), got.failed ? "reporting failure" : "successfully", r.leaked_allocs, r.leaked_bytes);
}
void run_c10() {
        draw_knobs();
        int n = 1 + choose(3);
        while (n-- > 0) {
                Case c = draw_case();
                OpResult base = exec(c, got, Plan::none());
                leaks(c, base, Plan::none());
                probe(base.ok() ? got.failed ? "op reports failure" : "op succeeds" : "op stops");
                int m = 1 + choose(4);
                while (m-- > 0) {
                        Plan p = draw_plan(ANY, base.ev, 2);
                        if (p.empty()) break;
                        OpResult r = exec(c, got, p);
                        leaks(c, r, p);
                        if (r.ok() && r.hard) probe(got.failed ? "failed cleanly" : "survived cleanly");
                        hash_mix(r.how); hash_mix(got.failed);
                }
        }
}
Reg r9({"C09", run_c09,
        "one run = 1-2 whole-API operations (44 kinds: image files, tables, JSON, strings, containers, SIFT and its cache, datasets, pyramids, filters, warps, detectors, options, estimators, samplers, plotting, C++ wrappers) "
        "executed without faults and then 1-4 times with one or all allocations from a drawn position on failing, plus a fault-free repetition; non-trivial = an allocation failed; distinct = different sequence of seam events, faults and outcomes",
        40000, 400000});
Reg r10({"C10", run_c10,
         "one run = 1-3 whole-API operations (44 kinds) executed without faults and 1-4 times under up to two drawn faults (open, read, write, disk full, close, directory, pipe, allocation); after every execution that returned to its caller "
         "the blocks, streams and directory handles it created are counted; non-trivial = a fault was injected; distinct = different sequence of seam events, faults and outcomes",
         40000, 400000});
}  // namespace
