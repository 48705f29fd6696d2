#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: rebuild from /repo, search, write evidence."""
import json, os, subprocess, sys, time
import build

VERIF = build.VERIF
MT = {"C11", "C12"}
ALL_REAL = "all virg-nexus sources of /repo (without src/GL), libpng, libjpeg, zlib, glibc stdio and formatting"
STUBS = {
    "sim": "kernel file system (in-memory tree), process exit and death, heap admission (malloc family wrapped over ASan's allocator), wall/monotonic clock, popen peer, terminal, thread/process scheduler",
    "mt": "thread scheduler (token passing, preemption at instrumented memory accesses), OpenMP runtime (GOMP_*/omp_* entry points), memory-access callbacks, kernel file system, heap admission, clock",
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    variant = "mt" if pid in MT else "sim"
    exe = build.build(variant)
    runs = None
    for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        i, q, th = l.split()
        if i == pid:
            runs = int(q) if tier == "quick" else int(th)
    if runs is None:
        print("no such check", pid, file=sys.stderr)
        return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(VERIF, "build", "out-%s-%s.json" % (pid, tier))
    if os.path.exists(out):
        os.unlink(out)
    tmax = 240 if tier == "quick" else 800
    cmd = [exe, "run", "--check", pid, "--seed", str(seed), "--runs", str(runs), "--time", str(tmax),
           "--workers", str(min(16, os.cpu_count() or 8)), "--out", out, "--replays", os.path.join(VERIF, "replays"),
           "--known", os.path.join(VERIF, "KNOWN_FINDINGS.txt")]
    rc = subprocess.run(cmd).returncode
    if not os.path.exists(out):
        return 2
    r = json.load(open(out))
    viol = r.pop("violations")
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "exploration")
    cov = dict(r)
    cov["seeds_per_hour"] = cov.pop("runs_per_hour")
    cov["interleaving_measure"] = "FNV-64 over the ordered sequence of operations, seam events (with arguments), injected faults, task switches and outcomes of a run"
    cov["components_real"] = ALL_REAL
    cov["components_stubbed"] = STUBS[variant]
    cov["violations_detail"] = viol
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["the in-memory file system and the fault semantics in sim/seams.cc stand for the kernel's",
                          "the library is compiled -O1 with instrumentation instead of -O3"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", "%s.json" % pid))
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
