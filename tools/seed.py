#!/usr/bin/env python3
"""Plants one bug: seed.py ID PROPERTY  (with the change in /repo's working tree and
seeded/ID/{demo.sh,...,meta.json} in place, or --re to re-verify an existing patch.diff).
Writes patch.diff, verifies build, stable tests, demo with and without, and runs the check."""
import json, os, subprocess, sys
V = "/verif"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    sid = sys.argv[1]
    d = f"{V}/seeded/{sid}"
    meta = json.load(open(d + "/meta.json"))
    prop = meta["property"]
    if "--re" in sys.argv:
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0, "patch does not apply"
    else:
        p = sh("git -C /repo diff").stdout
        assert p, "no change"
        open(d + "/patch.diff", "w").write(p)
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(r.stdout[-2000:]); print("BUILD FAILS"); return 1
        sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        t = json.load(open("/tmp/seed_t.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
        miss = base - set(t["passed"])
        print("tests: passed", len(t["passed"]), "missing", list(miss)[:5])
        if "--nodemo" not in sys.argv:
            r = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
            print("demo with bug: rc", r.returncode, r.stdout[-300:].strip())
        props = [prop] if "--all" not in sys.argv else [c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        for q in props:
            r = sh(f"python3 check.py {q} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            print("check", q, "rc", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "class" in l][:3], r.stdout[-200:] if r.returncode not in (0, 1) else "")
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    if "--nodemo" not in sys.argv:
        r = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
        print("demo clean: rc", r.returncode, r.stdout[-300:].strip())
main()
