#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (keeps the two in step)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NA  # noqa

TRUST = ("Trusts the seam stand-ins in sim/seams.cc (in-memory file system, exit, heap admission, clock, pipe), "
         "the instrumented -O1 build and the harness oracles; a pass says no violation in the seeded runs, not absence.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p.get("observe", []), "hook_needed": None}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3 build.py " + " ".join(sorted({p.get("variant", "sim") for p in PROPS}, reverse=True)),
           "checks": [{"property": p["id"],
                       "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p.get("technique", "seeded deterministic simulation with fault injection"),
                       "level": p.get("level", "exploration"),
                       "level_note": p["note"] + " " + TRUST} for p in PROPS],
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
           "notes": "No hooks in /repo: every seam is an existing libc/libgomp boundary interposed at link time (ld --wrap) or by compiler instrumentation."}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
