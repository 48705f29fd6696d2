#!/usr/bin/env python3
# Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json.
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | caught by | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json"), key=lambda p: (json.load(open(p))["property"], p)):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d.get("caught_by", d["property"]), d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded table -->", "<!-- end of seeded table -->"
body = a + "\n" + "\n".join(rows) + "\n" + b
s = s.replace("@@SEEDED@@", body) if "@@SEEDED@@" in s else re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: body, s, flags=re.S)
open(p, "w").write(s)
