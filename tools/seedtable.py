#!/usr/bin/env python3
"""writes section 5 of DESIGN.md from the output of runseeds.py (lines `ID PROP rc=.. CAUGHT|MISSED ..s`) and seeded/*/meta.json"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = [l.split() for l in open(sys.argv[1]) if l.startswith("c")]
t = ["## 5. Planted bugs", "%d changes, each confirmed in a scratch copy (builds, stable tests pass, its demonstration fails with it and passes without)." % len(rows),
     "Only the check of the bug's own property is counted. Result of the quick check of that property (`tools/runseeds.py`):", "",
     "| change | check | result | needs |", "|---|---|---|---|"]
for r in rows:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, r[0])))
    t.append("| %s | %s | %s | %s |" % (r[0], r[1], r[3].lower(), m["needs"].replace("|", "/")[:110]))
tail = open(os.path.join(V, "tools", "seedtail.md")).read()
d = open(V + "/DESIGN.md").read()
open(V + "/DESIGN.md", "w").write(d[:d.index("## 5. Planted bugs")] + "\n".join(t) + "\n\n" + tail)
