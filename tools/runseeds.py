#!/usr/bin/env python3
"""Applies each planted bug to /repo, runs its property's quick check, undoes it. Prints the catch table.
usage: runseeds.py [ID...]; environment ALL=1 runs every check, not only the seed's own."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)])
    try:
        t = time.time()
        r = subprocess.run(["python3", "engine/check.py", p, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        print("%-28s %s rc=%d %s %.0fs" % (i, p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", time.time() - t), flush=True)
        if not v: print(r.stdout[-800:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
