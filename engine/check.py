#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import registry


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = registry.REG[pid]
    try:
        res = spec["run"](pid, tier, seed, t0) if "run" in spec else default_run(pid, spec, tier, seed, t0)
    except core.HarnessError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), flush=True)
        sys.exit(3)
    finish(pid, spec, tier, seed, t0, res)


def default_run(pid, spec, tier, seed, t0):
    exe = core.build("dev")
    cap = t0 + (300 if tier == "quick" else 5400)
    opts = spec.get("opts", {})
    tot = core.run_workload(exe, spec["wl"], seed, tier, cap, opts)
    tot["builds"] = {"checked": tot["n"]}
    for v in tot["viol"]:
        v["profile"] = "dev"
    if tier == "thorough" and not tot["viol"]:
        exe = core.build("release")
        t2 = core.run_workload(exe, spec["wl"], seed + 7777, "quick", cap, opts)
        for v in t2["viol"]:
            v["profile"] = "release"
        tot["builds"]["release"] = t2["n"]
        core.merge(tot, t2)
    return tot


def finish(pid, spec, tier, seed, t0, tot):
    known = core.load_known(pid)
    new = []
    for v in tot["viol"]:
        k = next((k for k in known if k.get("request") == v["line"]), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            new.append(v)
    for k in tot.get("known_lines", []):
        print(k)
    cov = {"evaluations": tot["n"], "distinct_nontrivial": tot["distinct"], "rule": spec["rule"], "samples": tot["samples"][:12] or tot.get("extra_samples", [])[:5],
           "events_by_class": dict(sorted(tot["tags"].items())), "panics_observed": tot["panics"], "unreproduced_anomalies": tot["unrepro"], "truncated_by_time": tot["truncated"], "events_by_build": tot.get("builds", {})}
    cov.update(tot.get("cov", {}))
    core.write_evidence(pid, tier, seed, "exploration", cov, time.time() - t0, len(new), spec.get("assume", []) + registry.ASSUME)
    seen = set()
    for v in new:
        p = core.write_replay(pid, v, v.get("profile", "dev"))
        if p in seen or len(seen) >= 10:
            continue
        seen.add(p)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  request:  %s" % core.short(v["line"], 300))
        print("  observed: %s" % core.short(str(v["resp"]), 300))
        print("  %s" % core.short(v["what"], 300), flush=True)
    print("property=%s tier=%s seed=%d events=%d distinct=%d violations=%d wall=%.1fs%s" % (pid, tier, seed, tot["n"], tot["distinct"], len(new), time.time() - t0, " TRUNCATED" if tot["truncated"] else ""))
    sys.exit(1 if new else 0)


main()
