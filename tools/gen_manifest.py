"""Rewrites MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ref = "runtime monitor: every observed result compared with an executable reference model (CPython big integers), seeded hostile workloads"
TECH = {"C06": "history monitor: random programs over shared registers, canonical-form and equality invariants checked after every step",
        "C07": "runtime monitor: all comparison operators cross-checked with each other and with the exact order",
        "C09": "runtime monitor of formatting and parsing, hostile strings, reference digits", "C10": ref,
        "C15": "runtime monitor with a scripted, fault-injecting random source; deterministic primality oracle",
        "C16": "runtime monitor with a scripted, fault-injecting random source; range, canonical-form and reachability oracle",
        "C17": "runtime monitor against exact fractions", "C18": "runtime monitor against exact fractions and correctly rounded conversion",
        "C19": "runtime monitor: Float state read through a guarded hook, compared with an exactly rounded rational model",
        "C20": "runtime monitor: Float state read through a guarded hook, compared with an exactly rounded rational model",
        "C21": "runtime monitor of Float formatting and parsing against exactly rounded decimals",
        "C22": "runtime monitor over special operands in every position; NaN / IEEE-754 oracle",
        "C23": "history monitor: programs mixing clones, deep clones and in-place operators with a shadow model of alias groups",
        "C24": "trace monitor: generator streams under gen/clone/reset histories against independent engine models and published values",
        "C25": "trace monitor with injected seed and source failures; error-latch and validation oracle over the recorded call log",
        "C26": "AddressSanitizer, valgrind memcheck and Miri on the request streams of all checks",
        "C27": "freshness monitor on recorded hardware words; scripted rdrand/rdseed failures through a guarded hook, delivered words matched with returned words", "C28": "runtime monitor of Rat formatting and parsing, hostile strings",
        "C29": "runtime monitor of the error kinds returned for exhaustive short and mutated strings and bad arguments",
        "C30": "runtime monitor on a build of the portable back ends: reference model for arithmetic, byte-conservation oracle over recorded getrandom calls with injected short reads and failures"}
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 engine/check.py %s quick" % i, "thorough_cmd": "python3 engine/check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH.get(i, ref), "level": "exploration",
                   "level_note": "Held on every execution observed in the run (counts, classes and samples in the evidence file); says nothing about inputs the workload did not produce. Trusts the driver's rendering, the reference model and CPython arithmetic; x86-64 paths of this machine only."})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(rmath_verif), cfg(rmath_portable)", "enable": "RUSTFLAGS=--cfg rmath_verif, and --cfg rmath_portable for the portable back ends (engine/core.py, build())", "source_commits": ["58b6b84", "d5451ae", "7fc20a9"]},
     "checks": checks, "not_applicable": [],
     "notes": "engine/replay.py repeats the requests of a replay file. known_findings.json lists the open finding and all repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
