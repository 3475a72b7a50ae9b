#!/usr/bin/env python3
"""Line coverage of /repo/src reached by the workloads of the value checks (a gap finder, not a check).
usage: coverage.py [Cxx ...]   -> prints uncovered lines per file to /tmp/cov.txt"""
import glob, os, subprocess, sys, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import core, registry
D = "/tmp/covbuild"
os.makedirs(D, exist_ok=True)
env = core.toolchain_env()
env.update(CARGO_TARGET_DIR=D + "/t", RUSTFLAGS="--cfg rmath_verif -Awarnings -C instrument-coverage")
env["LLVM_PROFILE_FILE"] = D + "/build-%p.profraw"
subprocess.check_call(["cargo", "build", "--offline", "-q", "--manifest-path", core.VERIF + "/harness/Cargo.toml"], env=env)
exe = D + "/t/debug/driver"
for f in glob.glob(D + "/*.profraw"): os.unlink(f)
for pid, spec in registry.REG.items():
    if "wl" not in spec or (sys.argv[1:] and pid not in sys.argv[1:]): continue
    o = dict(spec.get("opts", {})); o["env"] = dict(o.get("env") or {}, LLVM_PROFILE_FILE=D + "/" + pid + "-%m.profraw")
    t = core.run_workload(exe, spec["wl"], 1, "quick", time.time() + 900, o)
    print(pid, t["n"], len(t["viol"]), flush=True)
L = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable*/lib/rustlib/*/bin")) + glob.glob("/*/rustup/toolchains/stable*/lib/rustlib/*/bin") + glob.glob("/opt/*/rustup/toolchains/stable*/lib/rustlib/*/bin")
L = [x for x in L if os.path.exists(x + "/llvm-cov")][0]
subprocess.check_call([L + "/llvm-profdata", "merge", "-sparse", "-o", D + "/all.prof"] + glob.glob(D + "/*.profraw"))
subprocess.check_call("%s/llvm-cov report %s -instr-profile=%s/all.prof --sources /repo/src > /tmp/cov.rep; %s/llvm-cov show %s -instr-profile=%s/all.prof --sources /repo/src > /tmp/cov.show" % (L, exe, D, L, exe, D), shell=True)
