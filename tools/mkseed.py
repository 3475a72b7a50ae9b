#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py, after confirming each planted bug in a scratch copy:
applies, builds, passes the stable tests, demo 0 without / nonzero with, touches only original lines.
usage: mkseed.py ID...   (all when none)"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS, PRELUDE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; nonzero otherwise. Run with cwd = the repository.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
rmath = { path = "$R" }
[workspace]
EOF
cd "$T"
export CARGO_TARGET_DIR="$T/target"
@FLAGS@cargo build --offline --quiet || exit 3
timeout 120 "$T/target/debug/demo"
'''

def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)

def main():
    ids = sys.argv[1:] or list(SEEDS)
    if os.path.exists(SC):
        shutil.rmtree(SC)
    subprocess.check_call(["cp", "-a", "/repo", SC])
    env = {"CARGO_TARGET_DIR": SC + "/target"}
    bad = 0
    for i in ids:
        s = SEEDS[i]
        sh("git checkout -q -- .", SC)
        err = None
        for f, old, new in s["edits"]:
            p = os.path.join(SC, f)
            t = open(p, encoding="utf8").read()
            if t.count(old) != 1:
                err = "old text occurs %d times in %s" % (t.count(old), f); break
            open(p, "w", encoding="utf8").write(t.replace(old, new))
        if err:
            print(i, "EDIT", err); bad += 1; continue
        diff = sh("git diff", SC).stdout
        root = sh("git rev-list --max-parents=0 HEAD", SC).stdout.split()[-1]
        # at least the removed lines must be original
        orig = all_orig(SC, diff, root)
        tmp = tempfile.mkdtemp()
        open(tmp + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", 'export RUSTFLAGS="-Awarnings %s"\n' % s["flags"] if s.get("flags") else "")); os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/main.rs", "w").write(PRELUDE + s["main"])
        r1 = sh("bash %s/demo.sh" % tmp, SC)
        t = sh("timeout 400 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip bigint::nat::tests::", SC, env)
        ok = {l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")}
        failed = [x for x in (q.split("lib.rs::")[1] for q in BASE["stable"]) if x not in ok]
        okn = len(BASE["stable"]) - len(failed)
        r0 = sh("bash %s/demo.sh" % tmp, "/repo")
        st = "ok" if (r1.returncode not in (0, 3) and r0.returncode == 0 and not failed and okn >= 26) else "BAD"
        print(i, s["property"], st, "demo clean=%d patched=%d tests ok=%d failed=%s%s" % (r0.returncode, r1.returncode, okn, failed[:3], "" if orig else " TOUCHES-NONORIGINAL"), flush=True)
        if st != "ok":
            bad += 1
            print(r0.stdout[-1500:]); print(r1.stdout[-1500:])
        else:
            d = os.path.join(V, "seeded", i)
            os.makedirs(d, exist_ok=True)
            for f in ("demo.sh", "main.rs"):
                shutil.copy(tmp + "/" + f, d + "/" + f)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(tmp)
    shutil.rmtree(SC)
    sys.exit(bad > 0)

def all_orig(sc, diff, root):
    cur = None; line = 0; ok = True
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        elif l.startswith("@@"):
            line = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git blame -l -s -L %d,%d HEAD -- %s" % (line, line, cur), sc).stdout
            if not b.lstrip("^").startswith(root[:39]) and l[1:].strip():
                ok = False
            line += 1
        elif l.startswith(" "): line += 1
    return ok
main()
