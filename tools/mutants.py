#!/usr/bin/env python3
"""Gap finder, not a check: random syntactic mutants of the library's own lines, each run against one shard of every workload.
usage: mutants.py COUNT SEED [WORKERS] [--focus | --rare]   -> /tmp/mut/results.jsonl; survivors of all workloads are then run against the stable tests.
Works only on copies under /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, time
import multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
ROOT = "/tmp/mut"
FILES = ["bigint/nat.rs", "bigint/nat_amd64.rs", "bigint/nat_avx2.rs", "bigint/nat_macro.rs", "bigint/arith_generic.rs", "bigint/arith.rs", "bigint/bigint.rs", "bigint/bigint_macro.rs", "bigint/rat.rs", "bigint/float.rs", "bigint/float_fmt.rs", "bigint/float_macro.rs", "bigint/float_para.rs",
         "bigint/decimal.rs", "bigint/util.rs", "rand/iter.rs", "rand/lagged_fibonacci_rand.rs", "rand/linear_congruential_rand.rs", "rand/mersenne_twister_rand.rs", "rand/mod.rs", "rand/default_rand_amd64.rs", "rand/default_seed_amd64.rs", "rand/crypto_rand_amd64.rs"]
OPS = [(r"(?<![<\-=])<(?![<=])(?=\s)", ["<="]), (r"<=", ["<"]), (r"(?<![>\-=])>(?![>=])(?=\s)", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["+"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"<<(?!=)", [">>"]), (r">>(?!=)", ["<<"]),
       (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]), (r"(?<=\s)\^(?=\s)", ["|"]), (r"&&", ["||"]), (r"\|\|(?=\s*[^{])", ["&&"]),
       (r"\b\d+\b(?!\.)", ["+1", "-1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bNegative\b", ["Natural"]), (r"\bNatural\b", ["Negative"]),
       (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"wrapping_add", ["wrapping_sub"]), (r"wrapping_sub", ["wrapping_add"]),
       (r"\bif (?!let)([^{]+?) \{", ["if !(\\1) {", "if false {", "if true {"]), (r"deep_clone\(\)", ["clone()"]), (r"\.clone\(\)", [".deep_clone()"]), (r"self\b", ["rhs"]), (r"\brhs\b", ["self"]),
       (r"leading_zeros", ["trailing_zeros"]), (r"trailing_zeros", ["leading_zeros"]), (r"Ordering::Less", ["Ordering::Greater"]), (r"Ordering::Greater", ["Ordering::Less"]), (r"!(?=[\w(])", [""])]


def candidates():
    out = []
    for f in FILES:
        p = "/repo/src/" + f
        lines = open(p, encoding="utf8").read().split("\n")
        for i, l in enumerate(lines):
            code = l.split("//")[0]
            s = code.strip()
            if not s or s.startswith(("#", "use ", "pub use", "mod ", "assert", "debug_assert", "fn ", "pub fn", "impl", "struct", "enum", "}", "pub(super) fn", "unsafe fn", "macro_rules", "where", "/*", "*")):
                continue
            if "Error::new" in s or "panic!" in s or "write!" in s and "{}" in s and "if" not in s:
                continue
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    for rep in reps:
                        if rep in ("+1", "-1"):
                            v = int(m.group(0))
                            if rep == "-1" and v == 0:
                                continue
                            t = str(v + int(rep))
                        else:
                            t = m.expand(rep)
                        new = code[:m.start()] + t + code[m.end():]
                        if new != code:
                            out.append((f, i, l, new))
            if s.endswith(";") and not s.startswith(("let ", "return", "const ", "type ", "pub ")):
                out.append((f, i, l, re.sub(r"\S.*", "", code)))
    return out


def focus():
    """mutants aimed at the cross-cutting properties, each to be caught by that property's own workload"""
    out = []
    import glob
    for p in sorted(glob.glob("/repo/src/bigint/*.rs")):
        f = p[len("/repo/src/"):]
        if f.split("/")[1] in ("arith_amd64.rs", "nat_generic.rs"):
            continue
        lines = open(p, encoding="utf8").read().split("\n")
        fn = ""
        for i, l in enumerate(lines):
            code = l.split("//")[0]
            s = code.strip()
            m = re.search(r"\bfn (\w+)", code)
            if m:
                fn = m.group(1)
            if not s:
                continue
            add = lambda pid, new: new != code and out.append((f, i, l, new, pid))
            for m in re.finditer(r"deep_clone\(\)", code):
                add("C23", code[:m.start()] + "clone()" + code[m.end():])
            for m in re.finditer(r"[\w.]+\.is_nan\(\)", code):
                if "fn " not in code:
                    add("C22", code[:m.start()] + "false" + code[m.end():])
            if "fn " not in code and s.endswith(";"):
                if re.search(r"trim_head_zero|\bnorm\(\)|trim\(\)", code):
                    add("C06", re.sub(r"\S.*", "", code))
                m = re.search(r"sign = (Natural|BISign::Natural)", code)
                if m:
                    add("C06", re.sub(r"\S.*", "", code))
            if "Negative} else" in code or "{Natural} else" in code or "Natural } else" in code:
                add("C06", code.replace("Natural", "Negative"))
                add("C06", code.replace("Negative", "Natural"))
            if fn in ("eq", "partial_cmp", "cmp", "ucmp", "ord", "lt", "le", "gt", "ge", "ne") and "fn " not in code:
                for rx, reps in OPS:
                    for m in re.finditer(rx, code):
                        for rep in reps:
                            if rep in ("+1", "-1"):
                                v = int(m.group(0))
                                if rep == "-1" and v == 0:
                                    continue
                                t = str(v + int(rep))
                            else:
                                t = m.expand(rep)
                            add("C07", code[:m.start()] + t + code[m.end():])
            K = ["BeginWithIllegalChar", "IllegalCharEncounter", "InvalidParameters", "DenominatorIsZero", "NumeratorIsZero", "ParseStringWrong", "ExponentOverflow", "ExponentUnderflow"]
            for a in K:
                if re.search(r"\b%s\b" % a, code) and "use " not in code and s != a + ",":
                    for b in K:
                        if b != a:
                            add("C29", re.sub(r"\b%s\b" % a, b, code))
    return out


SL = ["{p}.len() == %d" % k for k in (1, 2, 3, 5, 9, 17, 33, 41, 64, 100)] + ["{p}.len() > 1 && {p}[0] == 0", "{p}.last() == Some(&u32::MAX)", "!{p}.is_empty() && {p}.iter().all(|x| *x == u32::MAX)", "{p}.len() == 1 && {p}[0] == 1 << 31",
      "{p}.len() > 2 && {p}[{p}.len() - 2] == 0", "{p}.last() == Some(&1)", "{p}.len() > 2 && {p}[{p}.len() - 2] == u32::MAX", "{p}.len() > 200"]
NAT = [g.replace("{p}", "{p}.as_vec()") for g in SL]
GUARDS = {"Nat": NAT, "slice": SL,
          "BigInt": [g.replace("{p}", "{p}.nat") for g in NAT] + ["{p}.sign == Negative && " + g.replace("{p}", "{p}.nat") for g in NAT],
          "Rat": [g.replace("{p}", "{p}.a.nat") for g in NAT] + [g.replace("{p}", "{p}.b.nat") for g in NAT] + ["{p}.a.sign == Negative && {p}.b.nat == 2u32"],
          "Float": [g.replace("{p}", "{p}.mant") for g in NAT] + ["{p}.prec == %d" % k for k in (1, 24, 32, 33, 53, 64, 65, 128, 200)] + ["{p}.exp > 1000", "{p}.exp < -100", "{p}.exp % 32 == 0", "{p}.exp == 0", "{p}.exp < 0 && {p}.prec > 64"],
          "u32": ["{p} == %s" % k for k in ("0", "1", "u32::MAX", "1 << 31", "10", "65536")], "u64": ["{p} == %s" % k for k in ("0", "1", "u64::MAX", "1 << 32", "1 << 63")],
          "usize": ["{p} == %d" % k for k in (0, 1, 31, 32, 33, 63, 64, 65, 100)] + ["{p} % 32 == 0 && {p} > 64", "{p} > 1000"], "isize": ["{p} == 0", "{p} == -1", "{p} < -64", "{p} > 64", "{p} % 32 == 31"],
          "f64": ["{p}.abs() < f64::MIN_POSITIVE", "{p} == f64::MAX", "{p} < 0.0 && {p}.to_bits() & 1 == 1"]}


def rare(r):
    """mutants that manifest only when an argument of the function has a particular shape"""
    out = []
    for f in FILES:
        if not f.startswith("bigint") or "macro" in f:
            continue
        lines = open("/repo/src/" + f, encoding="utf8").read().split("\n")
        ty, params = None, []
        for i, l in enumerate(lines):
            code = l.split("//")[0].rstrip()
            s = code.strip()
            m = re.match(r"impl(?:<[^>]*>)?\s+(?:[\w<>&\[\] ]+ for )?(\w+)", s)
            if m:
                ty = m.group(1)
            if s.startswith("mod tests"):
                break
            m = re.search(r"\bfn \w+(?:<[^(]*>)?\(([^)]*)\)", code)
            if m:
                params = []
                for q in m.group(1).split(","):
                    q = q.strip()
                    if re.match(r"(&\s*)?(mut )?self$", q):
                        params.append(("self", ty))
                    elif ":" in q:
                        a, t = [z.strip() for z in q.split(":", 1)]
                        t = t.replace("&", "").replace("mut ", "").strip()
                        t = {"Self": ty, "[u32]": "slice", "Vec<u32>": "slice"}.get(t, t)
                        params.append((a.replace("mut ", ""), t))
                continue
            ps = [(a, t) for a, t in params if t in GUARDS]
            if not ps or not s or s.startswith(("#", "use ", "impl", "assert", "debug_assert", "pub ", "/*", "*")):
                continue
            def g():
                a, t = r.choice(ps)
                return "(" + r.choice(GUARDS[t]).replace("{p}", a) + ")"
            m = re.search(r"\b(if|while) (?!let)([^{]+?) \{", code)
            if m:
                out.append((f, i, l, code[:m.start()] + "%s (%s) != %s {" % (m.group(1), m.group(2), g()) + code[m.end():]))
            if s.endswith(";") and not s.startswith(("return", "const ", "type ", "let ", "}")) and s.count("{") == s.count("}"):
                out.append((f, i, l, "if !%s { %s }" % (g(), s)))
            for rx, reps in OPS:
                if "self" in rx or "clone" in rx or rx.startswith(r"\bif"):
                    continue
                for m in re.finditer(rx, code):
                    rep = r.choice(reps)
                    if rep in ("+1", "-1"):
                        t = str(max(0, int(m.group(0)) + int(rep)))
                    else:
                        t = m.expand(rep)
                    nw = (code[:m.start()] + t + code[m.end():]).strip()
                    if nw == s or s.count("{") != s.count("}"):
                        continue
                    mm = re.match(r"(let (?:mut )?\w+(?:: [\w<>]+)? = )([^;]*);$", s)
                    if mm and nw.startswith(mm.group(1)) and nw.endswith(";"):
                        out.append((f, i, l, "%sif %s { %s } else { %s };" % (mm.group(1), g(), nw[len(mm.group(1)):-1], mm.group(2))))
                    elif s.endswith(";") and not s.startswith(("let ", "const ", "type ", "}")):
                        out.append((f, i, l, "if %s { %s } else { %s }" % (g(), nw, s)))
    return out


def prep(k):
    d = "%s/w%d" % (ROOT, k)
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call("mkdir %s/repo && cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/build.rs /repo/benches /repo/examples /repo/src %s/repo/; cp -a %s/harness %s/harness && sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/harness/Cargo.toml" % (d, d, V, d, d, d), shell=True)
    return d


def order(f):
    pri = {"nat": "C01 C02 C03 C04 C05 C11 C08 C09 C10 C14 C15 C16 C06 C07 C22 C23 C29", "big": "C02 C04 C05 C08 C12 C13 C09 C14 C11 C07 C22 C23 C29", "rat": "C17 C18 C28 C29 C06 C07 C22", "flo": "C19 C20 C21 C29 C07 C22 C23", "dec": "C21", "uti": "C20 C18 C19 C28",
           "ari": "C03 C01 C11 C14", "ran": "C24 C25 C16 C15 C27"}
    b = f.split("/")[1] if f.startswith("bigint") else "ran"
    return pri.get(b[:3] if b != "bigint.rs" else "big", "C01").split()


def run(job):
    import core, registry
    n, (f, i, old, new, *own), k = job
    d = prep(k)
    core.OUT = d + "/out"
    os.makedirs(core.OUT, exist_ok=True)
    core.confirm = lambda exe, prefix, tag, line, exp, r, bad, opts: {"tag": tag, "line": line, "what": bad}
    p = d + "/repo/src/" + f
    src = open("/repo/src/" + f, encoding="utf8").read()
    ls = src.split("\n")
    assert ls[i] == old
    ls[i] = new
    open(p, "w", encoding="utf8").write("\n".join(ls))
    res = {"n": n, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
    t0 = time.time()
    try:
        env = core.toolchain_env()
        env["CARGO_TARGET_DIR"] = d + "/target"
        env["RUSTFLAGS"] = "--cfg rmath_verif -Awarnings"
        env["CARGO_BUILD_JOBS"] = "2"
        r = subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", d + "/harness/Cargo.toml"], env=env, capture_output=True, text=True)
        if r.returncode:
            res["status"] = "nobuild"
            return res
        exe = d + "/target/debug/driver"
        o = order(f)
        if "--rare" not in sys.argv:
            o += [x for x in registry.REG if x not in o and "wl" in registry.REG[x]]
        sh = n % 8
        jobs = [(pid, sh) for pid in o]
        if own:
            res["own"] = own[0]
            jobs = [(own[0], s) for s in range(8)]
        for pid, sh in jobs:
            wl = registry.REG[pid]["wl"]
            try:
                st = core.run_shard(exe, wl, 1, "quick", sh, 8, time.time() + 150, {"maxviol": 1, "cpu_ms": 10000, "wall": 60})
            except core.HarnessError as e:
                res.update(status="killed", by=pid, what="harness " + str(e)[:200])
                return res
            if st["viol"]:
                res.update(status="killed", by=pid, tag=st["viol"][0]["tag"], line_=st["viol"][0]["line"][:200])
                return res
        if "--rare" in sys.argv:
            res["status"] = "SURVIVED"
            return res
        env["RUSTFLAGS"] = "-Awarnings"
        r = subprocess.run(["timeout", "300", "cargo", "test", "--offline", "--lib", "--manifest-path", d + "/repo/Cargo.toml", "--", "--skip", "bigint::nat::tests::"], env=env, capture_output=True, text=True)
        res["status"] = "testkilled" if r.returncode else "SURVIVED"
        return res
    except Exception as e:
        res["status"] = "error " + repr(e)
        return res
    finally:
        open(p, "w", encoding="utf8").write(src)
        res["wall"] = round(time.time() - t0, 1)


def loop(k, q, lock):
    while True:
        try:
            j = q.get(timeout=3)
        except Exception:
            return
        r = run((j[0], j[1], k))
        with lock:
            with open(ROOT + "/results.jsonl", "a") as f:
                f.write(json.dumps(r) + "\n")


def main():
    cnt, seed = int(sys.argv[1]), int(sys.argv[2])
    W = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    c = candidates()
    r = random.Random(seed)
    # spread over the files, then over the lines
    by = {}
    for x in c:
        by.setdefault((x[0], x[1]), []).append(x)
    keys = sorted(by)
    r.shuffle(keys)
    print(len(c), "candidates on", len(keys), "lines", flush=True)
    os.makedirs(ROOT, exist_ok=True)
    q = mp.Queue()
    lock = mp.Lock()
    if "--rare" in sys.argv:
        rc = rare(r)
        by = {}
        for x in rc:
            by.setdefault((x[0], x[1]), []).append(x)
        keys = sorted(by)
        r.shuffle(keys)
        print(len(rc), "guarded, on", len(keys), "lines", flush=True)
        done = {json.loads(l)["n"] for l in open(ROOT + "/results.jsonl")} if os.path.exists(ROOT + "/results.jsonl") else set()
        for n, key in enumerate(keys[:cnt]):
            x = r.choice(by[key])
            if n not in done and x[0] not in ("bigint/arith_generic.rs", "bigint/decimal.rs"):
                q.put((n, x))
    elif "--focus" in sys.argv:
        fc = focus()
        r.shuffle(fc)
        print(len(fc), "focused", flush=True)
        for n, x in enumerate(fc[:cnt]):
            q.put((n, x))
    else:
        for n, key in enumerate(keys[:cnt]):
            q.put((n, r.choice(by[key])))
    ps = [mp.Process(target=loop, args=(k, q, lock)) for k in range(W)]
    [p.start() for p in ps]
    [p.join() for p in ps]


main()
