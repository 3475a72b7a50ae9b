"""C26: the request streams of all other properties, executed under AddressSanitizer, valgrind memcheck and Miri."""
import os, random, subprocess, time, threading, re
from concurrent.futures import ThreadPoolExecutor
import core, num
import w_int, w_text, w_rat, w_float, w_hist, w_rand
from num import *

SRC = [w_int.c01, w_int.c02, w_int.c03, w_int.c04, w_int.c05, w_int.c08, w_int.c11, w_int.c12, w_int.c13, w_int.c14, w_text.c09, w_text.c10, w_text.c28, w_rat.c17, w_rat.c18, w_float.c19, w_float.c20, w_float.c21,
       w_hist.c06, w_hist.c06, w_hist.c07, w_hist.c07, w_hist.c22, w_hist.c23, w_rand.c15, w_rand.c16, w_rand.c24, w_rand.c25]


def anything(resp):
    return None


anything.panic_ok = True
ASREF = "nasref x123456789abcdef0123456789abcdef 1000"


def mix(r, tier, shard, ns, quota=None, maxlen=60000):
    """interleaves samples of every other property's stream with length grids that cover every kernel threshold"""
    quota = quota or w_int.T(tier, 1200, 20000)
    if shard == 0:
        yield ("as_ref", ASREF, anything)
    gens = []
    for k, f in enumerate(SRC):
        gens.append((f.__name__, f(random.Random("%s/%d" % (r.random(), k)), "quick", (shard + k) % 64, 64), [quota]))
    while gens:
        for g in list(gens):
            name, it, left = g
            try:
                for _ in range(25):
                    # thin out: skip a random stretch
                    for _ in range(r.choice((0, 0, 1, 3))):
                        next(it)
                    tag, line, _e = next(it)
                    if len(line) < maxlen:
                        yield (name, line, anything)
                        left[0] -= 1
            except StopIteration:
                gens.remove(g)
                continue
            if left[0] <= 0:
                gens.remove(g)


def grid(r, hi, n):
    """operand lengths around every unrolling / threshold boundary, tight buffers"""
    ops = ["nadd", "nsub", "nmul", "ndiv", "nrem", "nand", "nor", "nxor"]
    for _ in range(n):
        i, j = r.randrange(1, hi), r.randrange(1, hi)
        a, b = pat(r, i), pat(r, j)
        k = r.random()
        if k < 0.7:
            op = r.choice(ops)
            if op == "nsub" and a < b:
                a, b = b, a
            yield "%s %s %s %s" % (op, r.choice("vmat"), ln(r, a), ln(r, b))
        elif k < 0.8:
            yield "%s %s %s %d" % (r.choice(("nshl", "nshr")), r.choice("vma"), ln(r, a), r.choice((0, 1, 31, 32, 33, 63, 64, 95, 96, r.randrange(0, 300))))
        elif k < 0.9:
            yield "nkara %s %s" % (ln(r, a), ln(r, b))
        else:
            yield "nsqr %s" % ln(r, a)


# ---------------------------------------------------------------- whole-process tools (valgrind, Miri)
def tool_batch(cmd, env, cwd, lines, limit):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(("\n".join(lines) + "\n").encode(), timeout=limit)
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, "", ""
    return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def run_tool(name, cmd, env, cwd, streams, is_report, deadline, limit):
    """streams: list of (batches); returns stats; a report must reproduce"""
    st = {"batches": 0, "requests": 0, "inconclusive": 0, "viol": []}
    lock = threading.Lock()

    def one(lines):
        if time.time() > deadline or len(st["viol"]) >= 4:
            return
        rc, out, err = tool_batch(cmd, env, cwd, lines, limit)
        n = out.count("\n")
        with lock:
            st["batches"] += 1
            st["requests"] += n
            if rc is None or (rc != 0 and not is_report(rc, err)):
                st["inconclusive"] += 1
                st["why"] = (err or "timeout")[-300:]
        if rc is not None and is_report(rc, err) and n < len(lines):
            for ls in ([lines[n]], lines[: n + 1]):
                rc2, out2, err2 = tool_batch(cmd, env, cwd, ls, limit)
                if rc2 is not None and is_report(rc2, err2):
                    with lock:
                        st["viol"].append({"tag": name, "line": lines[n], "what": name + ": " + report_text(err2), "resp": None, "lines": ls, "profile": name})
                    return
            with lock:
                st["inconclusive"] += 1

    with ThreadPoolExecutor(core.NW) as ex:
        list(ex.map(one, streams))
    return st


def report_text(err):
    l = [x for x in err.splitlines() if x.strip() and not x.startswith("warning") and "|" not in x[:8]]
    i = next((k for k, x in enumerate(l) if "Undefined Behavior" in x or re.match(r"==\d+== (Invalid|Use of|Conditional|Jump|Process term|Source and)", x)), 0)
    return " | ".join(x.strip() for x in l[i:i + 14])[:1400]


def chunk(lines, n):
    return [lines[i:i + n] for i in range(0, len(lines), n)]


def vg_report(rc, err):
    return rc == 99 or "Process terminating with default action of signal 11" in err


def miri_report(rc, err):
    return rc != 0 and "Undefined Behavior" in err


def death(why):
    if "AddressSanitizer" in why:
        return not any(x in why for x in ("allocation-size-too-big", "out-of-memory", "stack-overflow", "requested allocation size"))
    return why.startswith(("died rc=-11", "died rc=-4", "died rc=-7"))


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=203:quarantine_size_mb=64:allocator_may_return_null=1", "DRV_MEM_MB": "0"}
MIRI = {"cmd": ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(core.VERIF, "harness/Cargo.toml")]}


def miri_env():
    env = core.toolchain_env()
    env["CARGO_TARGET_DIR"] = os.path.join(core.BUILD, "miri")
    env["RUSTFLAGS"] = "--cfg rmath_verif --cap-lints warn -Ctarget-feature=+avx2,+adx"
    env["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC"):
        env.pop(k, None)
    return env


VG = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--main-stacksize=8388608", "--max-stackframe=600000000"]


def run(pid, tier, seed, t0):
    cap = t0 + (480 if tier == "quick" else 7000)
    q = tier == "quick"
    exe = core.build("asan")
    opts = {"env": ASAN_ENV, "cpu_ms": 120000, "death": death, "wall": 600}
    tot = core.run_workload(exe, mix, seed, tier, cap, opts)
    for v in tot["viol"]:
        v["profile"] = "asan"
    tot["builds"] = {"asan": tot["n"]}
    ph = {"asan_s": round(time.time() - t0, 1)}
    tools = {}
    known = {k.get("request") for k in core.load_known(pid)}
    if not [v for v in tot["viol"] if v["line"] not in known]:
        dev = core.build("dev")
        r = random.Random("vg%s" % seed)
        lines = list(grid(r, 48, 2500 if q else 40000)) + [l for _, l, _ in mix(random.Random("vgm%s" % seed), "quick", 1, 64, 110 if q else 1500, 1200)]
        r.shuffle(lines)
        env = {"PATH": os.environ.get("PATH", ""), "DRV_CPU_MS": "600000"}
        st = run_tool("valgrind", VG + [dev], env, core.VERIF, chunk(lines, 130), vg_report, cap, 400)
        tools["valgrind_memcheck"] = st
        ph["valgrind_done_s"] = round(time.time() - t0, 1)
        tot["n"] += st["requests"]
        tot["builds"]["valgrind"] = st["requests"]
        r = random.Random("mi%s" % seed)
        lines = list(grid(r, 18, 240 if q else 4000)) + [l for _, l, _ in mix(random.Random("mim%s" % seed), "quick", 2, 64, 30 if q else 400, 130) if not l.startswith(("nprime", "ngenp", "iprime", "ghw", "gmt", "gnamed", "fparse", "ffmt", "nsws", "glcg", "glf", "nrand", "irand", "pr ", "rff"))]
        r.shuffle(lines)
        env = miri_env()
        rc, out, err = tool_batch(MIRI["cmd"], env, core.VERIF, ["nadd v x1 x2"], 600)
        if rc == 0 and out.strip() == "00000003":
            st2 = run_tool("miri", MIRI["cmd"], env, core.VERIF, chunk(lines, 12), miri_report, min(cap, time.time() + (110 if q else 2400)), 50 if q else 400)
            tools["miri"] = st2
            tot["n"] += st2["requests"]
            tot["builds"]["miri"] = st2["requests"]
        else:
            tools["miri"] = {"inconclusive": 1, "viol": [], "why": "Miri is not usable here: " + err[-300:]}
        for st in tools.values():
            tot["viol"] += st["viol"]
    ph["miri_done_s"] = round(time.time() - t0, 1)
    tot["cov"] = {"phase_end": ph, "tools": {k: {a: b for a, b in v.items() if a != "viol"} for k, v in tools.items()}}
    return tot
