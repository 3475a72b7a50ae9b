"""Runs workloads through the driver and compares every observed response with the executable specification.

A workload is a generator function  w(rng, tier, shard, nshards)  that yields (tag, line, expect):
  tag    - class of the case, counted in the evidence
  line   - request for the driver (one operation, or one multi-step history, on the real library)
  expect - the exact response, or a function response -> None | "what is wrong"
"""
import os, sys, json, time, subprocess, threading, hashlib, multiprocessing as mp, random, re, shutil, signal

sys.set_int_max_str_digits(0)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
OUT = os.path.join(VERIF, "out")
NW = max(2, min(8, os.cpu_count() or 4))
BATCH = 150


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- build
def toolchain_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=env).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode("utf8", "replace")
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build(profile):
    """profile: dev (checked) | portable (checked, without the x86 instructions) | release | asan. Returns the path of the driver, built from /repo's working tree."""
    env = toolchain_env()
    tgt = os.path.join(BUILD, profile)
    env["CARGO_TARGET_DIR"] = tgt
    flags = "--cfg rmath_verif -Awarnings"
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")]
    sub = "debug"
    if profile == "portable":
        flags += " --cfg rmath_portable"
    if profile == "release":
        cmd.append("--release")
        sub = "release"
    if profile == "asan":
        env["RUSTC_BOOTSTRAP"] = "1"
        flags += " -Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/debug"
    env["RUSTFLAGS"] = flags
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise HarnessError("building the driver (%s) failed:\n%s" % (profile, r.stderr[-4000:]))
    return os.path.join(tgt, sub, "driver")


# ---------------------------------------------------------------- driver process
class Driver:
    def __init__(self, exe, cpu_ms, env_extra=None, wrap=None):
        env = {"PATH": os.environ.get("PATH", ""), "DRV_CPU_MS": str(cpu_ms), "DRV_MEM_MB": "3500"}
        env.update(env_extra or {})
        self.errf = open(os.path.join(OUT, "stderr.%d.%d" % (os.getpid(), id(self))), "w+b")
        self.p = subprocess.Popen((wrap or []) + [exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env)

    def batch(self, lines, wall):
        """-> (responses, None) or (responses so far, reason)"""
        data = ("\n".join(lines) + "\n").encode()
        p = self.p

        def feed():
            try:
                p.stdin.write(data)
                p.stdin.flush()
            except (BrokenPipeError, OSError, ValueError):
                pass

        th = threading.Thread(target=feed, daemon=True)
        th.start()
        timer = threading.Timer(wall, p.kill)
        timer.start()
        out = []
        t0 = time.time()
        try:
            for _ in lines:
                l = p.stdout.readline()
                if not l.endswith(b"\n"):
                    rc = p.wait()
                    if rc == 77:
                        why = "cpu-limit"
                    elif rc == -9 and time.time() - t0 >= wall - 1:
                        why = "wall-limit"
                    elif rc == -9:
                        why = "killed"
                    else:
                        why = "died rc=%s %s" % (rc, self.stderr())
                    return out, why
                out.append(l[:-1].decode("utf8", "replace"))
        finally:
            timer.cancel()
            if p.poll() is not None:
                th.join(1)
            else:
                th.join()
        return out, None

    def stderr(self):
        self.errf.flush()
        self.errf.seek(0)
        s = self.errf.read(3000000).decode("utf8", "replace")
        m = re.search(r"(ERROR: AddressSanitizer.*?)\n(.*?\n){0,12}", s)
        return (m.group(0) if m else s[-600:]).strip().replace("\n", " | ")[:1200]

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        name = self.errf.name
        self.errf.close()
        try:
            os.unlink(name)
        except OSError:
            pass


def judge(expect, resp):
    if resp == "!BADREQ":
        raise HarnessError("driver did not understand the request")
    if callable(expect):
        if resp == "!P" and not getattr(expect, "panic_ok", False):
            return "panicked"
        try:
            return expect(resp)
        except HarnessError:
            raise
        except Exception as e:
            # the judge could not make sense of the answer: the driver prints the same shapes whatever the code does
            return "answer cannot be read as a result (%s: %s)" % (type(e).__name__, e)
    if resp == expect:
        return None
    return "expected %s" % short(expect)


def short(s, n=4000):
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


TRIVIAL = {"x0", "x1", "0", "1", "N", "v", "a", "m", "s", "t", "-"}


def worker(exe, wl, seed, tier, shard, n, deadline, q, opts):
    try:
        q.put(("done", shard, run_shard(exe, wl, seed, tier, shard, n, deadline, opts)))
    except HarnessError as e:
        q.put(("harness", shard, str(e)))
    except Exception:
        import traceback

        q.put(("harness", shard, traceback.format_exc()))


def run_shard(exe, wl, seed, tier, shard, n, deadline, opts):
    cpu, wall = opts.get("cpu_ms", 20000), opts.get("wall", 300)
    denv = opts.get("env")
    st = {"n": 0, "tags": {}, "hash": set(), "samples": [], "viol": [], "truncated": False, "unrepro": 0, "panics": 0}
    drv = Driver(exe, cpu, denv)
    gen = wl(random.Random("%s/%s/%s" % (seed, shard, wl.__name__)), tier, shard, n)
    srng = random.Random(shard)
    done = False
    stop = False
    BATCH = opts.get("batch", 150)
    while not done and not stop:
        b, size = [], 0
        for c in gen:
            b.append(c)
            size += len(c[1])
            if len(b) >= BATCH or size > 200000:
                break
        else:
            done = True
        if not b:
            break
        lines = [c[1] for c in b]
        i = 0
        while i < len(b):
            resp, why = drv.batch(lines[i:], wall)
            for j, r in enumerate(resp):
                tag, line, exp = b[i + j]
                st["n"] += 1
                st["tags"][tag] = st["tags"].get(tag, 0) + 1
                if r == "!P":
                    st["panics"] += 1
                if any(t not in TRIVIAL for t in line.split(" ")[1:]):
                    st["hash"].add(hash(line))
                if len(st["samples"]) < 3 and len(line) < 400 and srng.random() < 0.01:
                    st["samples"].append({"class": tag, "request": line, "response": short(r, 400)})
                try:
                    bad = judge(exp, r)
                except HarnessError as e:
                    raise HarnessError("%s: %s" % (e, line))
                if bad:
                    v = confirm(exe, lines[: i + j + 1], tag, line, exp, r, bad, opts)
                    if v:
                        st["viol"].append(v)
                    else:
                        st["unrepro"] += 1
                    if len(st["viol"]) >= opts.get("maxviol", 5):
                        stop = True
                        break
            if stop:
                break
            i += len(resp)
            if why:
                tag, line, exp = b[i]
                drv.close()
                if "rc=6" in why:
                    # the library could not build an operand as the request spells it: nothing was observed
                    st["unrepro"] += 1
                    drv = Driver(exe, cpu, denv)
                    i += 1
                    continue
                hang = why == "cpu-limit"
                if getattr(exp, "death_ok", False):
                    # a request whose answer, if there is one, is judged; that there is one is another property's business
                    drv = Driver(exe, cpu, denv)
                    i += 1
                    if hang:
                        stop = True
                        break
                    continue
                v = confirm(exe, lines[: i + 1], tag, line, exp, None, why, opts) if opts.get("death", lambda w: True)(why) else None
                if v:
                    st["viol"].append(v)
                    st["n"] += 1
                    if hang or len(st["viol"]) >= opts.get("maxviol", 5):
                        stop = True
                        drv = Driver(exe, cpu, denv)
                        break
                else:
                    st["unrepro"] += 1
                drv = Driver(exe, cpu, denv)
                i += 1
        if time.time() > deadline and not done:
            st["truncated"] = True
            stop = True
    drv.close()
    st["hash"] = len(st["hash"])
    return st


def confirm(exe, prefix, tag, line, exp, resp, why, opts):
    """A violation must reproduce in a fresh driver process: alone, else after the same prefix of requests."""
    for lines in ([line], prefix):
        d = Driver(exe, max(60000, opts.get("cpu_ms", 0)), opts.get("env"))
        out, dead = d.batch(lines, 600)
        d.close()
        if dead and len(out) == len(lines) - 1 and dead not in ("killed", "wall-limit") and opts.get("death", lambda w: True)(dead):
            return {"tag": tag, "line": line, "what": "the process " + dead if dead != "cpu-limit" else "no result within 60 s of CPU time", "resp": None, "lines": lines, "exe": exe, "expect": None if callable(exp) else exp}
        if not dead:
            bad = judge(exp, out[-1])
            if bad:
                return {"tag": tag, "line": line, "what": bad, "resp": out[-1], "lines": lines, "exe": exe, "expect": None if callable(exp) else exp}
    return None


# ---------------------------------------------------------------- run
def run_workload(exe, wl, seed, tier, deadline, opts=None):
    opts = opts or {}
    os.makedirs(OUT, exist_ok=True)
    q = mp.get_context("fork").Queue()
    n = opts.get("workers", NW)
    ps = []
    for s in range(n):
        p = mp.get_context("fork").Process(target=worker, args=(exe, wl, seed, tier, s, n, deadline, q, opts), daemon=True)
        p.start()
        ps.append(p)
    tot = {"n": 0, "tags": {}, "distinct": 0, "samples": [], "viol": [], "truncated": False, "unrepro": 0, "panics": 0}
    left = n
    errs = []
    while left:
        try:
            kind, shard, st = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                time.sleep(1)
                if q.empty():
                    raise HarnessError("a worker process disappeared")
            continue
        left -= 1
        if kind == "harness":
            errs.append(st)
            continue
        tot["n"] += st["n"]
        tot["distinct"] += st["hash"]
        tot["samples"] += st["samples"]
        tot["viol"] += st["viol"]
        tot["truncated"] |= st["truncated"]
        tot["unrepro"] += st["unrepro"]
        tot["panics"] += st["panics"]
        for k, v in st["tags"].items():
            tot["tags"][k] = tot["tags"].get(k, 0) + v
    for p in ps:
        p.join()
    if errs and not tot["viol"]:
        raise HarnessError(errs[0])
    if not tot["viol"] and (tot["n"] == 0 or tot["unrepro"] > 20 + tot["n"] // 20):
        raise HarnessError("inconclusive: %d events, %d anomalies that do not reproduce" % (tot["n"], tot["unrepro"]))
    return tot


def merge(a, b):
    for k in ("n", "distinct", "unrepro", "panics"):
        a[k] += b[k]
    a["samples"] += b["samples"]
    a["viol"] += b["viol"]
    a["truncated"] |= b["truncated"]
    for k, v in b["tags"].items():
        a["tags"][k] = a["tags"].get(k, 0) + v


def write_replay(pid, v, profile):
    os.makedirs(OUT, exist_ok=True)
    h = hashlib.sha1(("%s %s" % (v["tag"], v["line"])).encode()).hexdigest()[:10]
    path = os.path.join(OUT, "%s-%s.replay.json" % (pid, h))
    json.dump({"property": pid, "profile": profile, "class": v["tag"], "requests": v["lines"], "what": v["what"], "observed": v["resp"], "expected": v.get("expect"),
               "how": "python3 engine/replay.py %s   (rebuilds the driver from /repo and repeats the requests)" % path}, open(path, "w"), indent=1)
    return path


def load_known(pid):
    try:
        k = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [e for e in k["findings"] if e["property"] == pid and e["status"] == "known"]


def write_evidence(pid, tier, seed, level, cov, wall, nviol, assumptions):
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, pid + ".json")
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": nviol}, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
