#!/usr/bin/env python3
"""replay.py <file>: rebuilds the driver from /repo and repeats the requests of a violation; prints request, response, expectation."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    j = json.load(open(sys.argv[1]))
    prof = j["profile"]
    os.makedirs(core.OUT, exist_ok=True)
    if prof in ("valgrind", "miri"):
        import w_mem
        if prof == "valgrind":
            rc, out, err = w_mem.tool_batch(w_mem.VG + [core.build("dev")], {"PATH": os.environ["PATH"], "DRV_CPU_MS": "600000"}, core.VERIF, j["requests"], 900)
        else:
            rc, out, err = w_mem.tool_batch(w_mem.MIRI["cmd"], w_mem.miri_env(), core.VERIF, j["requests"], 900)
        print("rc=%s\n%s" % (rc, w_mem.report_text(err)))
        return
    env = {"DRV_VERBOSE": "1"}
    if prof == "asan":
        import w_mem
        env.update(w_mem.ASAN_ENV)
    d = core.Driver(core.build(prof), 120000, env)
    out, why = d.batch(j["requests"], 600)
    print("request:  " + j["requests"][-1])
    print("observed: " + (out[-1] if len(out) == len(j["requests"]) else "the process " + str(why)))
    print("recorded: %s -- %s" % (j["observed"], j["what"]))
    if not why:
        print(d.stderr())
    d.close()


main()
