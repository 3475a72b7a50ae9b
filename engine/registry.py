import w_int, w_text, w_rat, w_float, w_hist, w_rand, w_err
ASSUME = ["x86-64 build with the runtime-selected AVX2/ADX paths of this machine", "CPython integers/fractions as reference arithmetic"]
RULE = "seeded hostile and systematic cases; distinct: different request line; non-trivial: some operand is not 0, 1 or NaN"
REG = {}
for m, pids in ((w_int, "C01 C02 C03 C04 C05 C08 C11 C12 C13 C14"), (w_text, "C09 C10 C28"), (w_rat, "C17 C18"), (w_float, "C19 C20 C21"), (w_hist, "C06 C07 C22 C23"), (w_rand, "C15 C16 C24 C25 C27"), (w_err, "C29")):
    for pid in pids.split():
        REG[pid] = {"wl": getattr(m, pid.lower()), "rule": RULE}
import w_mem
REG["C26"] = {"run": w_mem.run, "rule": "samples of the request streams of all other checks plus length grids; an event is one request executed under a memory checker; distinct and non-trivial: different request line with an operand other than 0, 1, NaN",
              "assume": ["AddressSanitizer sees heap and stack errors of compiled code outside the precompiled standard library; memcheck those of the vector kernels; Miri runs with its aliasing model off"]}
REG["C30"] = {"run": w_rand.run_portable, "rule": RULE, "assume": ["the portable back ends are built for x86-64 with cfg(rmath_portable); getrandom is replaced by a recording stand-in"]}
