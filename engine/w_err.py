"""C29: which error a failing call reports."""
from fractions import Fraction
import itertools
from num import *
from w_int import T
from w_text import INT_OK, JUNK, hx, mutate, spell, intval
from w_float import EMAX, EMIN, fdec
import w_rand

BEGIN = "err_begin"
CHAR = "err_char"
PARA = "err_para"
DIG = {"o": "01234567", "b": "01", "B": "01", "x": "0123456789abcdefABCDEF", "X": "0123456789abcdefABCDEF"}


def natkind(b):
    """ok | begin | char for the text without its sign"""
    d = "0123456789"
    if not b or b[0] not in d:
        return BEGIN
    if b[0] == "0" and len(b) > 1:
        if b[1] in DIG:
            if len(b) == 2:
                return BEGIN
            return "ok" if all(c in DIG[b[1]] for c in b[2:]) else CHAR
        if b[1] not in d:
            return BEGIN
    return "ok" if all(c in d for c in b) else CHAR


def clean(s):
    """no blanks anywhere and at most one sign in front: everything else is not claimed"""
    return s == s.strip() and " " not in s and not (len(s) > 1 and s[0] in "+-" and s[1] in "+-")


def c29(r, tier, shard, ns):
    def ints(s):
        if not clean(s):
            return
        if s[:1] != "-":
            yield "nat/parse", "kn " + hx(s), natkind(s[1:] if s[:1] == "+" else s)
        elif len(s) > 1:
            yield "nat/minus", "kn " + hx(s), BEGIN
        yield "bigint/parse", "ki " + hx(s), natkind(s[1:] if s[:1] in ("+", "-") else s)

    def ratk(s):
        if "." in s:
            return None
        p = s.split("/", 1)
        if not all(clean(x) for x in p):
            return None
        ks = [natkind(x[1:] if x[:1] in ("+", "-") else x) for x in p]
        if any(k != "ok" for k in ks):
            return "err_ParseStringWrong"
        if len(p) == 2 and intval(p[1]) == 0:
            return "err_DenominatorIsZero"
        return "ok"

    def rats(s):
        k = ratk(s)
        if k:
            yield "rat/parse", "kr " + hx(s), k

    for s in shards(JUNK, shard, ns):
        yield from ints(s)
        for o in ("1", "0", "0x0", "-3", "7"):
            if clean(s):
                yield from rats(s + "/" + o)
                yield from rats(o + "/" + s)
    for n in range(0, T(tier, 5, 6)):
        for tup in shards(itertools.product("01 8bBoxXfFg-+"[0:1] + "18bBoxXfFg-+", repeat=n) if n < 4 else itertools.product("07bx9z-", repeat=n), shard, ns):
            yield from ints("".join(tup))
    for n in range(0, 6):
        for tup in shards(itertools.product("01x/-", repeat=n), shard, ns):
            yield from rats("".join(tup))
    for z in shards(["0", "00", "-0", "+0", "0x0", "0b0", "0o0", "0x" + "0" * 40, "-0b" + "0" * 99, "0" * 30], shard, ns):
        for _ in range(6):
            yield "rat/zero-denominator", "kr " + hx(spell(r, gi(r, 6)) + "/" + z), "err_DenominatorIsZero"
    for s in shards(["1.5x", "x1.5", "1..5", ".", "+.", "-.", ".e5", "1.5e", "1.2.3", "1.5/2", "1/2.5", "0x1.8", "é.5", "1.٣", "1.5 5", "..", "1.e+", "./2", "1.0e400", "-1.5e999", "9" * 400 + ".0"], shard, ns):
        yield "rat/decimal", "kr " + hx(s), "err_ParseStringWrong"
    for s in shards([".5", "1.", "-1.5", "+1.5e3", "0.0", "1.5E-3", "123456789.25"], shard, ns):
        yield "rat/decimal", "kr " + hx(s), "ok"
    # floats
    mant = ["1", "-1", "0", "1.5", "-.5", "5.", "+2.25", "123456789.000001"]
    over = [EMAX + 1, EMAX + 2, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 5, 10 ** 30, 10 ** 200]
    for m in mant:
        for x in shards(over, shard, ns):
            for e in "eE":
                for z in ("", "000"):
                    yield "float/overflow", "kf " + hx("%s%s%s%s%d" % (m, e, r.choice(("", "+")), z, x)), "err_ExponentOverflow"
                    yield "float/underflow", "kf " + hx("%s%s-%s%d" % (m, e, z, x + 1)), "err_ExponentUnderflow"
    bad = ["", ".", "+", "-", "+.", "e", "e5", ".e5", "1e", "1e+", "1.5e-", "1e5.5", "1ee5", "1e5e5", "1E5e5", "1..5", "1.2.3", "abc", "1.5x", "x1.5", "0.x5", "0x1.8", "0b1.1", "1,5", "½", "1.é", "1e٣", "NaN", "inf", "1e0x10", "0x", "0b", "0o", "0xg", "0b2", "0o8", "1.5-", "1/2", "1.5eé", "1e99999999999999999999x", "1.5e-99999999999999999999.0"]
    for s in shards(bad, shard, ns):
        yield "float/parse", "kf " + hx(s), "err_ParseStringWrong"
    for _ in range(T(tier, 20000, 60000)):
        v = gi(r, r.choice((1, 3, 10, 40)))
        s = spell(r, v)
        yield from ints(s)
        t = mutate(r, s)
        if r.random() < .2:
            t = mutate(r, t)
        yield from ints(t)
        w = spell(r, gi(r, 4))
        yield from rats(r.choice((s + "/" + w, t + "/" + w, w + "/" + t, s, t)))
        # floats
        m = "%s%d.%d" % (r.choice(("", "-", "+")), r.randrange(10 ** r.randrange(1, 20)), r.randrange(10 ** r.randrange(1, 20)))
        if r.random() < .5:
            m += r.choice("eE") + r.choice(("", "+", "-")) + str(r.randrange(40))
        yield "float/parse", "kf " + hx(m), "ok"
        b = mutate(r, m)
        if fdec(b) is None:
            yield "float/parse", "kf " + hx(b), "err_ParseStringWrong"
        # fractions
        p, q = r.randrange(-2 ** 63, 2 ** 63), r.choice((0, 0, 1, -1, r.randrange(-2 ** 63, 2 ** 63)))
        yield "rat/from_frac", "kfrac %d %d" % (p, q), "ok" if q else "err_DenominatorIsZero"
        a, b = gi(r, 8), r.choice((0, gi(r, 8)))
        yield "rat/from_frac_bigint", "kfracb %s %s" % (li(r, a), li(r, b)), "ok" if b else "err_DenominatorIsZero"
        q = r.choice((Fraction(0), Fraction(gi(r, 5), gn(r, 5) or 1)))
        yield "rat/inv", "kinv %s" % lr(r, q), "ok" if q else "err_NumeratorIsZero"
    for b in (0, 1):
        yield "nat/generate_prime", "kgen %d" % b, PARA
    for _ in range(T(tier, 800, 2000)):
        m = "".join(r.choice("abc XYZ019.é{}%") for _ in range(r.randrange(0, 30)))
        for ty, n in (("nat", 3), ("rat", 3), ("rand", 5)):
            for k in range(n):
                yield "construct/" + ty, "kmk %s %d %s" % (ty, k, hx(m)), "1 1 - 1 outer inner"
    # generators: invalid parameters, failing seeds, failing hardware
    for x in w_rand.c25(r, "quick", shard, ns):
        if getattr(x[2], "is_bad", False):
            yield "rand/" + x[0], x[1], x[2]
    for _ in range(T(tier, 3200, 10000)):
        what, ty = r.choice(("seed", "rand", "crypto", "randit", "cryptoit")), r.choice(("u32", "u64", "usize"))
        steps = ["f" if r.random() < .6 else "%x" % r.getrandbits(64) for _ in range(r.randrange(1, 12))]
        yield "rand/hw-" + what, "ghwf %s %s %d %s" % (what, ty, len(steps), ",".join(steps)), w_rand.scripted(w_rand.BITS[ty], "NoNewRandSeedGen" if what == "seed" else "NoNewRandNumberGen")
