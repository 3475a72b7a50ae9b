"""C06 (canonical form), C07 (order), C22 (NaN/Inf), C23 (aliasing): multi-step histories and special values."""
import itertools
import re
from fractions import Fraction
from math import gcd, isqrt
from num import *
from w_int import T, tdiv, trem, deu, reu, nnot
from w_rat import gq, qpair
from w_float import L, gf, near, gprec, gmant, pf, odd, NI, rnd, EMAX, EMIN, gexp
from w_text import PT, prim


# ------------------------------------------------------------------ histories
class Regs:
    """registers with shallow-clone groups: registers of one group are one value"""

    def __init__(s, vals):
        s.v = {i: x for i, x in enumerate(vals)}
        s.g = list(range(len(vals)))
        s.next = len(vals)

    def get(s, i):
        return s.v[s.g[i]]

    def fresh(s, d, x):
        s.g[d] = s.next
        s.v[s.next] = x
        s.next += 1

    def share(s, d, a):
        s.g[d] = s.g[a]

    def mut(s, d, x):
        s.v[s.g[d]] = x

    def dump(s, ren):
        return ",".join(ren(s.v[g]) for g in s.g)


def nanop(f):
    return lambda a, b: None if a is None or b is None else f(a, b)


NB = {"add": nanop(lambda a, b: a + b), "sub": nanop(lambda a, b: abs(a - b)), "mul": nanop(lambda a, b: a * b), "div": nanop(lambda a, b: a // b), "rem": nanop(lambda a, b: a % b),
      "and": nanop(lambda a, b: a & b), "or": nanop(lambda a, b: a | b), "xor": nanop(lambda a, b: a ^ b), "andn": nanop(lambda a, b: a & ~b)}
IB = dict(NB, sub=nanop(lambda a, b: a - b), div=nanop(tdiv), rem=nanop(trem), andn=nanop(lambda a, b: a & ~b))
RB = {"add": nanop(lambda a, b: a + b), "sub": nanop(lambda a, b: a - b), "mul": nanop(lambda a, b: a * b), "div": nanop(lambda a, b: a / b)}


def bl(v):
    return 0 if v is None else v.bit_length() if isinstance(v, int) else v.numerator.bit_length() + v.denominator.bit_length()


def pick_small(r, v, cap):
    return bl(v) < cap


def prog(r, kind, steps, cap=3000, share=True, nan=0.0, g=None):
    """-> (line, expected response)"""
    nregs = r.randrange(2, 6)
    nat, rat = kind == "pn", kind == "pr"
    gen = g or (lambda: gn(r, 12) if nat else gi(r, 12) if kind == "pi" else gq(r, 4))
    vals = [None if r.random() < nan else gen() for _ in range(nregs)]
    lit = {"pn": ln, "pi": li, "pr": lr}[kind]
    ren = {"pn": rn, "pi": ri, "pr": rr}[kind]
    ops = NB if nat else RB if rat else IB
    R = Regs(vals)
    line = [kind, str(nregs)] + [lit(r, v) for v in vals]
    out = []
    rg = lambda: r.randrange(nregs)
    share = share and nat
    while steps > 0:
        k = r.random()
        d, a, b = rg(), rg(), rg()
        pre = ""
        if k < .07:
            if not share:
                continue
            st = "S:%d:%d" % (d, a)
            R.share(d, a)
        elif k < .13:
            st = "D:%d:%d" % (d, a)
            R.fresh(d, R.get(a))
        elif k < .38:
            o = r.choice(list(ops))
            x, y = R.get(a), R.get(b)
            if o in ("div", "rem") and y == 0 or o == "mul" and bl(x) + bl(y) > cap or rat and bl(x) + bl(y) > cap:
                continue
            st = "B:%s:%d:%d:%d" % (o, d, a, b)
            R.fresh(d, ops[o](x, y))
        elif k < .66:
            o = r.choice(list(ops))
            x, y = R.get(d), R.get(a)
            if o in ("div", "rem") and y == 0 or o == "mul" and bl(x) + bl(y) > cap or rat and bl(x) + bl(y) > cap:
                continue
            st = "A:%s:%d:%d" % (o, d, a)
            R.mut(d, ops[o](x, y))
        elif k < .72:
            st = "Q:%d:%d" % (a, b)
            if bl(R.get(a)) > 1500 or bl(R.get(b)) > 1500 or (not rat and R.get(b) in (0, None)):
                continue
        elif rat:
            o = r.choice(("neg", "abs", "inv"))
            x = R.get(a)
            st = "U:%s:%d:%d" % (o, d, a)
            R.fresh(d, None if x is None else -x if o == "neg" else abs(x) if o == "abs" else (1 / x if x else x))
        elif k < .86:
            s = r.choice((0, 1, 5, 31, 32, 33, 63, 64, 65, r.randrange(0, 200), r.randrange(0, 200)))
            dr = r.choice("lrr")
            ip = r.random() < .6
            x = R.get(d if ip else a)
            if dr == "l" and bl(x) + s > cap:
                continue
            v = None if x is None else x << s if dr == "l" else x >> s
            if ip:
                st = "H:%s:%d:%d" % (dr, d, s)
                R.mut(d, v)
            else:
                st = "h:%s:%d:%d:%d" % (dr, d, a, s)
                R.fresh(d, v)
        elif nat and k < .93:
            o = r.choice(("add", "sub", "mul", "div", "rem"))
            w = r.choice(SPECW[1:]) if r.random() < .7 else r.getrandbits(32) | 1
            if r.random() < .5:
                st = "W:%s:%d:%x" % (o, d, w)
                R.mut(d, NB[o](R.get(d), w))
            else:
                st = "w:%s:%d:%d:%x" % (o, d, a, w)
                R.fresh(d, NB[o](R.get(a), w))
        elif nat and k < .95:
            x, y = R.get(d), R.get(a)
            if x is None or y is None:
                continue
            st = "G:%d:%d" % (d, a)
            pre = "%d " % (x >= y)
            R.mut(d, abs(x - y))
        elif nat and k < .965:
            x, y = R.get(a), R.get(b)
            if bl(x) + bl(y) > cap:
                continue
            st = "K:%d:%d:%d" % (d, a, b)
            R.fresh(d, NB["mul"](x, y))
        elif k < .985 or nat:
            x = R.get(a)
            o = r.choice(("not", "sqr", "sqrt") if nat else ("not", "neg", "abs", "sqr", "sqrt"))
            if o == "sqr" and 2 * bl(x) > cap or o == "sqrt" and bl(x) > 900:
                continue
            st = "U:%s:%d:%d" % (o, d, a)
            if x is None:
                v = None
            elif o == "not":
                v = nnot(x) if nat else ~x
            elif o == "sqr":
                v = x * x
            elif o == "sqrt":
                v = isqrt(x) if x >= 0 else None
            else:
                v = -x if o == "neg" else abs(x)
            R.fresh(d, v)
        else:
            x, y = R.get(a), R.get(b)
            o = r.choice(("deu", "reu", "gcd"))
            if r.random() < .5 or o == "gcd":
                if o != "gcd" and y == 0:
                    continue
                st = "E:%s:%d:%d:%d" % (o, d, a, b)
                if x is None or y is None:
                    v = None
                else:
                    v = gcd(x, y) if o == "gcd" else deu(x, y) if o == "deu" else reu(x, y)
                R.fresh(d, v)
            else:
                x, y = R.get(d), R.get(a)
                if y == 0:
                    continue
                st = "e:%s:%d:%d" % (o, d, a)
                R.mut(d, None if x is None or y is None else deu(x, y) if o == "deu" else reu(x, y))
        line.append(st)
        out.append(pre + R.dump(ren))
        steps -= 1
    return " ".join(line), " ".join(out)


TOK = re.compile(r"^-?[0-9a-f]{8,}$")


def _cint(x):
    d = x.lstrip("-")
    if len(d) % 8:
        return None
    if len(d) > 8 and d[:8] == "00000000":
        return "leading zero limb: " + x[:60]
    if x[0] == "-" and not d.strip("0"):
        return "negative zero"
    return None


def canon(s):
    """every number in an answer is in canonical form (whether it is the right number is for other properties)"""
    if s.startswith("!"):
        return None
    for t in re.split("[ ,]", s):
        p = t.split("/")
        if len(p) > 2 or not all(TOK.match(x) for x in p):
            continue
        for x in p:
            e = _cint(x)
            if e:
                return e
        if len(p) == 2:
            if p[1][0] == "-" or not p[1].strip("0"):
                return "denominator not positive: " + t[:80]
            a, b = int(p[0], 16), int(p[1], 16)
            if gcd(a, b) != 1:
                return "not in lowest terms: " + t[:80]
    return None


canon.panic_ok = True
canon.death_ok = True
CANON_OPS = set("nadd nsub nmul nsws naddw nsubw nmulw ndiv nrem ndivw nremw idiv irem ideu ireu nkara nsqr isqr nshl nshr ishl ishr nand nor nxor nandn iand ior ixor iandn nnot inot iadd isub imul ineg iabs iset "
                "nparse iparse rparse nbytes ibytes nfrom ifrom rfrom ifromn npow npowm nexp iexp igcd iinv ilin imsq nsqrt isqrt imulr ibinom ngenp nrand irand rid rneg rabs rinv radd rsub rmul rdiv rfracb rfrac rff64 rff32".split())


def canon_events(r, tier, shard, ns):
    """the answers of every other check's requests, constructors and parsers included, judged for their form only"""
    import registry
    for pid, n, step in (("C10", 6000, 2), ("C09", 8000, 3), ("C28", 6000, 2), ("C17", 6000, 2), ("C18", 2500, 3), ("C16", 500, 1), ("C02", 8000, 5), ("C04", 8000, 5), ("C05", 8000, 5), ("C08", 6000, 3), ("C03", 3000, 3),
                         ("C11", 1500, 2), ("C12", 2500, 1), ("C13", 2000, 1), ("C14", 2500, 2), ("C01", 4000, 5)):
        k = T(tier, 2, 6)
        for tag, line, _ in itertools.islice(registry.REG[pid]["wl"](r, "quick", shard + ns * r.randrange(8), 8 * ns), 0, n * k, step):
            if line.split(" ", 1)[0] in CANON_OPS:
                yield "answers/" + pid, line, canon


def c06(r, tier, shard, ns):
    yield from canon_events(r, tier, shard, ns)
    for _ in range(T(tier, 4000, 40000)):
        for k in ("pn", "pi", "pr"):
            l, e = prog(r, k, r.choice((4, 8, 20)), share=False)
            yield "history/" + k, l, e
    for i in range(T(tier, 300, 4000)):
        for k in ("pn", "pi", "pr"):
            mx = r.choice((45, 90, 170, 300))
            l, e = prog(r, k, 6, cap=24000 if k != "pr" else 9000, share=False, g=(lambda: gn(r, mx)) if k == "pn" else (lambda: gi(r, mx)) if k == "pi" else (lambda: gq(r, 20)))
            yield "history/%s-long" % k, l, e
    # histories that shrink: start big, subtract / divide / shift / mask down to small values and zero
    for _ in range(T(tier, 6000, 25000)):
        for kind in ("pn", "pi"):
            nat = kind == "pn"
            n = nlen(r, 40 if r.random() < .8 else 140)
            a = pat(r, n)
            top = 32 * n
            b = r.choice((a, a ^ 1, a - 1, a + 1, a ^ (1 << r.randrange(top)), a & ((1 << r.randrange(1, top + 1)) - 1), a >> r.randrange(0, top), (a >> r.randrange(top)) << r.randrange(3)))
            b = abs(b)
            if not nat:
                a, b = a * r.choice((1, -1)), b * r.choice((1, -1))
            lit = ln if nat else li
            ren = rn if nat else ri
            R = Regs([a, b, 0, 1])
            line = [kind, "4"] + [lit(r, v) for v in (a, b, 0, 1)]
            out = []
            B = NB if nat else IB
            for _ in range(6):
                o = r.choice(("sub", "sub", "rem", "div", "and", "xor", "andn", "add", "mul"))
                d, x, y = r.randrange(4), r.randrange(4), r.randrange(4)
                if r.random() < .5:
                    x = d
                    if o in ("div", "rem") and R.get(y) == 0 or o == "mul" and bl(R.get(x)) + bl(R.get(y)) > 4000:
                        continue
                    line.append("A:%s:%d:%d" % (o, d, y))
                    R.mut(d, B[o](R.get(d), R.get(y)))
                else:
                    if o in ("div", "rem") and R.get(y) == 0 or o == "mul" and bl(R.get(x)) + bl(R.get(y)) > 4000:
                        continue
                    line.append("B:%s:%d:%d:%d" % (o, d, x, y))
                    R.fresh(d, B[o](R.get(x), R.get(y)))
                out.append(R.dump(ren))
                if r.random() < .4:
                    s = r.choice((32, 31, 33, 64, 1, top - 32, top - 1, top, top + 1, r.randrange(0, top + 3)))
                    s = max(0, s)
                    dr = "r" if bl(R.get(d)) + s > 4000 or r.random() < .6 else "l"
                    line.append("H:%s:%d:%d" % (dr, d, s))
                    x = R.get(d)
                    R.mut(d, x >> s if dr == "r" else x << s)
                    out.append(R.dump(ren))
            if out:
                yield "shrinking/" + kind, " ".join(line), " ".join(out)
    # rationals whose operands share factors
    for _ in range(T(tier, 6000, 30000)):
        pr = [2, 3, 5, 7, 2 ** 32, 2 ** 32 - 1, 2 ** 31, 6, 10, 2 ** 64 - 1, 997]

        def g():
            n = d = 1
            for _ in range(r.randrange(0, 4)):
                n *= r.choice(pr)
                d *= r.choice(pr)
            return Fraction(n * r.choice((1, -1, 0 if r.random() < .1 else 1)), d)
        l, e = prog(r, "pr", r.choice((4, 10, 16)), cap=2500, g=g)
        yield "history/pr-factors", l, e


# ------------------------------------------------------------------ order
def cs(a, b):
    if a is None or b is None:
        return "010000?"
    return "%d%d%d%d%d%d%s" % (a == b, a != b, a < b, a <= b, a > b, a >= b, "=" if a == b else "<" if a < b else ">")


INF = float("inf")


def fval(x):
    """comparable key of a literal"""
    if x.kind == "n":
        return None
    if x.kind == "i":
        return (-2,) if x.neg else (2,)
    if x.kind == "z":
        return (0,)
    return (-1, 0) if x.neg else (1, 0)


def fcmp(a, b):
    ka, kb = fval(a), fval(b)
    if ka is None or kb is None:
        return cs(None, None)
    if ka[0] != kb[0] or a.kind != "f":
        return cs(ka[0], kb[0])
    e = min(a.e, b.e)
    if abs(a.exp() - b.exp()) > 1:
        x, y = a.exp(), b.exp()
    else:
        x, y = a.m << (a.e - e), b.m << (b.e - e)
    return cs(-x, -y) if a.neg else cs(x, y)


def c07(r, tier, shard, ns):
    def nn(a, b):
        yield "nat", "ncmp v %s %s" % (ln(r, a), ln(r, b)), cs(a, b)

    def ii(a, b):
        yield "bigint", "icmp v %s %s" % (li(r, a), li(r, b)), cs(a, b)

    def qq(a, b):
        yield "rat", "rcmp v %s %s" % (lr(r, a), lr(r, b)), cs(a, b)

    def ff(a, b, tag="float"):
        e = fcmp(a, b)
        yield tag, "fcmp v %s %s" % (a, b), (lambda s: None if s.split(" ")[-1] == e else "expected " + e)

    def pp(a):
        for ty in ("u8", "u16", "u32", "u64", "u128", "usize"):
            w = PT[ty][1]
            ks = {prim(r, ty), (a or 0) & ((1 << w) - 1), min(max(0, (a or 0) + r.choice((-1, 0, 1))), (1 << w) - 1)}
            for k in ks:
                yield "nat/" + ty, "ncmpp %s %s %x" % (ln(r, a), ty, k), cs(a, k)
        for k in {(abs(a or 0)) & M32, r.choice(SPECW)}:
            for v in (a, None if a is None else -a):
                yield "bigint/u32", "icmpw %s %x" % (li(r, v), k), "01" if v is None else "%d%d" % (v == k, v != k)

    sm = SMALL + [None]
    for a in shards(sm, shard, ns):
        for b in sm:
            yield from nn(a, b)
            for sa in (1, -1):
                for sb in (1, -1):
                    yield from ii(None if a is None else sa * a, None if b is None else sb * b)
        for _ in range(3):
            yield from pp(a)
        yield "nat/self", "ncmp s %s %s" % (ln(r, a), ln(r, a)), cs(a, a)
        yield "bigint/self", "icmp s %s %s" % (li(r, a), li(r, a)), cs(a, a)
    for a, b in bitgrid(r, shard, ns):
        yield from nn(a, b)
        yield from ii(r.choice((a, -a)), r.choice((b, -b)))
        yield from pp(a) if r.random() < .1 else ()
        if r.random() < .5:
            # fractions within a factor of four of each other, and equal ones
            x = r.choice((1, -1)) * Fraction(a, b)
            c = a + r.choice((-1, 0, 1, a, r.randrange(a + 1)))
            d = b + r.choice((0, 0, 1, b, r.randrange(b + 1)))
            yield from qq(x, r.choice((1, -1)) * Fraction(c, d))
            yield from qq(x, (1 if x > 0 else -1) * Fraction(c, d))
    fs = [Fraction(p, q) for p in range(-5, 6) for q in range(1, 6)] + [None]
    for a in shards(fs, shard, ns):
        for b in fs:
            yield from qq(a, b)
        yield "rat/self", "rcmp s %s %s" % (lr(r, a), lr(r, a)), cs(a, a)
    sp = [L(53, 0, k, n) for k in "zi" for n in (False, True)] + [L(0, 0, "z", False), L(0, 0, "z", True), L(0, 0, "n"), L(53, 0, "n")] + [L(p, 0, "f", n, m, e) for p in (1, 53, 64, 100) for n in (False, True) for m, e in ((1, 0), (1, 1), (1, -1), (1, EMAX - 1), (1, EMIN))] + [L(5, 2, "f", n, 17, -4) for n in (False, True)]
    for a in shards(sp, shard, ns):
        for b in sp:
            yield from ff(a, b, "float/special")
        e = fcmp(a, a)
        yield "float/self", "fcmp s %s %s" % (a, a), (lambda s, e=e: None if s.split(" ")[-1] == e else "expected " + e)
    for n in shards(range(1, T(tier, 300, 1200)), shard, ns):
        x = pat(r, n)
        for y in (x, x ^ 1, x ^ (1 << (32 * n - 1)), x ^ (1 << r.randrange(32 * n)), x >> 32, x << 32, (x & ~M32) | r.getrandbits(32)):
            yield from nn(x, y)
            yield from nn(y, x)
            yield from ii(x, -y)
            yield from ii(-x, -y)
            yield from ii(-y, x)
    for n in shards(range(9, T(tier, 80, 200)), shard, ns):
        p, q = pat(r, n), pat(r, r.choice((n, n - 1, n // 2, 1)))
        a = Fraction(r.choice((1, -1)) * p, q)
        for b in (a, -a, 1 / a, Fraction(a.numerator + 1, a.denominator), Fraction(a.numerator, a.denominator + 1), Fraction(a.numerator - 1, a.denominator + 1), Fraction(a.numerator >> 32 or 1, a.denominator), a * Fraction(3, 2), Fraction(pat(r, n), pat(r, n))):
            yield from qq(a, b)
            yield from qq(b, a)
    # every limb count and shape, partners that differ in one bit of any limb, in the top limb, in length
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 1, 5)):
        for c in (b, a ^ 1, a ^ (1 << r.randrange(32 * n)), a ^ (1 << 32 * r.randrange(n)), a):
            yield from nn(a, c)
            yield from nn(c, a)
            s, t = r.choice(((1, 1), (-1, -1), (1, -1), (-1, 1)))
            yield from ii(s * a, t * c)
            yield from ii(-s * c, -t * a)
        yield from pp(a)
        d = shaped(r, r.choice((1, 2, max(1, n // 2), n)))
        q = Fraction(r.choice((1, -1)) * a, d)
        for c in (Fraction(r.choice((1, -1)) * b, d), Fraction(q.numerator ^ 1, d), Fraction(q.numerator, q.denominator + 1), 1 / q, q, Fraction(int(q))):
            if n <= 100 or r.random() < .2:
                yield from qq(q, c)
                yield from qq(c, q)
        # floats: the same exponent, mantissas of n limbs against equal, shorter, longer and one-bit-off ones
        for neg in (False, True):
            e = gexp(r, True)
            e = max(min(e, EMAX - 40 * n), EMIN + 40)
            x = L(a.bit_length() + r.choice((0, 0, 1, 32, 77)), r.randrange(6), "f", neg, a, e)
            o = r.randrange(32 * n)
            k = r.choice((32, 64, 1, 31, 33, 32 * r.randrange(1, 12)))
            for m, d in ((a, 0), (a ^ 1, 0), (a ^ (1 << o), 0), ((a >> o << o) or a, 0), (a << k, -k), ((a << k) | 1, -k), ((a << k) - 1, -k), ((a << k) | (1 << r.randrange(k)), -k), (b, a.bit_length() - b.bit_length()), (b, r.randrange(-3, 3))):
                if m <= 0:
                    continue
                y = L(m.bit_length() + r.choice((0, 0, 5, 32, 64)), r.randrange(6), "f", neg if r.random() < .9 else not neg, m, e + d)
                if EMIN <= y.exp() <= EMAX and EMIN <= x.exp() <= EMAX:
                    yield from ff(x, y, "float/long")
                    yield from ff(y, x, "float/long")
    for _ in range(T(tier, 6000, 100000)):
        a, b = pair(r, 60)
        yield from nn(a, b)
        a, b = pair(r, 60, gi)
        yield from ii(a, b)
        yield from pp(gn(r, 5))
        a, b = qpair(r, 8)
        yield from qq(a, b)
        a = gf(r, True)
        b = near(r, a)
        if b.kind == "f" and not EMIN <= b.exp() <= EMAX:
            continue
        yield from ff(a, b)
        yield from ff(b, a)
        if a.kind == "f":
            # the same value at another precision, and its neighbours
            k = r.choice((0, 1, 31, 32, 64))
            d = r.choice((0, 0, 1, -1))
            m = (a.m << k) + d
            if m > 0:
                c = L(m.bit_length() + r.randrange(0, 70), r.randrange(6), "f", a.neg if r.random() < .8 else not a.neg, m, a.e - k)
                if EMIN <= c.exp() <= EMAX:
                    yield from ff(a, c)
                    yield from ff(c, a)


# ------------------------------------------------------------------ NaN and infinities
def first_nan(s):
    return None if s.split(" ")[0] == "N" else "expected NaN"


def c22(r, tier, shard, ns):
    def nat2(a, b, forms="vma"):
        for o in ("nadd", "nsub", "nmul", "ndiv", "nrem", "nand", "nor", "nxor", "nandn"):
            if o in ("ndiv", "nrem") and b == 0:
                continue
            for f in forms:
                yield "nat/" + o, "%s %s %s %s" % (o, f, ln(r, a), ln(r, b)), "N"
        for f in forms:
            yield "nat/nsws", "nsws %s %s %s" % (f, ln(r, a), ln(r, b)), first_nan
        yield "nat/nkara", "nkara v %s %s" % (ln(r, a), ln(r, b)), "N"
        yield "nat/npow", "npow v %s %s" % (ln(r, a), ln(r, b)), "N"

    def int2(a, b, forms="vma"):
        for o in ("iadd", "isub", "imul", "idiv", "irem", "iand", "ior", "ixor", "iandn", "ideu", "ireu"):
            if o in ("idiv", "irem", "ideu", "ireu") and b == 0:
                continue
            for f in forms:
                yield "bigint/" + o, "%s %s %s %s" % (o, f, li(r, a), li(r, b)), "N"
        yield "bigint/igcd", "igcd v %s %s" % (li(r, a), li(r, b)), first_nan
        yield "bigint/iinv", "iinv %s %s" % (li(r, a), li(r, b)), "N"
        yield "bigint/ijac", "ijac %s %s" % (li(r, a), li(r, b)), "none"
        yield "bigint/imsq", "imsq %s %s" % (li(r, a), li(r, b)), "none"

    def rat2(a, b, forms="vma"):
        for o in ("radd", "rsub", "rmul", "rdiv"):
            if o == "rdiv" and b == 0:
                continue
            for f in forms:
                yield "rat/" + o, "%s %s %s %s" % (o, f, lr(r, a), lr(r, b)), "N"

    for nn, fn in shards(list(zip(("N", "N1", "N2", "N3"), ("n", "n1", "n2", "n3"))), shard, ns):
        for o in ("nnot", "nsqr", "nsqrt"):
            yield "nat/" + o, "%s %s" % (o, nn), "N"
        for o in ("ineg", "inot", "iabs", "isqr", "isqrt"):
            yield "bigint/" + o, "%s %s" % (o, nn), "N"
        yield "bigint/iset", "iset " + nn, "N N"
        yield "bigint/isgn", "isgn " + nn, lambda s: None if s.split(" ")[1] == "none" and s.split(" ")[3] == "1" and s[0] == "0" and s[1] == "0" else "signnum of NaN is None, NaN is neither negative nor positive"
        yield "nat/nbit", "nbit %s 0 1 5 31 32 100 18446744073709551615" % nn, "x" * 7
        yield "bigint/ibit", "ibit %s 0 1 5 31 32 100 18446744073709551615" % nn, "x" * 7
        yield "nat/nmisc", "nmisc " + nn, lambda s: None if s.split(" ")[2] == "1" else "expected NaN"
        for o, f in (("nrand", 2), ("irand", 3)):
            yield "random/" + o, "%s %s %d 1:0:" % (o, nn, f), (lambda s, f=f: None if s.startswith("N " * f) else "expected NaN")
        for o, e in (("nfmt", 10), ("ifmt", 10), ("ndec", 1), ("idec", 1), ("rfmt", 9), ("rdec", 1)):
            yield "fmt/" + o, "%s %s" % (o, nn), " ".join(["NaN"] * e)
        for o in ("rneg", "rabs", "rinv", "rid"):
            yield "rat/" + o, "%s %s" % (o, nn), "N"
        yield "rat/rinfo", "rinfo " + nn, "none ? 1"
        yield "rat/rtof", "rtof " + nn, lambda s: None if int(s.split()[0], 16) & (2 ** 63 - 1) > 0x7FF0000000000000 and int(s.split()[2], 16) & (2 ** 31 - 1) > 0x7F800000 else "expected NaN"
        for o in ("fneg", "fabs", "fid"):
            yield "float/" + o, o + " 0,0," + fn, lambda s: None if pf(s.split(" ")[1]).kind == "n" else "expected NaN"
        yield "float/finfo", "finfo 0,0," + fn, lambda s: None if s.split(" ", 1)[1] == "none ? ? ? 0 1" else "expected None for every query"
        yield "float/ftof", "ftof 0,0," + fn, lambda s: None if int(s.split()[1], 16) & (2 ** 63 - 1) > 0x7FF0000000000000 and int(s.split()[3], 16) & (2 ** 31 - 1) > 0x7F800000 else "expected NaN"
        yield "float/ftoi", "ftoi 0,0," + fn, lambda s: None if s.split(" ", 1)[1] == "none none" else "expected None"
        yield "float/fprec", "fprec 20 0,0," + fn, lambda s: None if pf(s.split(" ")[1]).kind == "n" else "expected NaN"
        yield "float/fprec", "fprec 0 53,0," + fn, lambda s: None if pf(s.split(" ")[1]).kind == "n" else "expected NaN"
        yield "float/fmode", "fmode 3 53,0," + fn, lambda s: None if pf(s.split(" ")[1]).kind == "n" else "expected NaN"
        yield "float/fmant", "fmant 53,0," + fn, lambda s: None if pf(s.split(" ")[1]).kind == "n" and pf(s.split(" ")[3]).kind == "n" else "expected NaN"
        for ty in ("N", "I", "R"):
            yield "float/from", "ffrom %s %s" % (ty, nn), lambda s: None if pf(s).kind == "n" else "expected NaN"
    if shard == 0:
        for o, e in (("nfmt", 10), ("ifmt", 10), ("ndec", 1), ("idec", 1), ("rfmt", 9), ("rdec", 1)):
            yield "fmt/" + o, o + " N", " ".join(["NaN"] * e)
        yield "fmt/float", "fdisp 53,0,n", lambda s: None if s.split(" ", 1)[1] == "NaN" else "expected NaN"
        for p in range(0, 130):
            yield "fmt/float", "fexp %d %d,0,n" % (p, r.choice((0, 1, 53, p))), lambda s: None if s.split(" ", 1)[1] == "NaN NaN" else "expected NaN NaN"
            yield "fmt/float", "fdisp %d,%d,n" % (p, p % 6), lambda s: None if s.split(" ", 1)[1] == "NaN" else "expected NaN"
        for f in "st":
            for o in ("nadd", "nsub", "nmul", "ndiv", "nrem", "nand", "nor", "nxor", "nandn"):
                yield "nat/" + o, "%s %s N N" % (o, f), "N"
            for o in ("iadd", "isub", "imul", "idiv", "irem", "iand", "ior", "ixor", "iandn", "ideu", "ireu"):
                yield "bigint/" + o, "%s %s N N" % (o, f), "N"
            for o in ("radd", "rsub", "rmul", "rdiv"):
                yield "rat/" + o, "%s %s N N" % (o, f), "N"
    yield from nat2(None, None)
    yield from int2(None, None)
    yield from rat2(None, None)
    for v in shards(SMALL + [pat(r, n) for n in range(1, 60)], shard, ns):
        yield from nat2(v, None)
        yield from nat2(None, v)
        for s in (1, -1):
            yield from int2(s * v, None)
            yield from int2(None, s * v)
            q = Fraction(s * v, r.randrange(1, 50))
            yield from rat2(q, None)
            yield from rat2(None, q)
            yield "rat/rfracb", "rfracb N %s" % li(r, s * v or 1), "N"
            yield "rat/rfracb", "rfracb %s N" % li(r, s * v), "N"
        for o in ("naddw", "nsubw", "nmulw"):
            for f in "vma":
                yield "nat/" + o, "%s %s N %x" % (o, f, v & M32), "N"
        for o in ("ndivw", "nremw"):
            for f in "vma":
                yield "nat/" + o, "%s %s N %x" % (o, f, (v & M32) or 1), "N"
        for f in "vma":
            k = r.choice((0, 1, 31, 32, 100, v % 1000))
            yield "nat/shift", "nshl %s N %d" % (f, k), "N"
            yield "nat/shift", "nshr %s N %d" % (f, k), "N"
            yield "bigint/shift", "ishl %s N %d" % (f, k), "N"
            yield "bigint/shift", "ishr %s N %d" % (f, k), "N"
        w = gn(r, 3)
        e = r.randrange(0, 50)
        for t in ((None, v, w), (v, None, w), (v, e, None), (None, None, w), (None, e, None), (v, None, None)):
            for o in ("npowm", "nexp"):
                yield "nat/" + o, "%s v %s" % (o, " ".join(ln(r, x) for x in t)), "N"
            yield "bigint/iexp", "iexp v %s" % " ".join(li(r, x) for x in t), "N"
            yield "bigint/ilin", "ilin %s" % " ".join(li(r, x) for x in t), "none"
        yield "nat/nprime", "nprime N 5 1:0:", lambda s: None if s.startswith("0") else "NaN is not prime"
    # histories in which NaN spreads
    for _ in range(T(tier, 3600, 20000)):
        for k in ("pn", "pi", "pr"):
            l, e = prog(r, k, r.choice((4, 10)), nan=.25)
            yield "history/" + k, l, e

    # ---- floats
    def ieee(op, a, b):
        """-> (kind, sign or None if not specified); kind 'f' is judged by C19"""
        if a.kind == "n" or b.kind == "n":
            return "n", None
        bn = b.neg != (op == "fsub")
        if op in ("fadd", "fsub"):
            if a.kind == b.kind == "i":
                return ("n", None) if a.neg != bn else ("i", a.neg)
            if a.kind == "i":
                return "i", a.neg
            if b.kind == "i":
                return "i", bn
            if a.kind == b.kind == "z":
                return "z", a.neg if a.neg == bn else (None if a.mode == NI else False)
            if a.kind == "z":
                return "f", bn
            if b.kind == "z":
                return "f", a.neg
            if odd(a.m, a.e) == odd(b.m, b.e) and a.neg != bn:
                return "z", a.mode == NI
            return None
        s = a.neg != b.neg
        if op == "fmul":
            if (a.kind, b.kind) in (("z", "i"), ("i", "z")):
                return "n", None
            if "i" in (a.kind, b.kind):
                return "i", s
            if "z" in (a.kind, b.kind):
                return "z", s
            return None
        if a.kind == b.kind and a.kind in "zi":
            return "n", None
        if a.kind == "z" or b.kind == "i":
            return "z", s
        if a.kind == "i" or b.kind == "z":
            return "i", s
        return None

    def fop(o, f, a, b):
        e = ieee(o, a, a if f in "st" else b)
        if e is None:
            return

        def chk(resp):
            t = resp.split(" ")
            if t[-1] == "MUT":
                return "an operand changed"
            x, y, z = pf(t[0]), pf(t[1]), pf(t[2])
            if not a.same(x) or not b.same(y):
                return "operand was not constructed as requested"
            if z.kind != e[0] and not (e[0] == "f" and z.kind in "zif"):
                return "expected kind %s" % e[0]
            if e[1] is not None and z.neg != e[1]:
                return "wrong sign"
            if e[0] in "zi" and z.acc != "E":
                return "an exact special result must have accuracy Exact"
            return None
        yield "float/%s/%s%s" % (o, a.kind, (a if f in "st" else b).kind), "%s %s %s %s" % (o, f, a, b), chk

    def specials(r):
        for k in "ziznf":
            for neg in (False, True):
                p = r.choice((0, 53, 64, 1, 100)) if k != "f" else gprec(r)
                yield L(p, r.randrange(6), k, neg and k != "n", gmant(r, p) if k == "f" else 0, r.randrange(-100, 100) if k == "f" else 0)

    for _ in range(T(tier, 180, 800)):
        for a in specials(r):
            for b in specials(r):
                for o in ("fadd", "fsub", "fmul", "fdiv"):
                    yield from fop(o, r.choice("vma"), a, b)
            for o in ("fadd", "fsub", "fmul", "fdiv"):
                yield from fop(o, r.choice("st"), a, a)
    for n in shards([x for x in SWEEP for _ in range(T(tier, 2, 8))], shard, ns):
        m = shaped(r, n)
        x = L(m.bit_length() + r.choice((0, 9)), r.randrange(6), "f", r.random() < .5, m, r.choice((0, -m.bit_length(), r.randrange(-2000, 2000), (1 << 31) - 1 - m.bit_length(), -(1 << 31))))
        for k in "zin":
            s = L(r.choice((0, 1, 24, 32, 33, 53, 64, 65, 128, 200)), r.randrange(6), k, k != "n" and r.random() < .5)
            for o in ("fadd", "fsub", "fmul", "fdiv"):
                yield from fop(o, r.choice("vma"), x, s)
                yield from fop(o, r.choice("vma"), s, x)
    for mo in range(6):
        for k1 in "zi":
            for k2 in "zi":
                for n1 in (False, True):
                    for n2 in (False, True):
                        for o in ("fadd", "fsub", "fmul", "fdiv"):
                            for f in "va":
                                yield from fop(o, f, L(53, mo, k1, n1), L(53, mo, k2, n2))
    for _ in range(T(tier, 4500, 20000)):
        a = gf(r)
        if a.kind != "f":
            continue
        q = a.prec + r.randrange(0, 40)
        for o in ("fadd", "fsub"):
            b = L(q, r.randrange(6), "f", r.random() < .5, a.m, a.e)
            yield from fop(o, r.choice("va"), a, b)
            yield from fop(o, r.choice("va"), b, a)
        i = L(r.choice((0, 53)), r.randrange(6), "i", r.random() < .5)
        for o in ("fadd", "fsub", "fmul", "fdiv"):
            yield from fop(o, r.choice("va"), a, i)
            yield from fop(o, r.choice("va"), i, a)
            z = L(r.choice((0, 53, 20)), r.randrange(6), "z", r.random() < .5)
            yield from fop(o, r.choice("va"), a, z)
            yield from fop(o, r.choice("va"), z, a)


# ------------------------------------------------------------------ aliasing
def c23(r, tier, shard, ns):
    def ind(p, lit, ren, a, b, ops):
        for o, f in ops.items():
            if o in ("div", "rem") and b == 0 or o == "andn":
                continue
            yield p + "indep/" + o, "%sindep %s %s %s" % (p, o, lit(r, a), lit(r, b)), "%s %s %s" % (ren(a), ren(f(a, b)), ren(f(a, b)))

    def ni(n, k):
        yield "inindep", "inindep %s %s" % (ln(r, n), ln(r, k)), "%s %s %s" % (rn(n), rn(n + k), rn(n + 2 * k))

    def fi(a, b):
        for o in ("add", "sub", "mul", "div"):
            if o in ("add", "sub") and a.kind == b.kind == "f" and abs(a.exp() - b.exp()) > 3000:
                continue

            def f(s):
                t = s.split(" ")
                if t[1] != t[0]:
                    return "the deep clone changed with the original"
                if t[2] != t[3]:
                    return "the original changed with the deep clone"
                return None
            yield "findep/" + o, "findep %s %s %s" % (o, a, b), f

    for a in shards(SMALL, shard, ns):
        for b in SMALL[::3]:
            yield from ind("n", ln, rn, a, b, NB)
            yield from ind("i", li, ri, -a, b, IB)
            yield from ni(a, b)
    for _ in range(T(tier, 2500, 40000)):
        a, b = pair(r, 40)
        yield from ind("n", ln, rn, a, b, NB)
        yield from ni(a, b)
        a, b = pair(r, 40, gi)
        yield from ind("i", li, ri, a, b, IB)
        a, b = qpair(r, 6)
        yield from ind("r", lr, rr, a, b, RB)
        a = gf(r)
        yield from fi(a, near(r, a))
    # histories with shallow clones of Nats (all members of a group must stay equal, nothing else may move)
    for _ in range(T(tier, 5000, 80000)):
        l, e = prog(r, "pn", r.choice((5, 10, 25)))
        yield "history/pn-shared", l, e
    for _ in range(T(tier, 800, 12000)):
        for k in ("pi", "pr"):
            l, e = prog(r, k, r.choice((5, 10)))
            yield "history/" + k, l, e
    # operand preservation of the methods (the driver reports MUT when an operand changed)
    for _ in range(T(tier, 2500, 40000)):
        a, b = pair(r, 30)
        for o in ("nkara",):
            yield o, "%s v %s %s" % (o, ln(r, a), ln(r, b)), rn(a * b)
        yield "nsqr", "nsqr " + ln(r, a), rn(a * a)
        yield "nsws", "nsws v %s %s" % (ln(r, a), ln(r, b)), "%s %d" % (rn(abs(a - b)), a >= b)
        n, e = gn(r, 6) or 1, gn(r, 2)
        for f, (x, y, z) in (("v", (a, e, n)), ("e", (e, e, n)), ("n", (n, e, n)), ("q", (a, n, n))):
            m, k, l = (x, e, n)
            if f == "e":
                yield "npowm/e", "npowm e %s %s %s" % (ln(r, e), ln(r, 0), ln(r, n)), rn(pow(e, e, n))
            elif f == "n":
                yield "npowm/n", "npowm n %s %s %s" % (ln(r, n), ln(r, e), ln(r, 0)), rn(pow(n, e, n))
            elif f == "q":
                yield "npowm/q", "npowm q %s %s %s" % (ln(r, a), ln(r, n), ln(r, 0)), rn(pow(a, n, n))
            else:
                yield "npowm/v", "npowm v %s %s %s" % (ln(r, a), ln(r, e), ln(r, n)), rn(pow(a, e, n))
    # every length up to and beyond the Karatsuba thresholds
    for n in shards(range(20, T(tier, 330, 700)), shard, ns):
        a = pat(r, n)
        b = pat(r, r.choice((1, 2, n // 2, n - 1, n, n + 1)))
        yield "nsqr", "nsqr " + ln(r, a), rn(a * a)
        yield "nkara", "nkara v %s %s" % (ln(r, a), ln(r, b)), rn(a * b)
        yield from ind("n", ln, rn, a, b, NB)
        yield from ind("i", li, ri, a * r.choice((1, -1)), b * r.choice((1, -1)), IB)
        yield from ni(a, b)
        for m in EN["en"]:
            if m not in ("pow", "float") and (n < 60 or m != "sqrt"):
                yield "entangled/nat-" + m, "en %s %s %s" % (m, ln(r, a), ln(r, b)), "ok"
        for m in EN["ei"]:
            if m not in ("float", "msq", "inv") and (n < 60 or m not in ("sqrt", "gcd", "frac", "rat")):
                yield "entangled/bigint-" + m, "ei %s %s %s" % (m, li(r, a if m == "sqrt" else a * r.choice((1, -1))), li(r, b * r.choice((1, -1)))), "ok"
        if n < 60:
            q = Fraction(r.choice((1, -1)) * a, b)
            p = Fraction(pat(r, r.choice((1, n))), pat(r, 2))
            for m in EN["er"]:
                yield "entangled/rat-" + m, "er %s %s %s" % (m, lr(r, q), lr(r, p)), "ok"
    yield from entangled(r, tier)


EN = {"en": "add sub mul div rem and or xor andn kara sws pow shl shr w w0 wd not sqr sqrt deep int float".split(),
      "ei": "add sub mul div rem and or xor andn deu reu inv shl shr not neg abs sqr sqrt deep msq gcd frac rat float".split(),
      "er": "add sub mul div neg abs inv deep float".split(), "ef": "add sub mul div neg abs mant deep sme".split()}
PRIMES = (3, 7, 13, 17, 41, 2 ** 31 - 1, 2 ** 61 - 1, 998244353, 2 ** 127 - 1, 2 ** 89 - 1)


def entangled(r, tier):
    """every result is mutated and the operands (and other results) re-read, then every operand is mutated and the results re-read"""
    sp = (0, 1, 2, 2 ** 32 - 1, 2 ** 32, 2 ** 64, 2 ** 64 - 1)
    for _ in range(T(tier, 250, 4000)):
        mx = r.choice((1, 2, 4, 12, 40))
        for m in EN["en"]:
            a, b = pair(r, mx)
            if m in ("div", "rem"):
                b = b or 1
            if m == "pow":
                a, b = gn(r, min(mx, 6)), r.choice((0, 1, 1, 2, 3, 7))
            if m in ("sqrt", "float"):
                a = gn(r, min(mx, 12))
            if r.random() < .15:
                a = r.choice(sp)
            yield "entangled/nat-" + m, "en %s %s %s" % (m, ln(r, a), ln(r, b)), "ok"
        for m in EN["ei"]:
            a, b = pair(r, min(mx, 12), gi)
            if m in ("div", "rem", "deu", "reu", "frac"):
                b = b or -1
            if m in ("sqrt", "float", "rat", "frac", "msq", "inv"):
                a = gi(r, min(mx, 6))
            if r.random() < .15:
                a = r.choice(sp) * r.choice((1, -1))
            if m == "msq":
                b = r.choice(PRIMES)
                if r.random() < .6:
                    a = (a * a) % b
            if m == "inv":
                b = b or 1
                while gcd(a, b) != 1:
                    a, b = a + 1, b // gcd(a, b)
            if m == "sqrt":
                a = abs(a)
            yield "entangled/bigint-" + m, "ei %s %s %s" % (m, li(r, a), li(r, b)), "ok"
        for m in EN["er"]:
            a, b = qpair(r, r.choice((1, 2, 5)))
            if r.random() < .15:
                a = Fraction(r.choice(sp))
            if m == "div" and b == 0:
                b = Fraction(1)
            yield "entangled/rat-" + m, "er %s %s %s" % (m, lr(r, a), lr(r, b)), "ok"
        for m in EN["ef"]:
            a = gf(r)
            b = near(r, a) if r.random() < .5 else gf(r)
            if any(x.kind == "f" and abs(x.exp()) > 3000 for x in (a, b)):
                continue
            yield "entangled/float-" + m, "ef %s %s %s" % (m, a, b), "ok"
        for m in ("powm", "exp"):
            a, e, n = gn(r, 4), gn(r, 2), gn(r, 4) or 1
            if r.random() < .3:
                e = r.choice((0, 1, 2))
            if r.random() < .2:
                n, e = (0, e & 3)
            if r.random() < .2:
                a = r.choice((0, 1, n))
            yield "entangled/nat-" + m, "en %s %s %s %s" % (m, ln(r, a), ln(r, e), ln(r, n)), "ok"
        a, e, n = gi(r, 4), r.choice((0, 1, 2, gn(r, 2))), gi(r, 4) or 1
        yield "entangled/bigint-exp", "ei exp %s %s %s" % (li(r, a), li(r, e), li(r, n)), "ok"
        a, b, n = gi(r, 3), gi(r, 3), gn(r, 3) + 1
        g = r.choice((1, 1, 2, 3, 6))
        a, b, n = a * g, b * g, n * g
        if 0 < gcd(a, n) < 50:
            yield "entangled/bigint-lin", "ei lin %s %s %s" % (li(r, a), li(r, b), li(r, n)), "ok"
