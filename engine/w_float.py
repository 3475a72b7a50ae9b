"""C19 (Float arithmetic), C20 (Float conversions), C21 (Float text). Specification: exact integer arithmetic."""
import re
from fractions import Fraction
from num import *
from w_int import T
from w_rat import to_float, f_of_bits, F32, F64, rnd_even
from w_text import hx, gq, mutate, PT, prim

EMAX, EMIN = (1 << 31) - 1, -(1 << 31)
NE, NA, TZ, AZ, NI, PI = range(6)


class Fl:
    """prec, mode, acc, kind ('n' 'z' 'i' 'f'), neg, m (odd), e : value = m * 2^e"""
    __slots__ = ("prec", "mode", "acc", "kind", "neg", "m", "e", "bad")

    def __repr__(self):
        return "%s%s p=%d mode=%d acc=%s %s" % ("-" if self.neg else "", self.kind, self.prec, self.mode, self.acc, "" if self.kind != "f" else "%x*2^%d" % (self.m, self.e))

    def exp(self):
        return self.e + self.m.bit_length()

    def val(self):
        v = Fraction(self.m) * Fraction(2) ** self.e if self.kind == "f" else Fraction(0)
        return -v if self.neg else v


def odd(m, e):
    t = (m & -m).bit_length() - 1
    return m >> t, e + t


def pf(s):
    """parse a rendered Float"""
    x = Fl()
    p, mo, x.acc, k = s.split(",")
    x.prec, x.mode, x.bad = int(p), int(mo), None
    x.neg = k[0] == "-"
    if x.neg:
        k = k[1:]
    x.m = x.e = 0
    if k in ("n", "z", "i"):
        x.kind = k
        return x
    x.kind = "f"
    l, e = k.split("@")
    if l == "N":
        x.bad = "empty mantissa"
        return x
    m = int(l, 16)
    if not m >> (4 * len(l) - 1):
        x.bad = "mantissa not normalised"
        if m == 0:
            return x
    if not EMIN <= int(e) <= EMAX:
        x.bad = "exponent out of range"
    x.m, x.e = odd(m, int(e) - 4 * len(l))
    if x.m.bit_length() > x.prec:
        x.bad = "mantissa has more bits than the precision"
    return x


def rnd(neg, n, d, k, prec, mode):
    """n/d * 2^k (n, d > 0) rounded to prec bits -> (m odd, e, acc)"""
    s = prec - (n.bit_length() - d.bit_length())
    while True:
        nn, dd = (n << s, d) if s >= 0 else (n, d << -s)
        q, r = divmod(nn, dd)
        if q.bit_length() > prec:
            s -= 1
        elif q.bit_length() < prec:
            s += 1
        else:
            break
    e = k - s
    if r == 0:
        m, e = odd(q, e)
        return m, e, "E"
    h = 2 * r - dd
    if mode == NE:
        inc = h > 0 or (h == 0 and q & 1)
    elif mode == NA:
        inc = h >= 0
    elif mode == TZ:
        inc = False
    elif mode == AZ:
        inc = True
    elif mode == NI:
        inc = neg
    else:
        inc = not neg
    acc = "A" if bool(inc) != bool(neg) else "B"
    m, e = odd(q + (1 if inc else 0), e)
    return m, e, acc


def expect_rounded(r, neg, n, d, k, prec, mode):
    """compare the observed r with the correctly rounded value"""
    if r.bad:
        return r.bad
    if r.prec != prec:
        return "precision %d, expected %d" % (r.prec, prec)
    if r.mode != mode:
        return "mode %d, expected %d" % (r.mode, mode)
    if n == 0:
        if r.kind != "z":
            return "expected zero"
        return None if r.acc == "E" else "accuracy %s, expected E" % r.acc
    m, e, acc = rnd(neg, n, d, k, prec, mode)
    ex = e + m.bit_length()
    if ex > EMAX:
        ok = r.kind == "i" and r.neg == neg and r.acc == ("B" if neg else "A")
        return None if ok else "expected exponent overflow to %sInf" % ("-" if neg else "+")
    # exponent before rounding
    pre = n.bit_length() - d.bit_length() + k
    if ex < EMIN or (ex == EMIN and pre <= EMIN and acc != "E" and r.kind == "z"):
        ok = r.kind == "z" and r.acc == ("A" if neg else "B")
        return None if ok else "expected exponent underflow to 0"
    if r.kind != "f" or r.neg != neg or (r.m, r.e) != (m, e):
        return "expected %s%x*2^%d" % ("-" if neg else "", m, e)
    if r.acc != acc:
        return "accuracy %s, expected %s" % (r.acc, acc)
    return None


PRECS = [1, 2, 3, 5, 8, 16, 23, 24, 25, 31, 32, 33, 52, 53, 54, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 160, 192, 200, 255, 256, 257, 320, 500, 512, 513]


def gprec(r):
    return r.choice(PRECS) if r.random() < .7 else r.randrange(1, 400)


def gmant(r, prec):
    k = r.random()
    if k < .35:
        m = r.getrandbits(prec)
    elif k < .5:
        m = (1 << prec) - 1
    elif k < .6:
        m = 1 << (prec - 1)
    elif k < .7:
        m = (1 << (prec - 1)) | 1
    elif k < .85:
        m = pat(r, max(1, prec // 32)) & ((1 << prec) - 1)
    else:
        m = r.getrandbits(r.randrange(1, prec + 1))
    return m or 1


def gexp(r, wide=False):
    k = r.random()
    if k < .5:
        return r.randrange(-70, 70)
    if k < .8:
        return r.choice((-160, -129, -128, -127, -97, -96, -95, -65, -64, -63, -33, -32, -31, -1, 0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 200))
    if k < .95 or not wide:
        return r.randrange(-700, 700)
    return r.choice((EMAX - 600, EMIN + 600, r.randrange(-10 ** 9, 10 ** 9), EMAX - r.randrange(520, 700), EMIN + r.randrange(0, 700)))


class L:
    """a literal and its intended value"""
    __slots__ = ("prec", "mode", "kind", "neg", "m", "e", "route", "inexact")
    made = 0

    def __init__(s, prec, mode, kind, neg=False, m=0, e=0, inexact=None):
        s.prec, s.mode, s.kind, s.neg, s.m, s.e = prec, mode, kind, neg, m, e
        # special values are reached on different routes (directly, from 0 * x, x - x, x / 0, under- or overflow)
        L.made += 1
        s.route = "" if kind == "f" else ("", "1", "2", "3")[L.made % 4]
        # one in five values is itself the result of an inexact operation (its accuracy is not Exact)
        s.inexact = L.made % 5 == 0 if inexact is None else inexact

    def __str__(s):
        k = s.kind + s.route if s.kind != "f" else "%xp%d" % (s.m, s.e)
        return "%d,%d,%s%s" % (s.prec, s.mode + 10 * s.inexact, "-" if s.neg else "", k)

    def same(s, f):
        if f.bad:
            return False
        if s.kind == "n":
            return f.kind == "n"
        if (f.kind, f.neg, f.prec, f.mode) != (s.kind, s.neg, s.prec, s.mode):
            return False
        return s.kind != "f" or odd(s.m, s.e) == (f.m, f.e)

    def copy(s):
        return L(s.prec, s.mode, s.kind, s.neg, s.m, s.e, s.inexact)

    def exp(s):
        return s.e + s.m.bit_length()

    def val(s):
        v = Fraction(s.m) * Fraction(2) ** s.e
        return -v if s.neg else v


def gf(r, wide=False, zeros=.04, prec=None):
    p = prec or gprec(r)
    mo = r.randrange(6)
    neg = r.random() < .5
    if r.random() < zeros:
        return L(r.choice((p, p, 0)), mo, "z", neg)
    return L(p, mo, "f", neg, gmant(r, p), gexp(r, wide))


def near(r, a):
    """a second operand related to a"""
    k = r.random()
    p = gprec(r)
    mo = r.randrange(6)
    if a.kind != "f" or k < .35:
        return gf(r)
    if k < .45:
        return L(a.prec, mo, "f", not a.neg if r.random() < .5 else a.neg, a.m, a.e)
    if k < .6:  # nearly equal: cancellation
        m = abs((a.m << 3) + r.choice((-1, 1, 2, -3, 8, -8))) or 1
        return L(max(p, m.bit_length()), mo, "f", r.random() < .5, m, a.e - 3)
    if k < .8:  # half an ulp of a at a's precision (ties), or just off it
        h = a.exp() - a.prec - 1
        m, e = 1, h
        if r.random() < .6:
            s = r.choice((1, 2, 31, 32, 33, 64, 70))
            m, e = (1 << s) + r.choice((1, -1)), h - s
        return L(max(p, m.bit_length()), mo, "f", r.random() < .5, m, e)
    if k < .9:  # far away
        m = gmant(r, p)
        return L(p, mo, "f", r.random() < .5, m, a.e + r.choice((-1, 1)) * r.choice((a.prec, a.prec + 1, a.prec + 2, 500, 1500, 3000)))
    if k < .95:
        return L(p, mo, "f", r.random() < .5, 1, r.randrange(-300, 300))
    return L(max(p, a.prec), mo, "f", r.random() < .5, a.m, r.randrange(-300, 300))


def check_bin(op, a, b, form):
    def f(resp):
        t = resp.split(" ")
        if t[-1] == "MUT":
            return "an operand changed"
        if len(t) != 3:
            return "malformed response"
        x, y, r = pf(t[0]), pf(t[1]), pf(t[2])
        if not a.same(x) or not b.same(y):
            return "operand was not constructed as requested"
        if form in "st":
            y = x
        prec = x.prec or y.prec
        mode = x.mode
        if op == "fmul":
            return expect_rounded(r, x.neg != y.neg, x.m * y.m, 1, x.e + y.e, prec, mode)
        if op == "fdiv":
            return expect_rounded(r, x.neg != y.neg, x.m, y.m, x.e - y.e, prec, mode)
        yn = y.neg != (op == "fsub")
        e = min(x.e if x.m else y.e, y.e if y.m else x.e)
        v = (x.m << (x.e - e) if x.m else 0) * (-1 if x.neg else 1) + (y.m << (y.e - e) if y.m else 0) * (-1 if yn else 1)
        return expect_rounded(r, v < 0, abs(v), 1, e, prec, mode)

    return f


def c19(r, tier, shard, ns):
    def ops(a, b, forms, which=("fadd", "fsub", "fmul", "fdiv")):
        a, b = a.copy(), b.copy()
        for o in which:
            for f in forms:
                d = a if f in "st" else b
                if o == "fdiv" and d.kind == "z":
                    continue
                if o in ("fadd", "fsub") and a.kind == d.kind == "f" and abs(a.exp() - d.exp()) > 5000:
                    continue
                yield "%s/%s/mode%d" % (o, f, a.mode), "%s %s %s %s" % (o, f, a, b), check_bin(o, a, b, f)

    # exhaustive: all mantissas and small exponents at precisions 1..4, all modes and signs
    smallf = [(p, m) for p in (1, 2, 3) for m in range(1, 1 << p) if m & 1 or m == 1]
    lst = [(p, m, e, q, n) for p, m in smallf for q, n in smallf for e in range(-5, 6)]
    for p, m, e, q, n in shards(lst, shard, ns):
        for mo in range(6):
            for s in (0, 1, 2, 3) if tier == "thorough" else (r.randrange(4),):
                yield from ops(L(p, mo, "f", bool(s & 1), m, 0), L(q, r.randrange(6), "f", bool(s & 2), n, e), "v")
    # every pair of listed precisions
    for p, q in shards([(p, q) for p in PRECS for q in PRECS], shard, ns):
        for mo in range(6):
            a = L(p, mo, "f", r.random() < .5, gmant(r, p), gexp(r))
            b = L(q, r.randrange(6), "f", r.random() < .5, gmant(r, q), gexp(r))
            yield from ops(a, b, r.choice("vma"))
    # every pair of precisions around the machine words, mantissas that fill them, exponents that overlap
    for p, q in shards([(p, q) for p in BITS for q in BITS], shard, ns):
        for _ in range(T(tier, 2, 6)):
            a = L(p, r.randrange(6), "f", r.random() < .5, r.choice(((1 << p) - 1, 1 << (p - 1) | r.getrandbits(p), 1 << (p - 1), 1 << (p - 1) | 1)), r.randrange(-140, 140))
            b = L(q, r.randrange(6), "f", r.random() < .5, r.choice(((1 << q) - 1, 1 << (q - 1) | r.getrandbits(q), 1 << (q - 1), 1 << (q - 1) | 1)), a.e + p - q + r.choice((0, 0, -1, 1, -p, q, r.randrange(-p - q, p + q))))
            yield from ops(a, b, r.choice("va"))
    # zeros, precision 0
    for p, q in shards([(p, q) for p in (0, 1, 24, 53, 64, 100) for q in (0, 3, 53, 64, 128)], shard, ns):
        for mo in range(6):
            z = L(p, mo, "z", r.random() < .5)
            yield from ops(z, L(q, r.randrange(6), "z", r.random() < .5), "va", ("fadd", "fsub", "fmul"))
            if q:
                for _ in range(3):
                    y = L(q, r.randrange(6), "f", r.random() < .5, gmant(r, q), gexp(r))
                    yield from ops(z, y, "va")
                    yield from ops(y, z, "va")
    # exponent overflow and underflow
    for _ in range(T(tier, 150, 2000)):
        for s in (1, -1):
            p, q = gprec(r), gprec(r)
            a = L(p, r.randrange(6), "f", r.random() < .5, gmant(r, p), 0)
            b = L(q, r.randrange(6), "f", r.random() < .5, gmant(r, q), 0)
            lim = EMAX if s > 0 else EMIN
            k = r.randrange(0, 1 << 31) if r.random() < .5 else r.randrange(0, 100)
            # exponents that add up to about the limit
            a.e = (lim - s * k if s > 0 else lim + k) - a.m.bit_length()
            if a.exp() > EMAX or a.exp() < EMIN:
                continue
            rest = lim - a.exp() + r.randrange(-3, 4)
            b.e = rest - b.m.bit_length()
            if EMIN <= b.exp() <= EMAX:
                yield from ops(a, b, r.choice("va"), ("fmul",))
            b.e = -rest - b.m.bit_length()
            if EMIN <= b.exp() <= EMAX:
                yield from ops(a, b, r.choice("va"), ("fdiv",))
            if s > 0:
                a.e = EMAX - a.m.bit_length() - r.randrange(0, 2)
                b.e = a.exp() - r.choice((0, 0, 1, 2, a.prec, a.prec + 1)) - b.m.bit_length()
                b.neg = a.neg if r.random() < .7 else not a.neg
                yield from ops(a, b, r.choice("va"), ("fadd", "fsub"))
            else:
                a.e = EMIN + r.randrange(0, 3) - a.m.bit_length()
                m = a.m + 2 * r.randrange(3)
                b = L(max(q, m.bit_length()), r.randrange(6), "f", a.neg, m, a.e)
                if EMIN <= a.exp() and EMIN <= b.exp():
                    yield from ops(a, b, "v", ("fadd", "fsub"))
    for _ in range(T(tier, 40, 300)):
        p, q = r.choice((3000, 4095, 4096, 4097, 5000, 8192, 10000)) + r.randrange(3), r.choice((1, 53, 3000, 4096, 8192))
        a = L(p, r.randrange(6), "f", r.random() < .5, gmant(r, p), gexp(r))
        b = L(q, r.randrange(6), "f", r.random() < .5, gmant(r, q), gexp(r))
        yield from ops(a, b, "v")
        yield from ops(b, a, "a")
    # mantissas of every length and shape
    for n in shards([x for x in SWEEP for _ in range(T(tier, 3, 12))], shard, ns):
        m, k = shaped(r, n), shaped(r, r.choice((1, 2, n, n + 1, max(1, n - 1))))
        a = L(m.bit_length() + r.choice((0, 0, 1, 33)), r.randrange(6), "f", r.random() < .5, m, gexp(r))
        b = L(k.bit_length() + r.choice((0, 0, 5, 64)), r.randrange(6), "f", r.random() < .5, k, a.e + r.choice((0, 1, -1, 32, -32, r.randrange(-70, 70))))
        c = L(53, r.randrange(6), "f", r.random() < .5, gmant(r, 53), b.e)
        for x, y in ((a, b), (b, a), (a, c), (c, a)):
            yield from ops(x, y, r.choice("va"))
        yield from ops(a, L(64, r.randrange(6), "z", r.random() < .5), "va", ("fadd", "fsub", "fmul"))
        yield from ops(L(r.choice((0, 20, 64)), r.randrange(6), "z", r.random() < .5), a, "va")
    for _ in range(T(tier, 20000, 150000)):
        a = gf(r)
        b = near(r, a)
        if r.random() < .3:
            a, b = b, a
        yield from ops(a, b, r.choice(("v", "a", "m", "va")))
        if r.random() < .15:
            yield from ops(a, b, r.choice("st"))
    # quotients that are exact, tie, or just off
    for _ in range(T(tier, 3000, 40000)):
        p = gprec(r)
        q = gmant(r, p) | (1 << (p - 1))
        y = gmant(r, gprec(r))
        t = (q << 1 | 1) if r.random() < .6 else q
        x = t * y + r.choice((0, 0, 1, -1))
        if x <= 0:
            continue
        a = L(p, r.randrange(6), "f", r.random() < .5, 0, 0)
        if x.bit_length() > p:  # dividend must fit its precision: use the result precision of a wide dividend
            a.prec = x.bit_length() if r.random() < .5 else x.bit_length() + r.randrange(40)
        a.m, a.e = x, r.randrange(-50, 50)
        b = L(max(1, y.bit_length()), r.randrange(6), "f", r.random() < .5, y, r.randrange(-50, 50))
        yield from ops(a, b, r.choice("va"), ("fdiv",))
    for _ in range(T(tier, 150, 2500)):
        p, q = r.randrange(500, 3000), r.randrange(1, 3000)
        a = L(p, r.randrange(6), "f", r.random() < .5, gmant(r, p), gexp(r))
        b = L(q, r.randrange(6), "f", r.random() < .5, gmant(r, q), gexp(r))
        yield from ops(a, b, "v")
        yield from ops(b, a, "a")


def exact_int(s, v):
    r = pf(s)
    if r.bad:
        return r.bad
    if r.acc != "E" or r.mode != 0:
        return "conversion must be exact (and have the default mode)"
    if v == 0:
        return None if r.kind == "z" else "expected 0"
    if r.kind != "f" or r.val() != v:
        return "expected the value %s" % v
    return None


def c20(r, tier, shard, ns):
    def frm(ty, lit, v):
        return "from/" + ty, "ffrom %s %s" % (ty, lit), (lambda s: exact_int(s, v))

    def from_bits(ty, b, fmt, w):
        v = f_of_bits(b, fmt)
        neg = bool(b >> fmt[4] & 1)
        isnan = v is None and (b & ((1 << fmt[4]) - 1)) > fmt[3]

        def f(s):
            x = pf(s)
            if isnan:
                return None if x.kind == "n" else "expected NaN"
            if x.neg != neg:
                return "wrong sign"
            if v is None:
                return None if x.kind == "i" else "expected Inf"
            return exact_int(s, v)
        return "from/" + ty, "ffrom %s %0*x" % (ty, w, b), f

    def fromrat(q):
        def f(s):
            x = pf(s)
            if x.kind == "f" and x.prec < 64 or x.prec > 1 << 20:
                return "precision below 64"
            return expect_rounded(x, q < 0, abs(q.numerator), q.denominator, 0, max(64, q.numerator.bit_length(), q.denominator.bit_length()), 0)
        return "from/R", "ffrom R " + lr(r, q), f

    def un(op, pre, a, fn):
        def f(s):
            t = s.split(" ")
            if t[-1] == "MUT":
                return "the operand changed"
            x = pf(t[0])
            if not a.same(x):
                return "operand was not constructed as requested"
            return fn(x, t[1:])
        return op, "%s %s%s" % (op, pre, a), f

    def prec(a, p):
        def f(x, t):
            y = pf(t[0])
            if y.bad:
                return y.bad
            if a.kind in "iz":
                return None if (y.kind, y.neg, y.prec, y.mode, y.acc) == (a.kind, a.neg, min(p, (1 << 32) - 1), a.mode, "E") else "expected the same special value"
            if p == 0:
                return None if (y.kind, y.prec, y.mode, y.acc) == ("z", 0, a.mode, "A" if a.neg else "B") else "expected 0 with precision 0"
            pp = min(p, (1 << 32) - 1)
            if pp >= a.prec:
                m, e = odd(a.m, a.e)
                return None if (y.kind, y.neg, y.m, y.e, y.prec, y.mode, y.acc) == ("f", a.neg, m, e, pp, a.mode, "E") else "value or state changed"
            return expect_rounded(y, a.neg, a.m, 1, a.e, pp, a.mode)
        return un("fprec", "%d " % p, a, f)

    def unary(a):
        def same(y, prec=None):
            return not y.bad and y.kind == a.kind and (a.kind != "f" or (y.m, y.e) == odd(a.m, a.e)) and (y.prec, y.mode) == (a.prec, a.mode)

        yield un("fid", "", a, lambda x, t: None if same(pf(t[0])) and pf(t[0]).neg == a.neg else "deep_clone differs")
        yield un("fneg", "", a, lambda x, t: None if same(pf(t[0])) and pf(t[0]).neg == (not a.neg) else "wrong negation")
        yield un("fabs", "", a, lambda x, t: None if same(pf(t[0])) and not pf(t[0]).neg else "wrong absolute value")
        mo = r.randrange(6)

        def fm(x, t):
            y = pf(t[0])
            y.mode, ok = a.mode, y.mode == mo and y.acc == "E"
            return None if ok and same(y) and y.neg == a.neg else "set_mode changed the value or did not set the mode"
        yield un("fmode", "%d " % mo, a, fm)

        def mant(x, t):
            m, e, z = pf(t[0]), int(t[1]), pf(t[2])
            if not (same(z) and z.neg == a.neg):
                return "set_mant_exp does not invert mant_exp"
            if a.kind != "f":
                return None if m.kind == a.kind and m.neg == a.neg and e == 0 else "mant_exp of a zero or infinity"
            if m.bad or m.kind != "f" or m.exp() != 0 or m.neg != a.neg or (m.m, m.e + e) != odd(a.m, a.e) or (m.prec, m.mode) != (a.prec, a.mode):
                return "x != mant * 2^exp, or mant not in [0.5, 1)"
            return None
        yield un("fmant", "", a, mant)

        def info(x, t):
            if a.kind == "f":
                om, oe = odd(a.m, a.e)
                e = [str(-1 if a.neg else 1), str(int(a.neg)), "0", str(int(oe >= 0)), str(om.bit_length()), "0"]
            else:
                e = ["0" if a.kind == "z" else "-1" if a.neg else "1", str(int(a.neg)), str(int(a.kind == "i")), str(int(a.kind == "z")), "0", "0"]
            return None if t == e else "expected %s" % e
        yield un("finfo", "", a, info)

        def tof(x, t):
            out = []
            for fmt, w in ((F64, 16), (F32, 8)):
                if a.kind == "z":
                    b, acc = (1 << fmt[4] if a.neg else 0), "E"
                elif a.kind == "i" or a.exp() > fmt[2] + 5:
                    b, acc = (1 << fmt[4] if a.neg else 0) | fmt[3], "E" if a.kind == "i" else "B" if a.neg else "A"
                elif a.exp() < fmt[1] - 5:
                    b, acc = (1 << fmt[4] if a.neg else 0), "A" if a.neg else "B"
                else:
                    v = a.val()
                    b, ex = to_float(v, fmt)
                    g = f_of_bits(b, fmt)
                    acc = "E" if ex else ("B" if a.neg else "A") if g is None else "A" if g > v else "B"
                out += ["%0*x" % (w, b), acc]
            return None if t == out else "expected %s" % " ".join(out)
        yield un("ftof", "", a, tof)

        def toi(x, t):
            out = []
            for lo, hi in ((0, (1 << 64) - 1), (-(1 << 63), (1 << 63) - 1)):
                if a.kind == "i" or (a.kind == "f" and a.exp() > 70):
                    out.append("%d,%s" % ((lo, "A") if a.neg else (hi, "B")))
                elif a.kind == "z":
                    out.append("0,E")
                else:
                    if a.exp() <= 0:
                        v, tr, exact = Fraction(-1, 2) if a.neg else Fraction(1, 2), 0, False
                        c = 0
                    else:
                        v = a.val()
                        tr = int(abs(v)) * (-1 if a.neg else 1)
                        c = min(hi, max(lo, tr))
                    out.append("%d,%s" % (c, "E" if c == v else "A" if c > v else "B"))
            return None if t == out else "expected %s" % " ".join(out)
        yield un("ftoi", "", a, toi)

    def sme(recv, m, e, form):
        def f(s):
            t = s.split(" ")
            if t[-1] == "MUT":
                return "an operand changed"
            src = recv if form == "s" else m
            z = pf(t[2])
            if not recv.same(pf(t[0])) or not m.same(pf(t[1])):
                return "operand was not constructed as requested"
            if src.kind != "f":
                return None if (z.kind, z.neg, z.prec, z.mode) == (src.kind, src.neg, src.prec, src.mode) else "expected the special value unchanged"
            return expect_rounded(z, src.neg, src.m, 1, src.e + e, src.prec, src.mode)
        return "fsme/" + form, "fsme %s %d %s %s" % (form, e, recv, m), f

    ints = sorted(set([0, 1, -1, 2, 3, 7] + [s * (1 << k) + d for k in (7, 8, 15, 16, 23, 24, 31, 32, 33, 52, 53, 54, 62, 63, 64) for s in (1, -1) for d in (-1, 0, 1)]))
    for v in shards(ints, shard, ns):
        for ty in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
            s, b = PT[ty]
            if (-(1 << (b - 1)) if s else 0) <= v < (1 << (b - 1) if s else 1 << b):
                yield frm(ty, "%d" % v, Fraction(v))
        yield frm("I", li(r, v), Fraction(v))
        if v >= 0:
            yield frm("N", ln(r, v), Fraction(v))
    for e in shards(range(2048), shard, ns):
        for m in (0, 1, (1 << 52) - 1, r.getrandbits(52), 1 << r.randrange(52)):
            yield from_bits("f64", r.getrandbits(1) << 63 | e << 52 | m, F64, 16)
    for e in shards(range(256), shard, ns):
        for m in (0, 1, (1 << 23) - 1, r.getrandbits(23), 1 << r.randrange(23)):
            for s in (0, 1):
                yield from_bits("f32", s << 31 | e << 23 | m, F32, 8)
    # set_precision around every bit, all modes
    for p in shards(range(1, T(tier, 140, 400)), shard, ns):
        for mo in range(6):
            for neg in (False, True):
                k = r.randrange(1, 130)
                m = r.choice((r.getrandbits(p) << k | 1 << (k - 1), r.getrandbits(p + k), (1 << (p + k)) - 1, r.getrandbits(p) << k | 1, r.getrandbits(p) << k | (1 << (k - 1)) | 1, r.getrandbits(p) << k | ((1 << (k - 1)) - 1))) | 1 << (p + k - 1)
                yield prec(L(p + k, mo, "f", neg, m, gexp(r, True)), p)
    for mo in range(6):
        yield prec(L(40, mo, "f", bool(mo & 1), (1 << 40) - 1, EMAX - 40), 20)
    # to_f32/to_f64: around the denormal range, ties, overflow
    for fmt in (F32, F64):
        pr, emin, emax = fmt[:3]
        for e in shards(list(range(emin - 4, emin + pr + 3)) + list(range(emax - 4, emax + 3)) + list(range(-3, 4)), shard, ns):
            for _ in range(6):
                n = max(1, min(pr, e - emin + 1))  # bits available
                k = r.choice((1, 2, 3, 30, 40, 70))
                for m in ((1 << (n + k)) - 1, (1 << (n + k - 1)), (1 << (n + k - 1)) | 1 << (k - 1), (1 << (n + k - 1)) | 1 << k | 1 << (k - 1), ((1 << (n + k)) - 1) ^ ((1 << (k - 1)) - 1), r.getrandbits(n + k) | 1 << (n + k - 1), 1 << (n + k - 1) | 1 << (k - 1) | 1, 1 << (n + k - 1) | (1 << (k - 1)) - 1):
                    p = m.bit_length() + r.choice((0, 0, 5))
                    a = L(p, r.randrange(6), "f", r.random() < .5, m, e + 1 - m.bit_length())
                    for c in unary(a):
                        if c[0] == "ftof":
                            yield c
    # mantissas of every length and shape: normal, denormal, tiny, huge, integral, around the integer limits
    for n in shards([x for x in SWEEP for _ in range(T(tier, 3, 10))], shard, ns):
        for _ in range(3):
            m = shaped(r, n)
            b = m.bit_length()
            e = r.choice((0, -b, 1 - b, 64 - b, 63 - b, 65 - b, r.randrange(-b - 40, 40), -149 + r.randrange(-3, 26) - b, -1074 + r.randrange(-3, 55) - b, 128 - b, 1024 - b, 129 - b, 1025 - b, -126 - b, -1022 - b, EMAX - b, EMIN - b))
            a = L(b + r.choice((0, 0, 1, 31, 100)), r.randrange(6), "f", r.random() < .5, m, e)
            yield from unary(a)
            yield prec(a, r.choice((0, 1, 24, 32, 53, 64, b - 1, b, b + 1, b + 32, max(1, b - 33), r.randrange(1, b + 2))))
            v = r.choice((1, -1)) * m << r.choice((0, 0, 1, 31, 32))
            yield frm("I", li(r, v), Fraction(v))
            yield frm("N", ln(r, abs(v)), Fraction(abs(v)))
            yield fromrat(Fraction(v, shaped(r, r.choice((1, 2, n)))))
            yield fromrat(Fraction(r.choice((1, -1)) * shaped(r, r.choice((1, 2))), m))
    # the underflow threshold (half the least denormal), mantissas of every length
    for n in shards([x for x in SWEEP for _ in range(T(tier, 1, 3))], shard, ns):
        for fmt in (F32, F64):
            for m in (shaped(r, n), 1 << (32 * n - 1), 1 << (32 * n - 1) | 1, (1 << (32 * n)) - 1):
                b = m.bit_length()
                for d in (-1, 0, 1):
                    for neg in (False, True):
                        for c in unary(L(b, r.randrange(6), "f", neg, m, fmt[1] + d - b)):
                            if c[0] == "ftof":
                                yield c
    # integers around the i64/u64 limits
    for v in shards([s * ((1 << k) + d) for k in (0, 1, 31, 32, 33, 52, 53, 62, 63, 64, 65) for d in (-1, 0, 1) for s in (1, -1)], shard, ns):
        for fr in (0, 1, 2, 3, 40):
            for d in (-1, 0, 1):
                m = abs((v << fr) + d)
                if m:
                    a = L(max(m.bit_length(), gprec(r)), r.randrange(6), "f", (v << fr) + d < 0, m, -fr)
                    yield from unary(a)
    for kind in "zi":
        for neg in (False, True):
            for p in (0, 1, 53, 64):
                for mo in range(6):
                    a = L(p, mo, kind, neg)
                    if kind == "i" and p == 0 or kind == "z" or p:
                        yield from unary(a)
                        for q in (0, 1, 53, 64, 100):
                            yield prec(a, q)
                        yield sme(gf(r), a, r.randrange(-5, 5), "v")
                        yield sme(a, gf(r), r.randrange(-5, 5), "v")
    for _ in range(T(tier, 60, 600)):
        p = r.choice((500, 1000, 1023, 1024, 1025, 2048, 3000, 4097, 8192)) + r.randrange(-1, 2)
        a = L(p, r.randrange(6), "f", r.random() < .5, gmant(r, p), r.choice((-p, 0, -p // 2, r.randrange(-2 * p, 100), 60 - p, 64 - p, 65 - p, -1070 - p, 1020 - p)))
        yield from unary(a)
        for q in (1, p - 1, p - 31, p - 32, p - 33, p // 2, r.randrange(1, p), p + 1, 64, 53):
            yield prec(a, q)
        yield sme(gf(r, True), a, r.randrange(-5000, 5000), "v")
        v = pat(r, p // 32 + 1) * r.choice((1, -1))
        yield frm("I", li(r, v), Fraction(v))
        yield frm("N", ln(r, abs(v)), Fraction(abs(v)))
        yield fromrat(Fraction(v, pat(r, r.choice((1, 2, p // 64 + 1)))))
    for _ in range(T(tier, 9000, 80000)):
        a = gf(r, True)
        yield from unary(a)
        yield prec(a, r.choice((0, 1, a.prec, max(1, a.prec - 1), a.prec + 1, gprec(r), gprec(r), gprec(r), r.randrange(1, max(2, a.prec)), 1 << 33, (1 << 32) - 1)))
        b = gf(r, True)
        for form in "vs":
            src = a if form == "s" else b
            e = r.choice((0, 1, -1, r.randrange(-200, 200), r.randrange(-(1 << 33), 1 << 33)))
            if src.kind == "f" and r.random() < .2:
                e = r.choice((EMAX, EMIN)) - src.exp() + r.randrange(-2, 3)
            yield sme(a, b, r.choice((e, e, (1 << 63) - 1, -(1 << 63))), form)
        v = gi(r, 12)
        yield frm("I", li(r, v), Fraction(v))
        yield frm("N", ln(r, abs(v)), Fraction(abs(v)))
        ty = r.choice(("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"))
        v = prim(r, ty)
        yield frm(ty, "%d" % v, Fraction(v))
        yield from_bits("f64", r.getrandbits(64), F64, 16)
        yield from_bits("f32", r.getrandbits(32), F32, 8)
        yield fromrat(gq(r, 8))
        # rationals that are halfway cases at their target precision
        n, d = r.getrandbits(r.randrange(1, 120)) | 1, 1 << r.randrange(1, 130)
        yield fromrat(Fraction(n * r.choice((1, -1)), d))
        yield fromrat(Fraction(gi(r, 2), gn(r, 9) or 1))


def disp(a):
    v = a.m * 10 ** a.prec
    q = rnd_even(v << a.e, 1) if a.e >= 0 else rnd_even(v, 1 << -a.e)
    s = str(q).rjust(a.prec + 1, "0")
    return ("-" if a.neg else "") + s[:-a.prec] + "." + s[-a.prec:]


def sci(a, p, ch):
    v = abs(a.val())
    # decimal exponent
    n, d = v.numerator, v.denominator
    x = int((n.bit_length() - d.bit_length()) * 0.30103) - 2
    while Fraction(10) ** (x + 1) <= v:
        x += 1
    while Fraction(10) ** x > v:
        x -= 1
    # p+1 significant digits
    sc = p - x
    if sc >= 0:
        q = rnd_even(n * 10 ** sc, d)
    else:
        q = rnd_even(n, d * 10 ** -sc)
    s = str(q)
    if len(s) > p + 1:
        s = s[:-1]
        x += 1
    r = ("-" if a.neg else "") + s[0] + ("." + s[1:] if p else "") + ch + ("-" if x < 0 else "")
    return r + "%02d" % abs(x)


FDEC = re.compile(r"^([+-]?)([0-9]*)(?:\.([0-9]*))?(?:[eE]([+-]?[0-9]+))?$")


def fdec(s):
    """exact value of decimal text, or None"""
    m = FDEC.match(s)
    if not m or not (m.group(2) or m.group(3)):
        return None
    d = (m.group(2) or "") + (m.group(3) or "")
    v = Fraction(int(d)) * Fraction(10) ** (int(m.group(4) or 0) - len(m.group(3) or ""))
    return -v if m.group(1) == "-" else v


def c21(r, tier, shard, ns):
    def show(a, ps=()):
        def wrap(a, e):
            def f(s):
                t = s.split(" ", 1)
                if s.endswith(" MUT"):
                    return "the operand changed"
                if not a.same(pf(t[0])):
                    return "operand was not constructed as requested"
                return None if t[1] == e else "expected %s" % e
            return f
        if a.kind != "f":
            e = "0" if a.kind == "z" else "-Inf" if a.neg else "+Inf"
            yield "display/special", "fdisp %s" % a, wrap(a, e)
            for p in ps:
                yield "exp/special", "fexp %s %s" % (p, a), wrap(a, e + " " + e)
            return
        yield "display", "fdisp %s" % a, wrap(a, disp(a))
        for p in ps:
            pp = 7 if p == "d" else p
            yield "exp", "fexp %s %s" % (p, a), wrap(a, sci(a, pp, "e") + " " + sci(a, pp, "E"))

    def parse(s, tag="decimal"):
        v = fdec(s)
        if v is None:
            return "parse/bad", "fparse " + hx(s), "err"

        def f(resp):
            if not resp.startswith("ok "):
                return "expected the value of %s" % s
            x = pf(resp[3:])
            if x.prec < 64:
                return "precision below 64"
            return expect_rounded(x, v < 0, abs(v.numerator), v.denominator, 0, x.prec, 0)
        return "parse/" + tag, "fparse " + hx(s), f

    fixed = [(1, 1, e) for e in range(-80, 80)] + [(10, m, 0) for m in (1, 9, 10, 99, 100, 101, 109, 190, 199, 200, 999, 1000, 1001)] + [(64, 10 ** k, 0) for k in range(0, 19)] + [(64, 10 ** k + 1, 0) for k in range(19)] + [(64, 10 ** k - 1, 0) for k in range(1, 20)]
    for p, m, e in shards(fixed, shard, ns):
        for neg in (False, True):
            for pp in {p, max(p, m.bit_length()), 53 if m.bit_length() <= 53 else 64}:
                if m.bit_length() <= pp:
                    yield from show(L(pp, 0, "f", neg, m, e), ("d", 0, 1, 3, 20))
    for p in shards((0, 1, 24, 53, 64, 100, 300), shard, ns):
        for mo in range(6):
            for k in "zi":
                for neg in (False, True):
                    yield from show(L(p, mo, k, neg), ("d", 0, 1, 5, 30))
    for p in shards(range(0, 200), shard, ns):
        for k in "zi":
            for neg in (False, True):
                yield from show(L(r.choice((1, 24, 53, 64, 100, p)), 0, k, neg), (p,))
    for p in shards(range(0, T(tier, 140, 400)), shard, ns):
        for mode in range(3):
            q = r.choice((53, 64, 65, 100, 128, 300))
            yield from show(L(q, mode, "f", r.random() < .5, gmant(r, q), r.choice((-q, -q - r.randrange(200), 0, -r.randrange(q), r.randrange(40)))), (p,))
            yield from show(L(q, mode, "f", r.random() < .5, r.choice((1, 10 ** r.randrange(16) - 1, 10 ** r.randrange(16), 5 * r.getrandbits(20) + 1)) or 1, -(p % 50) if mode else 0), (p,))
        yield from show(L(53, 0, "zi"[p & 1], bool(p & 2)), (p,))
    for n in shards([x for x in SWEEP if x <= 130 for _ in range(T(tier, 3, 12) if x <= 64 else 1)], shard, ns):
        m = shaped(r, n)
        b = m.bit_length()
        yield from show(L(b + r.choice((0, 0, 1, 40)), 0, "f", r.random() < .5, m, r.choice((0, -b, -b // 2, 3, -r.randrange(2 * b), -b - r.randrange(200)))), (r.choice(("d", 0, 1, 9, 10, 40, r.randrange(70))),))
        yield from show(L(b, 0, "f", r.random() < .5, m, -b + r.randrange(64)), (r.randrange(12 * n if n < 30 else 60),))
    # carries that run through every digit, and just do not: 99..9 and 99..94.. at every precision
    for p in shards(range(0, T(tier, 120, 300)), shard, ns):
        for k in {p + 1, p + 2, r.randrange(1, 60), 17}:
            # 1 - 10^-k and neighbours, from below; (10^k - 1) and 10^k - 5.., as integers
            bits = 4 * k + r.choice((8, 40, 64))
            for num, d in (((10 ** k - 1) << bits, 10 ** k), ((2 * 10 ** k - 1) << bits, 2 * 10 ** k), ((10 ** k * 5 - 1) << bits, 10 ** k * 5)):
                m = num // d + r.choice((0, 0, 1, -1))
                yield from show(L(m.bit_length(), 0, "f", r.random() < .5, m, -bits + r.choice((0, 0, 0, 1, -3))), (p,))
            for m in (10 ** k - 1, 10 ** k - 5, 10 ** k - 6, 10 ** k - 4, 10 ** k, 10 ** k + 5):
                if m > 0:
                    yield from show(L(m.bit_length() + r.choice((0, 7)), 0, "f", r.random() < .5, m, r.choice((0, 0, -1, 1))), (p,))
        q = r.choice((p + 1, 2 * p + 3, 64, 53, 100))
        yield from show(L(q, 0, "f", r.random() < .5, (1 << q) - 1, -q), (p,))
        yield from show(L(q, 0, "f", r.random() < .5, (1 << q) - 1, r.choice((0, -q // 2, 9))), (p,))
        m = r.getrandbits(64) | 1 << 63
        for e in (-p, -p - 64, p - 64, -60 * r.randrange(6) - 32, -60 * r.randrange(6) - r.randrange(60)):
            yield from show(L(64, 0, "f", r.random() < .5, m, e), (r.choice((0, 5, 16, 30)),))
    for p in shards([x for x in (333, 500, 700, 999, 1000, 1001, 1024, 1500) for _ in range(T(tier, 1, 4))], shard, ns):
        q = r.choice((1, 53, 64, 200, 1000))
        yield from show(L(q, 0, "f", r.random() < .5, gmant(r, q), r.choice((0, -q, -q - 100, 50))), (p,))
        yield from show(L(2 * p, 0, "f", r.random() < .5, (1 << 2 * p) - 1, -2 * p), (p // 2,))
    # ties of the decimal rounding: k + 1/2 at few fractional digits
    for k in shards(range(0, 300), shard, ns):
        for p in (9, 10, 12):
            yield from show(L(p, 0, "f", r.random() < .5, 2 * k + 1, r.choice((-1, -2, -3, -(p - 1), -p, -(p + 1), -(p + 2)))) if (2 * k + 1).bit_length() <= p else L(p, 0, "f", False, 511, -p), (0, 1, 2, "d"))
        yield from show(L(64, 0, "f", False, 2 * k + 1, -1), (0, 1, 2))
        yield from show(L(64, 0, "f", False, 95 * 10 ** (k % 9) + (k % 3 - 1), 0), (0, 1, 2))
        yield from show(L(64, 0, "f", True, 995 * 10 ** (k % 9) + (k % 3 - 1), 0), (0, 1, 2))
        yield from show(L(64, 0, "f", True, 9995 * 10 ** (k % 9) + (k % 3 - 1), -(k % 7)), (0, 1, 2))
    good = ["0", "0.0", "-0.0", "0.5", ".5", "5.", "-.5", "+.5", "+0.5", "1e0", "1e1", "1e5", "1E5", "1e+5", "1e-5", "-1e-5", "1.5e3", "1.5e1", "1.25e2", "1.25e1", "12.5e-1", "100", "100.0", "1e22", "1e23", "1.0e100", "1.0e-100", "123456789.123456789", "0.1", "0.2", "0.3", "00.1", "007.5", "0e5", "0.0e5", "1e00", "1e-00", "1e05", "18446744073709551616", "18446744073709551615.5", "18446744073709551617.5e0", "0.000000000000000000000000000001", "9999999999999999999999.99999999", "3.14159265358979323846264338327950288", "1" + "0" * 60, "1." + "0" * 60, "1." + "0" * 60 + "1", "." + "0" * 40 + "1"]
    for s in shards(good, shard, ns):
        yield parse(s)
    bad = ["", ".", "+", "-", "+.", "-.", "e", "E", "e5", "E5", ".e5", "-.e5", "+e5", "1e", "1E", "1e+", "1e-", "1.5e", "1.5e+", "1e5.5", "1e.5", "1ee5", "1e5e5", "1E5e5", "1..5", "1.2.3", "..5", "1.-5", ".-5", "+.+5", "-.-5", "1.+5", "1-5", "1+5", "abc", "1.5x", "x1.5", "1x.5", "0.x5", "0.b1", "0.o7", "0.X5", "0x1.8", "0b1.1", "0o7.7", "0x1p3", "1.5f", "1_0.5", "1,5", "½", "1.é", "é.5", "1e٣", "٣.5", "1.٣", "NaN", "nan", "inf", "Inf", "+Inf", "infinity", "1e0x10", "1e0b1", "1e0o7", "1.5e0x1", "0x", "0b", "0o", "0xg", "0b2", "0o8", "--1.5", "1.5-", "1.5e5x", "1.5ex", "0.0x", "\u2212" "1.5", "1e\u22125", "1/2", "1.0/2", "1.5e--5", "1.5e+-5", "e.", ".E", "1.e5.", "0b1e1", "0o1e1", "é", "1é5", "1.5é", "1eé"]
    for s in shards(bad, shard, ns):
        yield parse(s)
    hexes = [("0x1e5", 0x1E5), ("0xE", 14), ("-0xe", -14), ("0x1", 1), ("0b101", 5), ("0o17", 15), ("+0xdead", 0xDEAD), ("0xe5e5", 0xE5E5), ("0XEe", 0xEE)]
    for s, v in shards(hexes, shard, ns):
        yield "parse/prefixed", "fparse " + hx(s), (lambda resp, v=v: "expected the value %d" % v if not resp.startswith("ok ") else exact_int(resp[3:], Fraction(v)))
    # long texts: many integer or fractional digits, exponents beyond the f64 range
    for n in shards([x for x in (50, 100, 200, 300, 307, 308, 309, 310, 323, 324, 325, 400, 500, 700, 1000, 1500, 2000, 3000) for _ in range(T(tier, 3, 12))], shard, ns):
        d = "".join(r.choice("0123456789") for _ in range(n))
        sg = r.choice(("", "-", "+"))
        yield parse(sg + "0." + "0" * n + "1")
        yield parse(sg + "." + "0" * (n - 1) + d[:20])
        yield parse(sg + "0." + d)
        yield parse(sg + d + "." + d[:n // 2])
        yield parse(sg + "1" + "0" * n + r.choice((".0", "e0", "e-5", ".", "")))
        yield parse(sg + d[:5] + "." + d[5:] + "e%d" % r.choice((n, -n, n // 2, 5)))
        yield parse(sg + "1.%se%d" % (d[:9], n))
        yield parse(sg + "1.%sE-%d" % (d[:9], n))
        yield parse(sg + d + "e-%d" % n)
        i = r.randrange(n)
        yield parse("1." + d[:i] + "x" + d[i:])
    for _ in range(T(tier, 12, 100)):
        p = r.choice((400, 600, 800, 1000)) + r.randrange(3)
        a = L(p, r.randrange(6), "f", r.random() < .5, gmant(r, p), r.choice((-p, -p // 2, 0, 5, -p - 40)))
        yield from show(a, (r.choice(("d", 0, 1, 17, 60, 200, 350)),))
    for _ in range(T(tier, 9000, 60000)):
        p = r.choice(PRECS[:24]) if r.random() < .8 else r.randrange(1, 300)
        a = L(p, r.randrange(6), "f", r.random() < .5, gmant(r, p), 0)
        a.e = r.choice((-p, -p // 2, -p - 3, 0, 1, -1, r.randrange(-200, 120), r.randrange(-600, 300) if r.random() < .2 else -5))
        yield from show(a, (r.choice(("d", 0, 1, 2, 5, 16, 17, 30, 60)),))
        d = r.choice((1, 1, 2, 5, 17, 20, 40))
        s = r.choice(("", "", "-", "+")) + "".join(r.choice("0123456789") for _ in range(r.randrange(0, d + 1)))
        if r.random() < .7:
            s += "." + "".join(r.choice("0123456789") for _ in range(r.randrange(0, d + 1)))
        if r.random() < .6:
            s += r.choice("eE") + r.choice(("", "+", "-")) + str(r.choice((0, 1, 2, 5, 10, 30, 100)))
        if fdec(s) is not None or not s.lstrip("+-").isdigit():
            if not (s.startswith(("+-", "-+"))):
                yield parse(s)
        m = mutate(r, s)
        if fdec(m) is None and "0" not in m[:3]:
            yield parse(m)
        # halfway at 64 bits
        k = r.randrange(1, 30)
        n = (r.getrandbits(64) | 1 << 63) * (1 << k) + (1 << (k - 1)) + r.choice((0, 1, -1))
        f = Fraction(n, 1 << r.randrange(0, 70))
        dp = f.denominator.bit_length() - 1
        ss = str(f.numerator * 5 ** dp).rjust(dp + 1, "0")
        yield parse((ss[:-dp] + "." + ss[-dp:]) if dp else ss + r.choice(("", ".", ".0", "e0")))
