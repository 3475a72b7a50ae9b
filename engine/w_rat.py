"""C17 (rational arithmetic), C18 (rational <-> float conversion). Specification: fractions.Fraction."""
import struct
from fractions import Fraction
from num import *
from w_int import T
from w_text import gq, prim, PT

F64 = (53, -1074, 1024, 0x7FF0000000000000, 63)
F32 = (24, -149, 128, 0x7F800000, 31)


def rnd_even(n, d):
    q, m = divmod(n, d)
    if 2 * m > d or (2 * m == d and q & 1):
        q += 1
    return q


def flen(q):
    """e with 2^(e-1) <= q < 2^e, q > 0"""
    e = q.numerator.bit_length() - q.denominator.bit_length()
    # q in (2^(e-1), 2^(e+1))
    if e >= 0:
        ge = q.numerator >= q.denominator << e
    else:
        ge = q.numerator << -e >= q.denominator
    return e + 1 if ge else e


def to_float(q, fmt, neg_zero=False):
    """nearest-even float bits of a Fraction and whether exact"""
    prec, emin, emax, infbits, sgn = fmt
    s = 1 if (q < 0 or neg_zero) else 0
    a = abs(q)
    if a == 0:
        return s << sgn, True
    ulp = max(flen(a) - prec, emin)
    if ulp >= 0:
        m = rnd_even(a.numerator, a.denominator << ulp)
    else:
        m = rnd_even(a.numerator << -ulp, a.denominator)
    if m == 0:
        return s << sgn, False
    v = Fraction(m) * Fraction(2) ** ulp
    if flen(v) > emax:
        return (s << sgn) | infbits, False
    # encode
    e = flen(v)
    u = max(e - prec, emin)
    mm = int(v / Fraction(2) ** u)
    if mm >> (prec - 1):
        bits = ((u - emin + 1) << (prec - 1)) | (mm - (1 << (prec - 1)))
    else:
        bits = mm
    return (s << sgn) | bits, v == a


def f_of_bits(b, fmt):
    prec, emin, emax, infbits, sgn = fmt
    s = b >> sgn & 1
    b &= (1 << sgn) - 1
    if b >= infbits:
        return None
    e, m = b >> (prec - 1), b & ((1 << (prec - 1)) - 1)
    if e:
        m |= 1 << (prec - 1)
        e -= 1
    v = Fraction(m) * Fraction(2) ** (e + emin)
    return -v if s else v


def qpair(r, maxl=10):
    a = gq(r, maxl)
    k = r.random()
    if k < .5:
        return a, gq(r, maxl)
    if k < .6:
        return a, -a
    if k < .7:
        return a, a
    if k < .8 and a:
        return a, 1 / a
    if k < .9:
        return a, Fraction(gi(r, 3), a.denominator)
    return a, a + Fraction(r.choice((-1, 1)), a.denominator * (gn(r, 2) or 1))


def c17(r, tier, shard, ns):
    ops = {"radd": lambda a, b: a + b, "rsub": lambda a, b: a - b, "rmul": lambda a, b: a * b, "rdiv": lambda a, b: a / b}

    def bin2(a, b, forms):
        for o, f0 in ops.items():
            for f in forms:
                x, y = (a, a) if f in "st" else (a, b)
                e = "!P" if o == "rdiv" and y == 0 else rr(f0(x, y))
                yield "%s/%s" % (o, f), "%s %s %s %s" % (o, f, lr(r, a), lr(r, b)), e

    def un(a):
        l = lr(r, a)
        yield "rid", "rid " + l, rr(a)
        yield "rneg", "rneg " + l, rr(-a)
        yield "rabs", "rabs " + l, rr(abs(a))
        yield "rinv", "rinv " + l, rr(1 / a) if a else "err"
        yield "rinfo", "rinfo " + l, "%d %d 0" % ((a > 0) - (a < 0), a.denominator == 1)

    def frac(p, q):
        yield "rfracb", "rfracb %s %s" % (li(r, p), li(r, q)), rr(Fraction(p, q)) if q else "err"
        if -(1 << 63) <= p < 1 << 63 and -(1 << 63) <= q < 1 << 63:
            yield "rfrac", "rfrac %d %d" % (p, q), rr(Fraction(p, q)) if q else "err"

    small = [Fraction(p, q) for p in range(-7, 8) for q in range(1, 7)]
    for a in shards(small, shard, ns):
        yield from un(a)
        for b in small:
            yield from bin2(a, b, r.choice("vma"))
        yield from bin2(a, a, "st")
    ed = [0, 1, -1, 2, -2, 3, 6, -9, (1 << 63) - 1, -(1 << 63), 1 - (1 << 63), 1 << 62, -(1 << 62), 1 << 32, 1 << 31, -(1 << 31), (1 << 63) - 2]
    for p in shards(ed, shard, ns):
        for q in ed:
            yield from frac(p, q)
    for v in shards(SMALL + [-x for x in SMALL], shard, ns):
        for q in SMALL:
            yield from frac(v, q)
            yield from frac(v, -q)
        yield "rfrom/I", "rfrom I " + li(r, v), rr(Fraction(v))
        if v >= 0:
            yield "rfrom/N", "rfrom N " + ln(r, v), rr(Fraction(v))
    for p, q in bitgrid(r, shard, ns, range(1, 68)):
        p = r.choice((p, -p))
        yield from frac(p, q)
        if r.random() < .5:
            i, j = r.randrange(1, 70), r.randrange(1, 70)
            yield from bin2(Fraction(p, q), r.choice((1, -1)) * Fraction(r.getrandbits(i) | 1 << (i - 1), r.getrandbits(j) | 1 << (j - 1)), r.choice("va"))
            yield from bin2(Fraction(p, q), Fraction(r.getrandbits(i) | 1, q), r.choice("va"))
    for i, j in shards([(i, j) for i in range(1, 25) for j in range(1, 25)], shard, ns):
        a = Fraction(pat(r, i) * r.choice((1, -1)), pat(r, j))
        b = Fraction(pat(r, j) * r.choice((1, -1)), pat(r, i))
        yield from bin2(a, b, r.choice("vma"))
        yield from un(a)
        yield from frac(pat(r, i), -pat(r, j))
    for _ in range(T(tier, 3500, 60000)):
        a, b = qpair(r)
        yield from bin2(a, b, r.choice(("v", "m", "a", "va", "st")))
        yield from un(a)
        g = gi(r, 4) or 1
        yield from frac(a.numerator * g, a.denominator * g)
        ty = r.choice(list(PT))
        v = prim(r, ty)
        yield "rfrom/" + ty, "rfrom %s %d" % (ty, v), rr(Fraction(v))
        p, q = prim(r, "i64"), prim(r, "i64")
        yield from frac(p, q)
    for n in shards(range(25, T(tier, 90, 140)), shard, ns):
        a, b = Fraction(r.choice((1, -1)) * pat(r, n), pat(r, r.choice((1, 2, n // 2, n)))), Fraction(r.choice((1, -1)) * pat(r, r.choice((1, n))), pat(r, r.choice((1, n))))
        yield from bin2(a, b, r.choice("vma"))
        yield from bin2(b, a, r.choice("vma"))
        yield from un(a)
        yield from un(1 / a)
        yield from frac(pat(r, n), -pat(r, r.choice((1, n - 1, n))))
    for n in shards([x for x in SWEEP for _ in range(T(tier, 2, 8))], shard, ns):
        a = Fraction(r.choice((1, -1)) * shaped(r, n), shaped(r, r.choice((1, 2, n))))
        b = Fraction(r.choice((1, -1)) * shaped(r, r.choice((1, n))), shaped(r, n))
        for x, y in ((a, b), (b, a), (a, Fraction(gi(r, 1))), (Fraction(gi(r, 1)), b)):
            yield from bin2(x, y, r.choice("vma"))
        yield from un(a)
        yield from un(b)
        yield from un(Fraction(shaped(r, n)))
        for g in (1, gn(r, 2) or 1):
            yield from frac(a.numerator * g, a.denominator * -g)
    # chains: the sum, difference, product and quotient of the same two numbers undo each other (large)
    for n in shards([x for x in (80, 100, 128, 129, 160, 200, 256) for _ in range(T(tier, 2, 8))], shard, ns):
        a, b = Fraction(r.choice((1, -1)) * pat(r, n), pat(r, r.choice((1, n // 2, n)))), Fraction(r.choice((1, -1)) * pat(r, r.choice((1, n))), pat(r, n // 2))
        yield from bin2(a, b, "v")
        yield from bin2(b, a, "a")
        yield from un(a)
        g = pat(r, n // 2)
        yield from frac(a.numerator * g, -a.denominator * g)
    for n in shards([350, 600, 800] if tier == "quick" else [350, 600, 800, 1200, 2000], shard, ns):
        a, b = 1, 1
        while b.bit_length() < 32 * n:
            a, b = b, a + b
        yield from frac(a, -b)
        yield from un(Fraction(b, a))
    for _ in range(T(tier, 60, 1500)):
        a, b = Fraction(gi(r, 60), gn(r, 60) or 1), Fraction(gi(r, 60), gn(r, 60) or 1)
        yield from bin2(a, b, "v")


def c18(r, tier, shard, ns):
    def to(q):
        a, ea = to_float(q, F64)
        b, eb = to_float(q, F32)
        yield "rtof", "rtof " + lr(r, q), "%016x %d %08x %d" % (a, ea, b, eb)

    def f64(b):
        v = f_of_bits(b, F64)
        yield "from-f64", "rff64 %016x" % b, rr(v)
        return v

    def f32(b):
        v = f_of_bits(b, F32)
        yield "from-f32", "rff32 %08x" % b, rr(v)
        return v

    # from_f64/from_f32: every exponent
    for e in shards(range(2048), shard, ns):
        for m in (0, 1, (1 << 52) - 1, 1 << 51, r.getrandbits(52), (r.getrandbits(30) << 22)):
            s = r.getrandbits(1)
            yield from f64(s << 63 | e << 52 | m)
    for e in shards(range(256), shard, ns):
        for m in (0, 1, (1 << 23) - 1, 1 << 22, r.getrandbits(23), r.getrandbits(23), r.getrandbits(11) << 12):
            for s in (0, 1):
                yield from f32(s << 31 | e << 23 | m)
    # around every binade: exact, ties, just off ties
    for fmt in (F32, F64):
        prec, emin, emax, inf, sg = fmt
        exps = list(range(emin - 4, emax + 3)) if fmt is F32 or tier == "thorough" else sorted(set(list(range(emin - 4, emin + 70)) + list(range(-70, 70)) + list(range(emax - 60, emax + 3)) + list(range(emin, emax, 17))))
        for e in shards(exps, shard, ns):
            two = Fraction(2) ** e
            for _ in range(2):
                m = (1 << (prec - 1)) | r.getrandbits(prec - 1) if r.random() < .8 else r.choice(((1 << prec) - 1, 1 << (prec - 1)))
                v = Fraction(m) * two / (1 << (prec - 1))  # in [2^e, 2^(e+1))
                half = two / (1 << prec)
                yield from to(v * r.choice((1, -1)))
                yield from to(v + half)
                yield from to(-(v + half))
                eps = half * Fraction(1, r.choice((1 << 40, (1 << 70) + 1, 3 ** 50)))
                yield from to(v + half + eps)
                yield from to(v + half - eps)
                yield from to(v + eps)
                yield from to(v + half + half)
    # denormal grid and underflow
    for fmt in (F32, F64):
        prec, emin = fmt[0], fmt[1]
        tiny = Fraction(2) ** emin
        for k in shards(list(range(0, 40)) + [(1 << (prec - 1)) - 1, 1 << (prec - 1), (1 << (prec - 1)) + 1], shard, ns):
            for d in (Fraction(0), Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(1, 2) + Fraction(1, 1 << 80), Fraction(1, 2) - Fraction(1, 1 << 80), Fraction(1, 3), Fraction(1, 1 << 90)):
                yield from to((k + d) * tiny)
                yield from to(-(k + d) * tiny)
        top = (2 - Fraction(1, 1 << (prec - 1))) * Fraction(2) ** (fmt[2] - 1)
        hulp = Fraction(2) ** (fmt[2] - prec - 1)
        for d in (0, hulp, hulp - Fraction(1, 7), hulp + Fraction(1, 7), hulp / 2, 2 * hulp, top, hulp - 1, hulp + 1):
            yield from to(top + d)
            yield from to(-top - d)
    for q in (Fraction(0), Fraction(1), Fraction(1, 3), Fraction(-2, 3), Fraction(1, 10), Fraction(10 ** 400), Fraction(1, 10 ** 400), Fraction(-10 ** 400, 3), Fraction(-1, 3 * 10 ** 400), Fraction(1, 1 << 5000), Fraction(1 << 5000)):
        yield from to(q)
    # denominators of every length, at the ties of the denormal range, the binade carries and the overflow threshold
    for n in shards([x for x in SWEEP for _ in range(T(tier, 1, 4))], shard, ns):
        for fmt in (F32, F64):
            prec, emin, emax = fmt[:3]
            d = shaped(r, n) | 1
            unit = Fraction(2) ** (emin - 1)  # a fine grid of the denormal range
            grid = Fraction(2) ** r.choice((r.randrange(emin + 1, emax - prec - 1), -prec, -prec - r.randrange(60)))
            k = r.getrandbits(r.randrange(1, prec)) | 1
            for t in (k * unit, ((1 << prec) - 1) * unit, Fraction(1, 2) * unit, ((1 << (prec + 1)) - 1) * grid, (k << 1 | 1 << (prec + 1) | 1) * grid):
                den = d
                num = t * den
                if num < 1 << 32:  # the quotient is far below 1: lengthen the denominator from below
                    sh = t.denominator.bit_length() + 33
                    if n * 32 > sh:
                        num = int(num)
                    else:
                        den = d << sh
                        num = int(t * den)
                else:
                    num = int(num)
                for z in (0, 1, -1):
                    yield from to(Fraction(num + z, den) * r.choice((1, -1)))
    for n in shards([x for x in SWEEP for _ in range(T(tier, 6, 30))], shard, ns):
        d = r.choice((pat, shaped))(r, n)
        # a quotient of two long numbers close to a double, to a tie between doubles, in and out of the denormal range
        m = r.getrandbits(r.choice((24, 25, 53, 54))) | 1
        e = r.choice((0, r.randrange(-60, 60), r.randrange(-150, -120), r.randrange(-1130, -1010), r.randrange(900, 1030)))
        num, den = m * d, d
        if e >= 0:
            num <<= e
        else:
            den <<= -e
        for k in (0, 1, -1):
            yield from to(Fraction(num + k, den))
            yield from to(-Fraction(num + k, den))
        yield from to(Fraction(pat(r, n), pat(r, n)))
        # numerator of exactly n limbs, quotient around a tie of a double or a float, normal or denormal
        fmt = r.choice((F32, F64))
        k = r.choice((fmt[0], fmt[0] + 1, r.randrange(1, fmt[0] + 2)))
        m = r.getrandbits(k) | 1
        t = Fraction(m, 2) * Fraction(2) ** (fmt[1] if k < fmt[0] + 2 and r.random() < .6 else r.randrange(fmt[1] + 1, fmt[2] - fmt[0] - 1))
        num = shaped(r, n)
        if t > 1 and num.bit_length() < t.numerator.bit_length():
            continue
        den = int(num / t) or 1
        for d in (0, 1, -1):
            if den + d > 0:
                yield from to(r.choice((1, -1)) * Fraction(num, den + d))
        yield from to(t * Fraction(num, num + r.choice((1, -1, 2))) if num > 2 else t)
    for _ in range(T(tier, 20000, 200000)):
        yield from to(gq(r, 6))
        n = Fraction(r.getrandbits(r.randrange(1, 130)) or 1, r.getrandbits(r.randrange(1, 130)) or 1) * Fraction(2) ** r.choice((0, r.randrange(-160, 140), r.randrange(-1100, 1040)))
        yield from to(n * r.choice((1, -1)))
        k = r.random()
        if k < .5:
            yield from f64(r.getrandbits(64))
        else:
            yield from f32(r.getrandbits(32))
        # values that are exactly a double: round trip
        v = f_of_bits(r.getrandbits(64), F64)
        if v is not None:
            yield from to(v)
