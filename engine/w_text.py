"""C09 (integer text), C10 (bytes and primitive conversions), C28 (rational text)."""
import re, struct
from fractions import Fraction
from math import gcd
from num import *
from w_int import T

INT_OK = re.compile(r"^[+-]?(0[xX][0-9a-fA-F]+|0[bB][01]+|0o[0-7]+|[0-9]+)$")


def hx(s):
    return s.encode("utf8").hex() or "-"


def intval(s):
    neg = s[0] == "-"
    t = s.lstrip("+-")
    if t[:2] in ("0x", "0X"):
        v = int(t[2:], 16)
    elif t[:2] in ("0b", "0B"):
        v = int(t[2:], 2)
    elif t[:2] == "0o":
        v = int(t[2:], 8)
    else:
        v = int(t, 10)
    return -v if neg else v


def fmts(v):
    s, a = ("-" if v < 0 else ""), abs(v)
    d = [("%x" % a, "0x"), ("%X" % a, "0x"), ("%o" % a, "0o"), (bin(a)[2:], "0b"), ("%x" % a, "0x")]
    return " ".join("%s%s %s%s%s" % (s, x, s, p, x) for x, p in d)


def spell(r, v):
    """a text form of v"""
    a = abs(v)
    k = r.random()
    z = "0" * r.choice((0, 0, 0, 1, 2, 7, 8, 9, 10, 11, 31, 33))
    if k < 0.3 and a.bit_length() < 2000:
        t = z + str(a)
    elif k < 0.55:
        h = "%x" % a
        t = r.choice(("0x", "0X")) + z + (h if r.random() < .4 else h.upper() if r.random() < .5 else "".join(r.choice((c, c.upper())) for c in h))
    elif k < 0.8:
        t = "0o" + z + "%o" % a
    else:
        t = r.choice(("0b", "0B")) + z + bin(a)[2:]
    return ("-" if v < 0 else r.choice(("", "", "+"))) + t


JUNK = ["", "+", "-", "0x", "0b", "0o", "0X", "0B", "-0x", "+0b", "-0o", "x", "abc", "1a", "12z", "0xg", "0x1g", "0xg1", "0b2", "0b12", "0b21", "0o8", "0o18", "0o81", "08z", "0z", "0q1", "1.5", "1e5", "1/2", "1_000", "0x_1", "1,0", "é", "1é", "0xé",
        "0é", "é1", "٣", "0x٣", "½", "0b１", "１２", "12٣", "0o٣", "-é", "--é", "\u2212" + "5", "5-", "5+", "0x-1", "0x+1", "0b-1", "0o-7", "NaN", "nan", "inf", "0xNaN", "\u00a05x", "0x0x1", "0b0b1", "0o0o1", "00x1", "1x1", "-1-", "١", "0O8", "0xGG", "00b1", "0xfffffffff/", "0xfffffffff:", "0x@", "0x`", "0b/", "0o/", "9:", "9/", "1\x002", "0x\x00", "\x00", "1\u200b"]


def mutate(r, s):
    """break a valid text in one place"""
    bad = r.choice("gGzZ_./:@`~!é٣\x01,;#$%")
    i = r.randrange(len(s) + 1)
    return s[:i] + bad + s[i:]


def c09(r, tier, shard, ns):
    def fmt(v, dec=True):
        if v >= 0:
            l = ln(r, v)
            yield "nfmt", "nfmt " + l, fmts(v)
            if dec:
                yield "ndec", "ndec " + l, str(v)
        l = li(r, v)
        yield "ifmt", "ifmt " + l, fmts(v)
        if dec:
            yield "idec", "idec " + l, str(v)

    def parse(s):
        ok = bool(INT_OK.match(s))
        v = intval(s) if ok else None
        if not (ok and s[0] == "-"):
            yield ("nparse/ok" if ok else "nparse/bad"), "nparse " + hx(s), ("ok " + rn(v)) if ok else "err"
        yield ("iparse/ok" if ok else "iparse/bad"), "iparse " + hx(s), ("ok " + ri(v)) if ok else "err"

    for v in shards(SMALL + [-x for x in SMALL], shard, ns):
        yield from fmt(v)
        for _ in range(12):
            yield from parse(spell(r, v))
    for s in shards(JUNK, shard, ns):
        if s == "0O8" or not INT_OK.match(s):
            yield from parse(s)
    # every string of up to 3 (4) characters over an alphabet that can form prefixes, signs and digits
    import itertools
    # (several signs, and sign/space mixtures, are not claimed either way)
    al = "0178bBoxXfFg-+"
    for n in range(0, T(tier, 4, 5)):
        for tup in shards(itertools.product(al, repeat=n), shard, ns):
            s = "".join(tup)
            core = s.lstrip("+-")
            if len(s) - len(core) > 1 and INT_OK.match(core):
                continue
            yield from parse(s)
    # every bit length / every digit count
    for n in shards(range(1, T(tier, 700, 2500)), shard, ns):
        for v in ((1 << n) - 1, 1 << n, (1 << n) + 1, r.getrandbits(n)):
            v = -v if r.random() < .3 else v
            yield from fmt(v, v.bit_length() < 1200 and (n % 4 == 0 or n < 200))
            yield from parse(spell(r, v))
        if n < 500:
            for v in (10 ** n, 10 ** n - 1, r.randrange(10 ** (n - 1), 10 ** n)):
                yield from parse(str(v))
                if n < 260:
                    yield from fmt(v)
        d = "".join(r.choice("01234567") for _ in range(n))
        yield from parse("0o" + d)
        d = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
        yield from parse("0x" + d)
        yield from parse("0x" + "0" * n + "1")
        yield from parse("0o" + "0" * n)
        yield from parse("0b" + "0" * n + "1" * (n % 5))
        yield from parse("0" * n + "7")
    # long numbers and long texts
    for n in shards([x for x in (701, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2080, 2500, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 12345) for _ in range(T(tier, 2, 8))], shard, ns):
        for v in ((1 << n) - 1, 1 << n, pat(r, n // 32 + 1), -r.getrandbits(n)):
            yield from fmt(v, False)
            h = "%x" % abs(v)
            s = "-" if v < 0 else ""
            for t in (s + "0x" + h, s + "0X" + h.upper(), s + "0o%o" % abs(v), s + bin(abs(v)).replace("-", ""), s + str(abs(v)), s + "0b" + "0" * r.randrange(70) + bin(abs(v))[2:], s + "0x" + "0" * r.randrange(70) + h, s + "0o" + "0" * r.randrange(70) + "%o" % abs(v)):
                yield from parse(t)
        for pre, al2, bad in (("0x", "0123456789abcdefABCDEF", "g"), ("0o", "01234567", "8"), ("0b", "01", "2"), ("", "0123456789", "a")):
            d = "".join(r.choice(al2) for _ in range(n))
            yield from parse(pre + d)
            i = r.choice((0, 1, n - 1, r.randrange(n)))
            yield from parse(pre + d[:i] + bad + d[i + 1:])
    for n in shards([x for x in SWEEP for _ in range(T(tier, 1, 5))], shard, ns):
        for k in range(10):
            v = r.choice((1, -1)) * shape(r, n, k)
            yield from fmt(v, r.random() < (.5 if n < 30 else .06))
            yield from parse(spell(r, v))
            s, h = ("-" if v < 0 else ""), abs(v)
            # decimal texts with zero / all-nine runs wherever a conversion may cut them
            if n <= 40 and r.random() < .35:
                x = 10 ** r.randrange(1, 10 * n)
                y = (h // x * x) or x
                for w in (y, y - 1, y + 1, h // x * x + x - 1):
                    yield from parse(s + str(w))
                yield from fmt(r.choice((y, y - 1, -y)))
            yield from parse(r.choice((s + "0x%x" % h, s + "0o%o" % h, s + bin(h).replace("-", ""), s + "0X%X" % h)))
    for n in shards([x for x in (1500, 2000, 2500, 3000) for _ in range(T(tier, 2, 10))], shard, ns):
        yield from fmt(r.getrandbits(n) | 1 << (n - 1))
        yield from fmt(-10 ** (n // 4))
    for _ in range(T(tier, 14000, 80000)):
        v = gi(r, 40)
        big = v.bit_length() > 900 and r.random() < .9
        yield from fmt(v, not big)
        s = spell(r, v)
        yield from parse(s)
        m = mutate(r, s)
        if not INT_OK.match(m):
            yield from parse(m)
        if r.random() < .3:
            j = "".join(r.choice("0123456789abcdefxXoObB+-gé") for _ in range(r.randrange(1, 12)))
            c = j.lstrip("+-")
            if not (len(j) - len(c) > 1 and INT_OK.match(c)):
                yield from parse(j)


PT = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "u128": (0, 128),
      "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "isize": (1, 64), "i128": (1, 128)}


def prim(r, ty):
    s, b = PT[ty]
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    k = r.random()
    if k < .3:
        return r.choice((lo, hi, 0, 1, lo + 1, hi - 1, max(lo, -1)))
    if k < .6:
        v = 1 << r.randrange(b)
        v += r.choice((0, 1, -1))
        if s and r.random() < .5:
            v = -v
        return min(hi, max(lo, v))
    return r.randint(lo, hi)


def c10(r, tier, shard, ns):
    def minb(v):
        return abs(v).to_bytes(max(1, (abs(v).bit_length() + 7) // 8), "little")

    def to(v):
        le = minb(v)
        be = le[::-1]
        dirty = bytes(r.getrandbits(8) for _ in range(r.choice((0, 1, 3, 4, 9, 40))))
        e = "%s %s %s %s" % (le.hex(), be.hex(), le.hex(), be.hex())
        if v >= 0:
            yield "nto", "nto %s %s" % (ln(r, v), dirty.hex() or "-"), e
        yield "ito", "ito %s %s" % (li(r, v), dirty.hex() or "-"), e

    def frm(b):
        for ty in ("le", "be", "s8", "r8", "v8"):
            v = int.from_bytes(b, "big" if ty == "be" else "little")
            yield "nbytes/" + ty, "nbytes %s %s" % (ty, b.hex()), rn(v)
            yield "ibytes/" + ty, "ibytes %s %s" % (ty, b.hex()), rn(v)
        for ty in ("s32", "r32", "v32"):
            v = int.from_bytes(b, "little")
            yield "nbytes/" + ty, "nbytes %s %s" % (ty, b.hex()), rn(v)
            yield "ibytes/" + ty, "ibytes %s %s" % (ty, b.hex()), rn(v)

    def pr(ty, v):
        if not PT[ty][0]:
            yield "nfrom/" + ty, "nfrom %s %x" % (ty, v), rn(v)
        yield "ifrom/" + ty, "ifrom %s %d" % (ty, v), ri(v)
        yield "rfrom/" + ty, "rfrom %s %d" % (ty, v), ri(v) + "/00000001"

    for v in shards(range(256), shard, ns):
        yield from frm(bytes([v]))
        yield from pr("u8", v)
        yield from pr("i8", v - 128)
        yield from to(v)
    for i in shards(range(0, 65536, T(tier, 13, 1)), shard, ns):
        yield from pr("u16", i)
        yield from pr("i16", i - 32768)
    for n in shards(range(1, T(tier, 400, 1200)), shard, ns):
        for b in (bytes([0] * n), bytes([255] * n), bytes([0] * (n - 1) + [1]), bytes([1] + [0] * (n - 1)), bytes(r.getrandbits(8) for _ in range(n)),
                  bytes([0] * (n // 2) + [r.randrange(256)] + [0] * (n // 2)), bytes([128] + [0] * (n - 1)), bytes([0] * (n - 1) + [128])):
            yield from frm(b)
        for v in ((1 << n) - 1, 1 << n, (1 << (8 * n)) - 1, 1 << (8 * n), (1 << (8 * n - 1)), r.getrandbits(8 * n), -r.getrandbits(8 * n), -(1 << (8 * n))):
            yield from to(v)
    for n in shards([x for x in (401, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 2000, 4096, 4097, 8191, 8192, 10001, 16384) for _ in range(T(tier, 2, 8))], shard, ns):
        for b in (r.randbytes(n), bytes([0] * (n - 1) + [1]), bytes([1] + [0] * (n - 1)), bytes([255] * n), r.randbytes(n // 2) + bytes(n - n // 2)):
            yield from frm(b)
        for v in ((1 << (8 * n)) - 1, 1 << (8 * n), r.getrandbits(8 * n), -pat(r, n // 4 + 1)):
            yield from to(v)
    for n in shards([x for x in SWEEP for _ in range(T(tier, 1, 5))], shard, ns):
        for k in range(10):
            v = shape(r, n, k)
            yield from to(v)
            yield from to(-(v >> r.randrange(32)) or -1)
            b = (v >> (8 * r.randrange(4))).to_bytes(4 * n, "little")
            b = b[: len(b) - r.randrange(4)] or b
            yield from frm(b if r.random() < .5 else b[::-1])
            yield "ifromn", "ifromn " + ln(r, v), rn(v)
    for _ in range(T(tier, 30000, 80000)):
        ty = r.choice(list(PT))
        yield from pr(ty, prim(r, ty))
        yield from to(gi(r, 50))
        v = gn(r, 30)
        b = minb(v) + bytes(r.choice((0, 0, 1, 2, 3, 4, 5, 8, 12)))
        yield from frm(b if r.random() < .5 else b[::-1])
        yield "ifromn", "ifromn " + ln(r, v), rn(v)


# ------------------------------------------------------------------ rationals
def f64_of(s):
    """nearest f64 of decimal text, as a Fraction or None when it overflows"""
    try:
        f = float(s)
    except OverflowError:
        return None
    if f in (float("inf"), float("-inf")):
        return None
    return Fraction(f)


DEC_OK = re.compile(r"^[+-]?([0-9]+\.[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$")


def gq(r, maxl=12):
    k = r.random()
    if k < .12:
        return Fraction(r.randrange(-20, 21), r.randrange(1, 20))
    if k < .2:
        return Fraction(gi(r, maxl))
    d = gn(r, maxl) or 1
    n = gi(r, maxl)
    if r.random() < .4:
        g = gn(r, max(1, maxl // 3)) or 1
        return Fraction(n * g, d * (gn(r, 1) or 1))
    return Fraction(n, d)


def c28(r, tier, shard, ns):
    def fmt(q):
        a, b, s = abs(q.numerator), q.denominator, "-" if q < 0 else ""
        e = []
        for f, p in (("x", "0x"), ("X", "0x"), ("o", "0o"), ("b", "0b")):
            e.append("%s%s/%s" % (s, format(a, f), format(b, f)))
            e.append("%s%s%s/%s%s" % (s, p, format(a, f), p, format(b, f)))
        e.append("%s%x/%x" % (s, a, b))
        l = lr(r, q)
        yield "rfmt", "rfmt " + l, " ".join(e)
        if a.bit_length() + b.bit_length() < 1500:
            yield "rdec", "rdec " + l, "%s%d/%d" % (s, a, b)

    def parse(s, tag, e):
        yield "rparse/" + tag, "rparse " + hx(s), e

    def frac(p, q):
        s = spell(r, p) + "/" + spell(r, q)
        if q == 0:
            return parse(s, "zero-den", "err")
        return parse(s, "frac", "ok " + rr(Fraction(p, q)))

    def dec(s):
        if DEC_OK.match(s):
            v = f64_of(s)
            if v is None:
                return parse(s, "decimal-overflow", "err")
            return parse(s, "decimal", "ok " + rr(v))
        return parse(s, "bad", "err")

    for p in shards([x for x in SMALL] + [-x for x in SMALL], shard, ns):
        for q in (0, 1, -1, 2, 3, 4, -6, 10, 12, 1 << 32, p or 5, -p or 7):
            yield from frac(p, q)
            if q:
                yield from fmt(Fraction(p, q))
        yield from parse(spell(r, p), "int", "ok " + rr(Fraction(p)))
    bad = ["", "/", "1/", "/1", "1//2", "1/2/3", "a/b", "1/x", "0x/1", "1/0x", "1/-", "-/1", "+/1", "é/1", "1/é", "é", "٣/٣", ".", "..", "1..2", "1.2.3", "1.2/3", "3/1.2", ".e5", "1.e", "1.5e", "1.5e+", "x.y", "1.5x", "0x1.8", "0x1.8p3", "1.5.", "-.", "+.", "é.5", "1.é", "NaN", "nan", "inf", "-inf", "infinity", "nan.", "inf.", "NaN.0", ".inf",
           "1e5", "0/0", "0/-0", "5/0", "-5/0x0", "1/0b0", "1/0o0", "1/00", "1 2/3", "1_0.5", "--1.5", "1/2.", "1/.2", "\u2044", "1\u20442", "0b2/1", "1/0o9"]
    for s in shards(bad, shard, ns):
        yield from parse(s, "bad", "err")
    decs = ["0.0", "-0.0", "0.", ".0", "+.5", "-.5", "5.", "1.5", "1.0", "100.", "0.1", "0.2", "0.3", "-0.1", "1.7976931348623157e308", "1.7976931348623157E+308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "-1.8e308", "1.e400", "-1.0e999999", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.4e-324", "1.0e-400", "2.2250738585072014e-308", "2.2250738585072011e-308", "9007199254740993.0", "9007199254740992.5", "9007199254740993.00000000000000001", "18446744073709551616.0", "1.0e22", "1.0e23", "123456789012345678901234567890.0", "3.0e100", "1.0e53", "9.0e15", "1024.0", "4503599627370497.5", "65536.0", "1.0e300"]
    for s in shards(decs, shard, ns):
        yield from dec(s)
    for n in shards([x for x in (20, 40, 64, 65, 100, 128, 200, 256, 300) for _ in range(T(tier, 4, 20))], shard, ns):
        q = Fraction(r.choice((1, -1)) * pat(r, n), pat(r, r.choice((n, 1, n // 2))))
        yield from fmt(q)
        yield from frac(q.numerator, q.denominator)
        yield from frac(q.numerator * 6, q.denominator * -6)
        yield from parse(spell(r, q.numerator), "int", "ok " + rr(Fraction(q.numerator)))
        s = "%s.%s" % (r.getrandbits(r.randrange(1, 900)), "".join(r.choice("0123456789") for _ in range(4 * n)))
        yield from dec(s)
        yield from dec(s + "e-%d" % r.randrange(1, 300))
        yield from dec("0." + "0" * (n + r.randrange(3)) + "1")
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 1, 5)):
        for x, y in ((a, b), (b, a), (a, r.choice((1, 2, 3, 10, M32))), (r.choice((1, 2, 3, 10, M32)), a)):
            q = Fraction(r.choice((1, -1)) * x, y)
            yield from fmt(q)
            g = r.choice((1, 1, -1, 2, -3, 10, gn(r, 2) or 1))
            if n <= 40 or r.random() < .3:
                yield from frac(q.numerator * g, q.denominator * g)
    for n in shards([x for x in SWEEP[:40] for _ in range(T(tier, 1, 6))], shard, ns):
        v = shaped(r, n)
        q = Fraction(r.choice((1, -1)) * v, shaped(r, r.choice((1, n))))
        a, b, s = abs(q.numerator), q.denominator, "-" if q < 0 else ""
        yield "rdec", "rdec " + lr(r, q), "%s%d/%d" % (s, a, b)
        yield from parse(spell(r, v), "int", "ok " + rr(Fraction(v)))
    for _ in range(T(tier, 12000, 120000)):
        q = gq(r, 10)
        yield from fmt(q)
        g = r.choice((1, 1, -1, 2, -3, 10, gn(r, 3) or 1))
        yield from frac(q.numerator * g, q.denominator * g)
        s = "%s%s.%s" % (r.choice(("", "-", "+")), "".join(r.choice("0123456789") for _ in range(r.choice((0, 1, 2, 5, 17, 25)))), "".join(r.choice("0123456789") for _ in range(r.choice((1, 2, 3, 9, 18, 30)))))
        if r.random() < .5:
            s += r.choice("eE") + str(r.choice((r.randrange(-30, 30), r.randrange(-345, 320))))
        yield from dec(s)
        if r.random() < .3:
            m = mutate(r, s)
            if not DEC_OK.match(m) and "/" not in m:
                yield from parse(m, "bad", "err")
        if r.random() < .2:
            b = struct.unpack("<d", r.randbytes(8))[0]
            if b == b and abs(b) != float("inf"):
                s = format(b, ".17e")
                yield from dec(s)
