"""Workloads for the integer types: C01-C05, C08, C11-C14 (specification: CPython integers)."""
import os
from math import gcd, isqrt, comb
from num import *


def T(tier, q, t):
    return t if tier == "thorough" else q


def lens_grid(hi):
    return [(i, j) for i in range(1, hi + 1) for j in range(1, hi + 1)]


HUGELENS = [1500, 2047, 2048, 2049, 2500, 3000, 4095, 4096, 4097, 5000]
BIGLENS = [83, 97, 100, 119, 120, 121, 127, 128, 129, 159, 160, 161, 162, 200, 239, 240, 241, 255, 256, 257, 258, 259, 260, 261, 262, 263, 300, 319, 320, 321, 333, 400, 511, 512, 513, 519, 520, 521, 522, 600, 640, 777, 1023, 1024, 1025, 1040, 1041, 1100]


def special_of_len(n):
    yield (1 << (32 * n)) - 1
    yield 1 << (32 * n - 1)
    yield 1 << (32 * (n - 1))
    yield (1 << (32 * n)) - (1 << (32 * (n - 1)))


def c01(r, tier, shard, ns):
    ops = {"nadd": lambda a, b: a + b, "nsub": lambda a, b: abs(a - b), "nmul": lambda a, b: a * b}
    wops = {"naddw": lambda a, b: a + b, "nsubw": lambda a, b: abs(a - b), "nmulw": lambda a, b: a * b}

    def emit(a, b, forms, names=("nadd", "nsub", "nmul", "nsws")):
        for o in names:
            for f in forms:
                x, y = (a, a) if f in "st" else (a, b)
                if o == "nsws":
                    e = "%s %d" % (rn(abs(x - y)), x >= y)
                else:
                    e = rn(ops[o](x, y))
                yield "%s/%s" % (o, f), "%s %s %s %s" % (o, f, ln(r, a), ln(r, b)), e

    def emitw(a, k, forms):
        for o, fn in wops.items():
            for f in forms:
                yield "%s/%s" % (o, f), "%s %s %s %x" % (o, f, ln(r, a), k), rn(fn(a, k))

    # every pair of small special values, all forms
    for a, b in shards([(a, b) for a in SMALL for b in SMALL], shard, ns):
        yield from emit(a, b, "vma")
    for a in shards(SMALL, shard, ns):
        yield from emit(a, a, "st")
        for k in SPECW:
            yield from emitw(a, k, "va")
    for a, b in bitgrid(r, shard, ns):
        yield from emit(a, b, r.choice("va"))
        if b >> 32 == 0:
            yield from emitw(a, b, r.choice("va"))
    # every pair of lengths
    for i, j in shards(lens_grid(T(tier, 45, 90)), shard, ns):
        yield from emit(pat(r, i), pat(r, j), "va"[r.randrange(2)])
        if i == j or r.random() < 0.2:
            yield from emit(r.choice(list(special_of_len(i))), r.choice(list(special_of_len(j))), "v")
    # every length: carries and borrows through the whole number; cancellation down to one limb
    for n in shards(range(1, T(tier, 330, 1100)), shard, ns):
        top = (1 << (32 * n))
        yield from emit(top - 1, 1, "va")
        yield from emit(top, 1, "va", ("nsub", "nsws"))
        yield from emit(1, top, "va", ("nsub", "nsws"))
        x = pat(r, n)
        yield from emit(x, x ^ 1, "va", ("nsub", "nsws"))
        yield from emit(x, x, "vst", ("nsub", "nsws", "nadd"))
        yield from emitw(top - 1, r.choice(SPECW), "va")
        yield from emitw(top, r.choice((1, M32)), "va")
        yield from emitw(1 << (32 * n - 1), r.choice((2, 1, 0, 3)), "va")
        yield from emitw(pat(r, n), r.getrandbits(32), "a")
        yield from emit(top - 1, top - 1, "s", ("nmul",))
        yield from emit(top - 1, M32, "va", ("nmul",))
        # a*b just below / at a power of 2^32 (top limb of the product 0 or 1)
        yield from emit(1 << (16 * n + r.randrange(2)), 1 << (16 * n), "v", ("nmul",))
    for n in shards([x for x in BIGLENS for _ in range(T(tier, 2, 10))], shard, ns):
        a, b = pat(r, n), pat(r, r.choice((n, n, n - 1, n + 1, n // 2, 1, r.choice(BIGLENS))))
        yield from emit(a, b, "va")
        yield from emit(b, a, "v")
    for n in shards([x for x in HUGELENS for _ in range(T(tier, 2, 6))], shard, ns):
        a, b = pat(r, n), pat(r, r.choice((n, n - 1, n + 1, n // 2, 1, r.choice(HUGELENS))))
        yield from emit(a, b, "va", ("nadd", "nsub", "nsws"))
        yield from emit(b, a, "va", ("nadd", "nsub", "nsws"))
        yield from emit(pat(r, n), pat(r, r.randrange(1, 300)), "v", ("nmul",))
        yield from emit((1 << (32 * n)) - 1, 1, "va", ("nadd",))
        yield from emit(1 << (32 * n), 1, "va", ("nsub",))
        yield from emitw(pat(r, n), r.choice(SPECW), "va")
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 1, 4)):
        yield from emit(a, b, r.choice("vma"))
        yield from emit(b, a, r.choice("va"))
        yield from emit(a, a, r.choice("st"), ("nsub", "nmul", "nadd"))
        for k in (0, 1, 10, a & M32, ((a & M32) + 1) & M32, r.randrange(256), r.choice(SPECW), r.getrandbits(32)):
            yield from emitw(a, k, r.choice("vma"))
    for k in shards(range(1, 300), shard, ns):
        for n in (1, 2, 3, 4, 5, 8, 17):
            for a in ((1 << 32 * (n - 1)), (1 << 32 * n) - 1, pat(r, n), k, k << 32, (pat(r, n) >> 32 << 32) | k):
                yield from emitw(a, k, r.choice("va"))
                yield from emitw(a, M32 - k, r.choice("va"))
    for _ in range(T(tier, 12000, 60000)):
        a, b = pair(r, r.choice((90, 90, 300)))
        yield from emit(a, b, r.choice(("v", "m", "a", "va", "st")))
        yield from emitw(a, r.choice(SPECW) if r.random() < 0.5 else r.getrandbits(32), r.choice("vma"))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def trem(a, b):
    m = abs(a) % abs(b)
    return -m if a < 0 else m


def deu(a, b):
    return (a - (a % abs(b))) // b


def reu(a, b):
    return a % abs(b)


def divpair(r, maxl):
    """dividend/divisor with hostile quotient digits and remainders"""
    k = r.random()
    if k < 0.25:
        return pair(r, maxl)
    b = gn(r, maxl) or 1
    if r.random() < 0.5:  # normalised or nearly normalised top limbs; 0x80000000 / 0xffffffff heads provoke quotient corrections
        n = nlen(r, maxl)
        b = (r.choice((0x80000000, 0x80000001, M32, 0x7FFFFFFF, 1, 0xFFFFFFFE)) << (32 * (n - 1))) | (pat(r, n) & ((1 << (32 * (n - 1))) - 1) if n > 1 else 0)
        if r.random() < 0.4 and n > 1:
            b = (b >> 32 << 32) if r.random() < 0.5 else (b | M32)
    b = b or 1
    q = gn(r, max(1, maxl // 2))
    rem = r.choice((0, b - 1, r.randrange(b), min(1, b - 1), b >> 1))
    a = q * b + rem
    if r.random() < 0.15:
        a += r.choice((-1, 1))
    return abs(a), b


def c02(r, tier, shard, ns):
    N = {"ndiv": lambda a, b: a // b, "nrem": lambda a, b: a % b}
    I = {"idiv": tdiv, "irem": trem, "ideu": deu, "ireu": reu}

    def en(a, b, forms, lit=ln):
        for o, f0 in N.items():
            for f in forms:
                x, y = (a, a) if f in "st" else (a, b)
                yield "%s/%s" % (o, f), "%s %s %s %s" % (o, f, lit(r, a), lit(r, b)), "!P" if y == 0 else rn(f0(x, y))

    def ei(a, b, forms):
        for o, f0 in I.items():
            for f in forms:
                x, y = (a, a) if f in "st" else (a, b)
                yield "%s/%s" % (o, f), "%s %s %s %s" % (o, f, li(r, a), li(r, b)), "!P" if y == 0 else ri(f0(x, y))

    def ew(a, k, forms):
        for o, f0 in (("ndivw", N["ndiv"]), ("nremw", N["nrem"])):
            for f in forms:
                yield "%s/%s" % (o, f), "%s %s %s %x" % (o, f, ln(r, a), k), "!P" if k == 0 else rn(f0(a, k))

    for a, b in shards([(a, b) for a in SMALL for b in SMALL], shard, ns):
        yield from en(a, b, "va")
        for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            yield from ei(s * a, t * b, "v")
    for a, b in bitgrid(r, shard, ns):
        yield from en(a, b, r.choice("va"))
        yield from ei(a if r.random() < .5 else -a, b if r.random() < .5 else -b, r.choice("va"))
        if a * b and r.random() < .5:  # around exact quotients
            c = a * b + r.choice((-1, 0, 1, b - 1, r.randrange(b)))
            yield from en(c, b, "v")
            yield from ei(r.choice((c, -c)), r.choice((b, -b)), "v")
        if b >> 32 == 0:
            yield from ew(a, b, r.choice("va"))
    for a in shards(SMALL, shard, ns):
        yield from en(a, a, "st")
        yield from ei(a, a, "st")
        yield from ei(-a, a, "st")
        for k in SPECW:
            yield from ew(a, k, "va")
    for a, b in shards([(a, b) for a in range(-40, 41) for b in range(-12, 13)], shard, ns):
        yield from ei(a, b, "v" if r.random() < 0.7 else "a")
    for i, j in shards(lens_grid(T(tier, 40, 80)), shard, ns):
        a, b = pat(r, i), pat(r, j)
        yield from en(a, b, "va"[r.randrange(2)])
        q, rem = pat(r, i), r.choice((0, b - 1))
        yield from en(q * b + rem, b, "v")
    for n in shards(range(1, T(tier, 200, 700)), shard, ns):
        x = pat(r, n)
        yield from en(x, x, "st")
        yield from en(x, x + 1, "v")
        yield from en(x + 1, x, "v")
        yield from en(1 << (32 * n), (1 << (32 * n)) - 1, "v")
        yield from en((1 << (64 * n)) - 1, (1 << (32 * n)) - 1, "va")
        yield from en((1 << (64 * n)) - 1, (1 << (32 * n)) + 1, "va")
        yield from ew(x, r.choice(SPECW), "va")
        yield from ew((1 << (32 * n)) - 1, r.choice(SPECW[1:]), "v")
        yield from ei(-x, x, "v")
        yield from ei(-x, r.choice((1, -1, 2, -2, x + 1, -x - 1)), "va")
    for n in shards([x for x in BIGLENS[: T(tier, 30, 99)] for _ in range(T(tier, 1, 4))], shard, ns):
        m = r.choice((n, n // 2, n - 1, 1, 2, 40, n // 3)) or 1
        yield from en(pat(r, n), pat(r, m), "v")
        b = pat(r, m)
        yield from en(b * pat(r, max(1, n - m)) + r.choice((0, b - 1)), b, "a")
    for n in shards([x for x in (700, 900, 1100, 1500, 2048, 2049) for _ in range(T(tier, 1, 4))], shard, ns):
        m = r.choice((n // 2, n - 1, 3, 100, n // 3))
        b = pat(r, m)
        yield from en(pat(r, n), b, "v")
        yield from en(b * pat(r, n - m) + r.choice((0, b - 1)), b, "a")
        yield from ei(-pat(r, n), b, "v")
        yield from ew(pat(r, n), r.choice(SPECW), "va")
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 1, 4)):
        yield from en(a, b, r.choice("vma"))
        yield from en(b, a, r.choice("va"))
        q = r.choice((1, shaped(r, r.choice((1, 2, 3, n if n < 100 else 5)))))
        c = a * q + r.choice((0, 0, a - 1, a >> 1, min(1, a - 1)))
        yield from en(c, a, r.choice("va"))
        for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            yield from ei(s * a, t * b, r.choice("vma"))
            yield from ei(s * c, t * a, r.choice("va"))
            if r.random() < .3:
                yield from ei(s * b, t * a, r.choice("va"))
            yield from ei(s * a, t * (r.choice((1, 2, 10, M32)) if r.random() < .4 else r.getrandbits(32) or 1), r.choice("va"))
        for k in (1, 2, 3, 10, r.randrange(1, 256), r.choice(SPECW[1:]), r.getrandbits(32) or 1):
            yield from ew(a, k, r.choice("vma"))
    for k in shards(range(1, 300), shard, ns):
        for n in (1, 2, 3, 5, 9):
            yield from ew(pat(r, n), k, r.choice("va"))
            yield from ew((1 << 32 * n) - k, M32 - k, r.choice("va"))
    for _ in range(T(tier, 10000, 60000)):
        a, b = divpair(r, r.choice((60, 60, 60, 200)))
        yield from en(a, b, r.choice(("v", "m", "a", "va", "st")))
        yield from ew(a, r.choice(SPECW) if r.random() < 0.5 else r.getrandbits(32), r.choice("vma"))
        a, b = divpair(r, 25)
        yield from ei(r.choice((1, -1)) * a, r.choice((1, -1)) * b, r.choice(("v", "m", "a", "s", "t")))


def c03(r, tier, shard, ns):
    def k(a, b, f="v"):
        x, y = (a, a) if f == "s" else (a, b)
        yield "nkara/%s" % f, "nkara %s %s %s" % (f, ln(r, a), ln(r, b)), rn(x * y)

    def s(a):
        yield "nsqr", "nsqr %s" % ln(r, a), rn(a * a)
        if r.random() < 0.3:
            yield "isqr", "isqr %s" % li(r, -a if r.random() < 0.5 else a), rn(a * a)

    for a, b in shards([(a, b) for a in SMALL for b in SMALL], shard, ns):
        yield from k(a, b)
    for a, b in bitgrid(r, shard, ns):
        yield from k(a, b)
        yield from s(a)
    for a in shards(SMALL, shard, ns):
        yield from s(a)
        yield from k(a, a, "s")
    # every length: square, equal lengths, neighbours; dense patterns
    for n in shards(range(1, T(tier, 700, 1500)), shard, ns):
        ones = (1 << (32 * n)) - 1
        yield from s(ones)
        yield from s(pat(r, n))
        yield from s(1 << (32 * n - 1))
        yield from s(pat(r, n))
        yield from k(ones, ones, "s")
        yield from k(pat(r, n), pat(r, n))
        yield from k(pat(r, n), pat(r, max(1, n - 1)))
        yield from k(pat(r, n), pat(r, max(1, n // 2)))
        # halves with zero runs / equal halves (the Karatsuba cross terms vanish or go negative)
        h = max(1, n // 2)
        lo, hi = pat(r, h), pat(r, max(1, n - h))
        yield from k((hi << (32 * h)), (hi << (32 * h)) | lo)
        yield from k((hi << (32 * h)) | 1, lo)
        yield from s((hi << (32 * h)) | hi & ((1 << (32 * h)) - 1))
        yield from s((hi << (32 * h)) | (lo >> (32 * (h // 2))))
    for i, j in shards([(i, j) for i in range(30, T(tier, 100, 150)) for j in range(30, T(tier, 100, 150)) if tier == "thorough" or (i * 7 + j) % 3 == 0 or abs(i - j) < 3], shard, ns):
        yield from k(pat(r, i), pat(r, j))
    for n in shards([x for x in BIGLENS + [1200, 1500, 2048, 2049, 2100] for _ in range(T(tier, 3, 20))], shard, ns):
        yield from k(pat(r, n), pat(r, r.choice((n, n - 1, n + 1, n // 2, n // 2 + 1, n // 3 + 1, 41, 40, 39, r.choice(BIGLENS)))))
        yield from s(pat(r, n))
    for n in shards([x for x in HUGELENS[5:] for _ in range(T(tier, 1, 6))], shard, ns):
        yield from k(pat(r, n), pat(r, r.choice((n, n - 1, n // 2, r.randrange(40, n)))))
        yield from s(pat(r, n))
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 1, 6)):
        yield from k(a, b)
        yield from k(b, a)
        yield from k(a, a, "s")
        yield from s(a)
        yield "isqr", "isqr %s" % li(r, -a), rn(a * a)
    for _ in range(T(tier, 16000, 40000)):
        a, b = pair(r, 170)
        yield from k(a, b, r.choice("vvs"))
        yield from s(a)


def c04(r, tier, shard, ns):
    def sh(a, d, f, kind="n"):
        lit, ren = (ln, rn) if kind == "n" else (li, ri)
        yield kind + "shl/" + f, "%sshl %s %s %d" % (kind, f, lit(r, a), d), ren(a << d)
        yield kind + "shr/" + f, "%sshr %s %s %d" % (kind, f, lit(r, a), d), ren(a >> d)

    vals = SMALL + [(1 << 160) - 1, 0xDEADBEEF0123456789ABCDEFFEDCBA9876543210, (1 << 200) + 1, 3 << 128, 1 << 96]
    for d in shards(range(0, 300), shard, ns):
        for a in vals:
            yield from sh(a, d, "va"[(a + d) & 1])
            yield from sh(-a, d, "va"[(a + d + 1) & 1], "i")
    for i, d in shards([(i, d) for i in BITS for d in range(0, 132)], shard, ns):
        a = r.choice((1 << (i - 1), (1 << i) - 1, 1 << (i - 1) | r.getrandbits(i)))
        yield from sh(a, d, r.choice("va"))
        yield from sh(r.choice((a, -a)), d, r.choice("va"), "i")
    for n in shards(range(1, T(tier, 120, 400)), shard, ns):
        ds = {0, 1, 31, 32, 33, 63, 64, 65, 32 * n - 1, 32 * n, 32 * n + 1, 32 * (n - 1), max(0, 32 * (n - 1) - 1), 32 * (n - 1) + 1, 32 * r.randrange(0, n + 2), r.randrange(0, 32 * n + 40), 32 * n + 1000}
        for d in sorted(ds):
            a = pat(r, n)
            yield from sh(a, d, r.choice("va"))
            yield from sh(r.choice((a, -a, -(a >> d << d), -((a >> d << d) | 1))), d, r.choice("va"), "i")
    for n in shards([x for x in BIGLENS + HUGELENS for _ in range(T(tier, 2, 8))], shard, ns):
        for d in (0, 1, 31, 32, 64, 32 * (n - 1), 32 * n - 1, 32 * n, 32 * r.randrange(n + 2), r.randrange(32 * n + 40)):
            a = pat(r, n)
            yield from sh(a, d, r.choice("va"))
            yield from sh(r.choice((a, -a, -(a >> d << d), -((a >> d << d) | 1))), d, r.choice("va"), "i")
    for n in shards([x for x in SWEEP for _ in range(T(tier, 1, 5))], shard, ns):
        for k in range(10):
            a = shape(r, n, k)
            for d in (r.randrange(1, 32), r.choice((31, 32, 33, 63, 64)), 32 * r.randrange(1, n + 3), r.randrange(32 * n), 32 * n - 1 - r.randrange(31), 32 * n):
                yield from sh(a, d, r.choice("vma"))
                yield from sh(-a, d, r.choice("vma"), "i")
                if r.random() < .3:
                    yield from sh(a, d, r.choice("vma"), "i")
            # exact and inexact: the bits below the cut are all zero / a single one anywhere below
            d = r.randrange(1, 32 * n)
            c = (a >> d << d)
            yield from sh(-c or -1, d, r.choice("va"), "i")
            yield from sh(-(c | 1 << r.randrange(d)), d, r.choice("va"), "i")
    for d in shards(range(0, 7000, T(tier, 3, 1)), shard, ns):
        yield from sh(pat(r, r.choice((1, 2, 3, 7))), d, r.choice("va"), r.choice("ni"))
        yield from sh(-pat(r, 1 + d // 32), d, r.choice("va"), "i")
    for _ in range(T(tier, 40000, 100000)):
        a = gn(r, r.choice((60, 60, 200)))
        k = r.random()
        d = r.randrange(0, 70) if k < 0.3 else 32 * r.randrange(0, 40) if k < 0.55 else r.randrange(0, 2500) if k < 0.8 else max(0, a.bit_length() + r.randrange(-3, 4))
        yield from sh(a, d, r.choice("vma"))
        b = -a if r.random() < 0.7 else a
        if r.random() < 0.3:
            b = (b >> d) << d
        yield from sh(b, d, r.choice("vma"), "i")
    # far beyond the value: 0 / -1, and large left shifts
    for d in shards([10000, 65535, 65536, 100000, 1 << 20, (1 << 20) + 31], shard, ns):
        for a in (1, 0, M32, pat(r, 5)):
            yield from sh(a, d, "v")
            yield from sh(-a, d, "a", "i")
    for d in shards([1 << 40, (1 << 63) - 1, (1 << 64) - 1, 1 << 63, (1 << 64) - 32, (1 << 32), (1 << 32) + 1, (1 << 37)], shard, ns):
        for a in (1, 0, M32, pat(r, 5), 5, 1 << 64):
            for f in "va":
                yield "nshr/" + f, "nshr %s %s %d" % (f, ln(r, a), d), rn(0)
                yield "ishr/" + f, "ishr %s %s %d" % (f, li(r, a), d), ri(0)
                yield "ishr/" + f, "ishr %s %s %d" % (f, li(r, -a), d), ri(-1 if a else 0)
                if a == 0:
                    yield "nshl/" + f, "nshl %s %s %d" % (f, ln(r, 0), d), rn(0)
                    yield "ishl/" + f, "ishl %s %s %d" % (f, li(r, 0), d), ri(0)


def nnot(a):
    return a ^ ((1 << max(1, a.bit_length())) - 1)


def bitprobe(r, a, blen):
    L = blen
    idx = sorted({i for i in [0, 1, L - 2, L - 1, L, L + 1, 31, 32, 33, 63, 64, L + 31, L + 32, L // 2, r.randrange(L + 5), (L | 31), (L | 31) + 1] if i >= 0})
    if L <= 40:
        idx = list(range(0, 70))
    if r.random() < .2:
        idx.append(r.choice(((1 << 64) - 1, 1 << 63, 1 << 40, 1 << 37, 1 << 32, L + (1 << 32), L - 1 + (1 << 32))))
    return idx


def c05(r, tier, shard, ns):
    F = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "andn": lambda a, b: a & ~b}

    def e(a, b, forms, kind):
        lit, ren = (ln, rn) if kind == "n" else (li, ri)
        for o, f0 in F.items():
            for f in forms:
                x, y = (a, a) if f in "st" else (a, b)
                yield kind + o + "/" + f, "%s%s %s %s %s" % (kind, o, f, lit(r, a), lit(r, b)), ren(f0(x, y))

    def un(a):
        yield "nnot", "nnot %s" % ln(r, a), rn(nnot(a))
        for v in (a, -a):
            yield "inot", "inot %s" % li(r, v), ri(~v)
        L = max(1, a.bit_length())
        if a:
            yield "nmisc", "nmisc %s" % ln(r, a), "%d %d 0" % (L, (a & -a).bit_length() - 1)
        else:
            yield "nmisc", "nmisc %s" % ln(r, a), lambda s: None if s.split()[0] == "1" and s.split()[2] == "0" else "bits_len(0) is 1"
        idx = bitprobe(r, a, L)
        yield "nbit", "nbit %s %s" % (ln(r, a), " ".join(map(str, idx))), "".join("x" if i >= L else str(a >> i & 1) for i in idx)
        for v in (a, -a):
            yield "ibit", "ibit %s %s" % (li(r, v), " ".join(map(str, idx))), "".join("x" if i >= L else str(v >> i & 1) for i in idx)

    for a, b in shards([(a, b) for a in SMALL for b in SMALL], shard, ns):
        yield from e(a, b, "va", "n")
        for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            yield from e(s * a, t * b, "va"[r.randrange(2)], "i")
    for a, b in shards([(a, b) for a in range(-20, 21) for b in range(-20, 21)], shard, ns):
        yield from e(a, b, "v", "i")
    for a, b in bitgrid(r, shard, ns):
        yield from e(a, b, r.choice("va"), "n")
        yield from e(r.choice((a, -a)), r.choice((b, -b)), r.choice("va"), "i")
        if r.random() < .2:
            yield from un(a)
    for a in shards(SMALL + list(range(300)), shard, ns):
        yield from un(a)
        yield from e(a, a, "st", "n")
        yield from e(a, a, "st", "i")
        yield from e(-a, a, "st", "i")
    for i, j in shards(lens_grid(T(tier, 30, 60)), shard, ns):
        a, b = pat(r, i), pat(r, j)
        yield from e(a, b, r.choice("va"), "n")
        yield from e(r.choice((a, -a)), r.choice((b, -b)), r.choice("va"), "i")
    for n in shards(range(1, T(tier, 200, 600)), shard, ns):
        top = 1 << (32 * n)
        for a in (top - 1, top, top + 1, top >> 1, pat(r, n)):
            yield from un(a)
            for b in (-top, 1 - top, -1 - top, -1, -a, 1 - a, a - 1, -(top >> 1)):
                yield from e(a, b, r.choice("va"), "i")
                yield from e(-a, b, r.choice("va"), "i")
        yield from e(top - 1, pat(r, n), "va", "n")
        yield from e(pat(r, n), pat(r, n), "st", "i")
        yield from e(-pat(r, n), pat(r, n), "st", "i")
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 2, 8)):
        for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            yield from e(s * a, t * b, r.choice("vma"), "i")
        yield from e(r.choice((b, -b)), r.choice((a, -a)), r.choice("va"), "i")
        yield from e(-a, -a, r.choice("st"), "i")
        yield from e(a, b, r.choice("vmast"), "n")
        yield from e(b, a, r.choice("va"), "n")
        yield from un(a)
    for n in shards([x for x in BIGLENS + HUGELENS for _ in range(T(tier, 1, 6))], shard, ns):
        m = r.choice((n, n - 1, n + 1, n // 2, 1, r.choice(BIGLENS)))
        a, b = pat(r, n), pat(r, m)
        yield from e(a, b, r.choice("va"), "n")
        yield from e(b, a, r.choice("va"), "n")
        yield from e(r.choice((a, -a)), r.choice((b, -b)), r.choice("va"), "i")
        yield from e(-b, r.choice((a, -a)), r.choice("va"), "i")
        yield from un(a)
    for _ in range(T(tier, 12000, 50000)):
        a, b = pair(r, 60)
        yield from e(a, b, r.choice("vmast"), "n")
        a, b = pair(r, 40, gi)
        yield from e(a, b, r.choice("vmast"), "i")
        yield from un(gn(r, 40))


def c08(r, tier, shard, ns):
    F = {"iadd": lambda a, b: a + b, "isub": lambda a, b: a - b, "imul": lambda a, b: a * b}

    def sgn(v):
        return (v > 0) - (v < 0)

    def e(a, b, forms):
        for o, f0 in F.items():
            for f in forms:
                x, y = (a, a) if f in "st" else (a, b)
                yield o + "/" + f, "%s %s %s %s" % (o, f, li(r, a), li(r, b)), ri(f0(x, y))

    def un(v):
        yield "ineg", "ineg " + li(r, v), ri(-v)
        yield "iabs", "iabs " + li(r, v), ri(abs(v))
        yield "isqr", "isqr " + li(r, v), ri(v * v)
        yield "iset", "iset " + li(r, v), "%s %s" % (ri(-abs(v)), ri(abs(v)))
        # is_positive: > 0; is_natural: >= 0
        yield "isgn", "isgn " + li(r, v), "%d%d%d %d %d 0 %s" % (v < 0, v > 0, v >= 0, sgn(v), max(1, v.bit_length()), rn(abs(v)))

    for a, b in shards([(a, b) for a in SMALL for b in SMALL], shard, ns):
        for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            yield from e(s * a, t * b, "va"[r.randrange(2)])
    for a, b in bitgrid(r, shard, ns):
        a, b = (a if r.random() < .5 else -a), (b if r.random() < .5 else -b)
        yield from e(a, b, r.choice("va"))
        yield from un(a)
    for a, b in shards([(a, b) for a in range(-20, 21) for b in range(-20, 21)], shard, ns):
        yield from e(a, b, "va")
    for a in shards(SMALL, shard, ns):
        for v in (a, -a):
            yield from un(v)
            yield from e(v, v, "st")
    for i, j in shards(lens_grid(T(tier, 30, 60)), shard, ns):
        yield from e(r.choice((1, -1)) * pat(r, i), r.choice((1, -1)) * pat(r, j), r.choice("va"))
    for n in shards(range(1, T(tier, 200, 600)), shard, ns):
        top = 1 << (32 * n)
        x = pat(r, n)
        for a, b in ((top, -1), (-top, 1), (top - 1, 1), (1 - top, -1), (x, -x), (-x, x), (x, 1 - x), (-x, x - 1), (-x, x + 1), (x, -1 - x), (x, 0), (0, -x), (-x, 0)):
            yield from e(a, b, r.choice("va"))
        yield from e(x, x, "st")
        yield from e(-x, x, "st")
        yield from un(x)
        yield from un(-x)
    for n in shards(BIGLENS[: T(tier, 20, 99)], shard, ns):
        yield from e(pat(r, n), -pat(r, r.choice((n, n // 2, n - 1))), "v")
    for n in shards(HUGELENS, shard, ns):
        a, b = pat(r, n), pat(r, r.choice((n, n - 1, n // 2, 40)))
        for s in (1, -1):
            for o, f0 in list(F.items())[:2]:
                yield o + "/v", "%s v %s %s" % (o, li(r, s * a), li(r, -b)), ri(f0(s * a, -b))
                yield o + "/a", "%s a %s %s" % (o, li(r, s * b), li(r, a)), ri(f0(s * b, a))
        yield from un(-pat(r, n // 3))
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 1, 5)):
        for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            yield from e(s * a, t * b, r.choice("vma"))
            yield from e(t * b, s * a, r.choice("va"))
        yield from e(r.choice((a, -a)), 0, r.choice("vast"))
        yield from un(a)
        yield from un(-a)
    for _ in range(T(tier, 40000, 100000)):
        a, b = pair(r, r.choice((50, 50, 50, 160)), gi)
        yield from e(a, b, r.choice(("v", "m", "a", "s", "t")))
        if r.random() < 0.4:
            yield from un(a)


def c11(r, tier, shard, ns):
    def np(a, b, f="v"):
        e = a ** (a if f == "s" else b)
        yield "npow/" + f, "npow %s %s %s" % (f, ln(r, a), ln(r, b)), rn(e)

    def pm(a, b, n):
        if n == 0:
            return a ** b
        return pow(a, b, n)

    def nm(a, b, n, f="v"):
        b2, n2 = {"v": (b, n), "e": (a, n), "n": (b, a), "q": (b, b)}[f]
        if n2 == 0 and a > 1 and b2 * a.bit_length() > 40000:
            return
        x = pm(a, b2, n2)
        for o in ("npowm", "nexp"):
            yield o + "/" + f, "%s %s %s %s %s" % (o, f, ln(r, a), ln(r, b), ln(r, n)), rn(x)

    def ix(a, b, n, f="v"):
        b2, n2 = {"v": (b, n), "e": (a, n), "n": (b, a), "q": (b, b)}[f]
        m = abs(n2)
        if m == 0:
            if b2 > 0 and abs(a) > 1 and b2 * a.bit_length() > 40000:
                return
            x = a ** b2 if b2 > 0 else 1
        elif b2 >= 0:
            x = pow(a, b2, m)
        else:
            if gcd(a, m) != 1:
                return
            x = pow(a, b2, m)
        yield "iexp/%s/%s%s%s" % (f, "-" if a < 0 else "+", "-" if b2 < 0 else "+", "0" if m == 0 else "-" if n2 < 0 else "+"), "iexp %s %s %s %s" % (f, li(r, a), li(r, b), li(r, n)), ri(x)

    S = list(range(0, 14))
    for a, b in shards([(a, b) for a in range(0, 20) for b in range(0, 40)], shard, ns):
        yield from np(a, b)
        yield from nm(a, b, 0)
        for n in range(0, 20):
            yield from nm(a, b, n)
    for a, b in shards([(a, b) for a in range(-12, 13) for b in range(-9, 10)], shard, ns):
        for n in range(-13, 14):
            yield from ix(a, b, n)
    for a in shards(SMALL, shard, ns):
        for b in SMALL:
            if a <= 1 or b * a.bit_length() < 30000:
                yield from np(a, b)
            for n in r.sample(SMALL, 12):
                yield from nm(a, b, n)
                yield from ix(r.choice((a, -a)), r.choice((b, -b)), r.choice((n, -n)))
        if a < 200:
            yield from np(a, a, "s")
        for f in "enq":
            yield from nm(a, r.choice(SMALL), r.choice(SMALL), f)
            yield from ix(r.choice((a, -a)), r.choice(SMALL), r.choice(SMALL), f)
    # powers around the machine words, modular powers of every bit length
    for i, e in shards([(i, e) for i in range(1, 70) for e in range(0, 140)], shard, ns):
        if i * e <= 400 or r.random() < .1:
            a = r.choice((1 << (i - 1), (1 << i) - 1, 1 << (i - 1) | r.getrandbits(i)))
            yield from np(a, e)
            yield from nm(a, e, r.choice((0, 1 << r.randrange(70), r.getrandbits(r.randrange(1, 70)))))
            yield from ix(r.choice((a, -a)), e, r.choice((0, 1, -1)) * r.getrandbits(r.randrange(1, 70)))
    for a, n in bitgrid(r, shard, ns):
        b = r.getrandbits(r.choice((1, 8, 31, 32, 33, 64, 65, r.randrange(1, 140))))
        yield from nm(a, b, n)
        if r.random() < .5:
            yield from ix(r.choice((a, -a)), r.choice((b, b, -b)), r.choice((n, -n)))
    for i in shards([i for i in range(2, 70) for _ in range(T(tier, 6, 30))], shard, ns):
        # both residues and the exponent close to the modulus
        n = r.choice((1 << (i - 1) | r.getrandbits(i) | 1, max(1, (1 << i) - r.randrange(1, 10)), 1 << (i - 1)))
        for a in (n - 1, n + 1, abs(n - 2), n // 2, n, r.randrange(n + 1)):
            yield from nm(a, r.choice((2, 3, n - 1, n, r.randrange(n + 1))), n)
    # bases 0 and 1 with exponents of every length, every limb pattern
    for n in shards(range(1, T(tier, 60, 200)), shard, ns):
        for a in (0, 1):
            for e in (pat(r, n), 1 << (32 * (n - 1)), (1 << (32 * n)) - 1, 1 << (32 * n - 1)):
                yield from np(a, e)
                yield from nm(a, e, 0)
                yield from nm(a, e, r.choice((1, 2, 3, pat(r, 2))))
                yield from ix(r.choice((-1, 1, 0)), e, r.choice((0, 7, -9)))
        # exponents whose top limb is 1 etc., moduli of every length and parity
        m = pat(r, n)
        if n < 40 or tier == "thorough":
            eb = r.choice((1, 17, 65, 33, 32, 100, 40))
            e = r.choice((r.getrandbits(eb), 1 << eb, (1 << eb) - 1, 65537, 2, 3))
            for mm in (m | 1, m & ~1 or 2, 1 << (32 * n - 1), 1 << (32 * n - r.randrange(1, 32)), m):
                yield from nm(r.choice((pat(r, n), pat(r, n + 1), mm - 1, mm + 1, mm, 2, pat(r, 1))), e, mm, "v")
                yield from ix(r.choice((-1, 1)) * pat(r, n), r.choice((1, -1)) * e, r.choice((-1, 1)) * (mm | 1))
    # plain powers with long exponents (results up to ~200k bits), all neighbours of powers of two
    ex = sorted({x for k in range(4, 14) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1), (1 << k) + (1 << (k - 2)) + 1)})
    for e in shards([x for x in ex for _ in range(T(tier, 1, 4))], shard, ns):
        for a in (2, 3, 7, 10, 255, 65535, 65537, M32, 1 << 31, r.getrandbits(24) | 1, r.getrandbits(31), pat(r, 2), pat(r, 3)):
            if e * a.bit_length() < T(tier, 150000, 400000):
                yield from np(a, e)
                if r.random() < .3:
                    x = a ** e
                    yield "npowm/0", "npowm v %s %s x0" % (ln(r, a), ln(r, e)), rn(x)
                    yield "iexp/0", "iexp v %s %s x0" % (li(r, -a), li(r, e)), ri((-a) ** e)
                m = pat(r, r.randrange(1, 6))
                yield from nm(a, e, m)
    # wide moduli
    for n in shards([x for x in (41, 45, 50, 63, 64, 65, 80, 81, 100, 127, 128, 129) for _ in range(T(tier, 1, 5))], shard, ns):
        for m in (pat(r, n) | 1, pat(r, n) & ~1, (1 << (32 * n)) - 1, (1 << (32 * n - 1)) + 1, pat(r, n - 3) << 96 | 1 << 32):
            yield from nm(r.choice((pat(r, n), pat(r, n + 3), m - 1)), r.choice((3, 65537, r.getrandbits(40), 1 << 33)), m)
            yield from ix(-pat(r, n), r.choice((1, 1, -1)) * r.getrandbits(20), m)
    for n, a, b in shaped_pairs(r, shard, ns, 1, T(tier, 66, 300)):
        if n <= 66:
            yield from np(a, r.choice((0, 1, 2, 3)))
        m, e = shaped(r, r.choice((1, 2, n, max(1, n - 1)))), r.choice((1, 2, 3, r.getrandbits(10), r.getrandbits(33), shaped(r, 1)))
        yield from nm(r.choice((a, b)), e, r.choice((m, m | 1, b | 1)))
        yield from nm(b, e, a, "v")
        yield from ix(r.choice((1, -1)) * a, r.choice((1, -1)) * e, r.choice((1, -1)) * (m | 1))
        yield from ix(r.choice((1, -1)) * b, e, r.choice((1, -1)) * a)
        # short operands, an exponent of n limbs
        yield from nm(shaped(r, r.choice((1, 2))), a, shaped(r, r.choice((1, 1, 2, 3))))
        yield from ix(r.choice((1, -1)) * shaped(r, 1), r.choice((1, -1)) * a, r.choice((1, -1)) * (shaped(r, r.choice((1, 2))) | 1))
    for _ in range(T(tier, 6000, 30000)):
        a = gn(r, 12)
        if a.bit_length() < 3000:
            e = r.randrange(0, 12) if a.bit_length() > 200 else r.randrange(0, 60)
            yield from np(a, e)
            yield from nm(a, e, 0)
            yield from ix(-a, e, 0)
        e = gn(r, r.choice((1, 1, 2, 3, 5)))
        n = gn(r, 10)
        if r.random() < 0.3:
            a = (a * n + r.choice((0, 1, -1, n // 2))) if n else a
            a = abs(a)
        yield from nm(a, e, n, r.choice("vvvvn"))
        yield from ix(r.choice((1, -1)) * a, r.choice((1, 1, -1)) * e, r.choice((1, -1)) * n, r.choice("vvvvn"))
        f = r.choice("eq")
        yield from nm(gn(r, 3), gn(r, 2), gn(r, 3), f)
        yield from ix(gi(r, 3), gi(r, 2), gi(r, 3), f)


def parse_ri(s):
    if s == "N":
        return None
    neg = s.startswith("-")
    h = s[1:] if neg else s
    v = int(h, 16)
    if ri(-v if neg else v) != s:
        raise ValueError("non-canonical %s" % s)
    return -v if neg else v


def egcd_ab(r, maxl):
    k = r.random()
    if k < 0.4:
        return pair(r, maxl, gi)
    if k < 0.7:
        g, x, y = gn(r, maxl // 2 + 1), gi(r, maxl // 2 + 1), gi(r, maxl // 2 + 1)
        return g * x, g * y
    if k < 0.85:  # consecutive Fibonacci-like (many quotients 1)
        a, b = r.randrange(1, 5), r.randrange(1, 5)
        for _ in range(r.randrange(1, 400)):
            a, b = b, a + b * (1 if r.random() < 0.9 else r.getrandbits(8))
        return r.choice((a, -a)), r.choice((b, -b))
    a = gi(r, maxl)
    return a, a * gi(r, 2)


def c12(r, tier, shard, ns):
    def g(a, b, f="v"):
        if f == "s":
            b = a

        def chk(s):
            p = s.split(" ")
            if len(p) != 3:
                return "gcd changed an operand: " + s
            try:
                d, x, y = map(parse_ri, p)
            except ValueError as e:
                return str(e)
            if None in (d, x, y):
                return "gcd is NaN"
            if d != gcd(a, b):
                return "gcd should be %d" % gcd(a, b)
            if a * x + b * y != d:
                return "a*x+b*y != d"

        yield "igcd/" + f, "igcd %s %s %s" % (f, li(r, a), li(r, b)), chk

    def inv(a, n):
        if n and gcd(a, n) == 1:
            yield "iinv", "iinv %s %s" % (li(r, a), li(r, n)), ri(pow(a, -1, abs(n)) if abs(n) > 1 else 0)

    def lin(a, b, n):
        m = abs(n)
        if m == 0:
            return
        d = gcd(a, m)
        if d > 3000 and b % d == 0:
            return
        if b % d:
            yield "ilin/none", "ilin %s %s %s" % (li(r, a), li(r, b), li(r, n)), "none"
            return
        m2 = m // d
        x0 = (b // d) * (pow(a // d, -1, m2) if m2 > 1 else 0) % m2
        want = sorted(x0 + i * m2 for i in range(d))

        def chk(s):
            if s in ("none", "empty"):
                return "there are %d solutions" % d
            if " " in s:
                return "operand changed"
            try:
                got = sorted(parse_ri(x) for x in s.split(","))
            except (ValueError, TypeError) as e:
                return str(e)
            if got != want:
                return "solutions should be %s" % short_list(want)

        yield "ilin/d=%s" % ("1" if d == 1 else ">1"), "ilin %s %s %s" % (li(r, a), li(r, b), li(r, n)), chk

    for a, b in shards([(a, b) for a in range(-30, 31) for b in range(-30, 31)], shard, ns):
        yield from g(a, b)
        yield from inv(a, b)
    for a, b, n in shards([(a, b, n) for a in range(-9, 10) for b in range(-9, 10) for n in range(-13, 14)], shard, ns):
        yield from lin(a, b, n)
    for a, b in shards([(a, b) for a in SMALL for b in SMALL], shard, ns):
        for s, t in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            yield from g(s * a, t * b)
            yield from inv(s * a, t * b)
    for a, b in bitgrid(r, shard, ns):
        a, b = r.choice((a, -a)), r.choice((b, -b))
        yield from g(a, b)
        yield from inv(a, b)
        if r.random() < .3:
            k = r.getrandbits(r.randrange(1, 40)) + 1
            yield from g(a * k, b * k)
            yield from lin(a, r.getrandbits(r.randrange(1, 80)), b)
            yield from lin(a, r.getrandbits(r.randrange(1, 80)) * gcd(a, b) * r.choice((1, -1)), b)
    for a in shards(SMALL, shard, ns):
        yield from g(a, a, "s")
        yield from g(-a, a, "s")
    for i, j in shards(lens_grid(T(tier, 16, 30)), shard, ns):
        a, b = r.choice((1, -1)) * pat(r, i), r.choice((1, -1)) * pat(r, j)
        yield from g(a, b)
        yield from inv(a, b)
        yield from inv(a | 1, 1 << (32 * j))
    for n in shards([x for x in list(range(17, 66)) + [80, 100, 128, 129, 160, 200] for _ in range(T(tier, 2, 8))], shard, ns):
        a, b = egcd_ab(r, n)
        yield from g(a, b)
        yield from inv(a, b)
        yield from g(pat(r, n), -pat(r, max(1, n // 2)))
        m = pat(r, n)
        yield from inv(r.choice((1, -1)) * r.choice((pat(r, n), pat(r, n // 2), m - 1, m + 1, m // 2, pat(r, n + 5))), m)
        d = r.randrange(1, 40)
        yield from lin(gi(r, n // 2) * d, gi(r, n // 2) * d, pat(r, n // 2) * d)
    for n in shards([x for x in SWEEP if x <= 130 for _ in range(T(tier, 2, 6))], shard, ns):
        k = r.choice((1, 2, n, max(1, n // 2)))
        a, b = r.choice((1, -1)) * shaped(r, n), r.choice((1, -1)) * shaped(r, k)
        yield from g(a, b)
        yield from g(b, a)
        yield from inv(a, b)
        yield from inv(b, a)
        d = r.randrange(1, 30)
        for x, y, z in ((shaped(r, n), shaped(r, k), shaped(r, k)), (shaped(r, k), shaped(r, n), shaped(r, k)), (shaped(r, k), shaped(r, k), shaped(r, n))):
            yield from lin(r.choice((1, -1)) * x * d, r.choice((1, -1)) * y * d, r.choice((1, -1)) * z * d)
            yield from lin(x, r.choice((1, -1)) * y, r.choice((1, -1)) * z)
    # very long division chains: the driver's thread has an ordinary 8 MB stack
    for n in shards([300, 500, 700, 900] if tier == "quick" else [300, 500, 700, 900, 1300, 2000, 3000, 4000], shard, ns):
        a, b = 1, 1
        while b.bit_length() < 32 * n:
            a, b = b, a + b * (1 if r.random() < .97 else 2)
        yield from g(a, -b)
        yield from g(b, a)
        yield from inv(a, b)
        yield from lin(a, 7, b)
        yield from g(pat(r, n), pat(r, n))
    for _ in range(T(tier, 10000, 50000)):
        a, b = egcd_ab(r, r.choice((3, 10, 20)))
        yield from g(a, b, "s" if r.random() < 0.03 else "v")
        yield from inv(a, b)
        n = gi(r, 6)
        d = r.randrange(1, 60)
        a, b = gi(r, 6), gi(r, 6)
        k = r.random()
        if k < 0.5:
            n, a = n * d, a * d
            if r.random() < 0.8:
                b = b * gcd(a, n)
        elif k < 0.7:
            a = n * r.choice((0, 1, -1, 2)) + r.choice((0, 1, -1, d))
        yield from lin(a, b, n)


def short_list(l):
    return str(l) if len(l) < 8 else str(l[:8]) + "..."


def jacobi(a, n):
    a %= n
    t = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                t = -t
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            t = -t
        a %= n
    return t if n == 1 else 0


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    import random as _r

    rr = _r.Random(n)
    bases = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] + ([rr.randrange(2, n - 1) for _ in range(20)] if n > 3317044064679887385961981 else [])
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


SMALLP = [p for p in range(3, 2000) if is_prime(p)]
BIGP = [(1 << 61) - 1, (1 << 89) - 1, (1 << 107) - 1, (1 << 127) - 1, (1 << 255) - 19, (1 << 521) - 1, (1 << 224) - (1 << 96) + 1, (1 << 256) - (1 << 224) + (1 << 192) + (1 << 96) - 1,
        998244353, 3 * (1 << 30) + 1, (1 << 64) - (1 << 32) + 1, (1 << 32) - 5, (1 << 31) - 1, 65537, 4179340454199820289, 0x73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001,
        (1 << 64) - 59, (1 << 96) - 17, (1 << 128) - 159]
BIGP = [p for p in BIGP if is_prime(p)]
# primes of 600+ bits and of high 2-adicity 
HUGEP = [(1 << 607) - 1, (1 << 1279) - 1, (3 << 66) + 1, (9 << 63) + 1, (5 << 75) + 1, (5 << 85) + 1, (7 << 92) + 1, (5 << 127) + 1, (7 << 120) + 1, (3 << 189) + 1]


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "primes.txt")) as _f:
    LIMBP = [int(l, 16) for l in _f]


def rand_prime(r, bits, mod8=None):
    while True:
        p = r.getrandbits(bits) | (1 << (bits - 1)) | 1
        if mod8 is not None:
            p = (p & ~7) | mod8
        if is_prime(p):
            return p


def c13(r, tier, shard, ns):
    def j(a, n):
        v = jacobi(a, n)
        yield "ijac/" + ("%d" % v), "ijac %s %s" % (li(r, a), li(r, n)), str(v)
        if r.random() < .4:
            # Kronecker's convention for a negative odd lower argument
            k = -v if a < 0 else v
            yield "ijac/neg/" + ("%d" % k), "ijac %s %s" % (li(r, a), li(r, -n)), str(k)

    def ms(a, p):
        res = a % p == 0 or pow(a, (p - 1) // 2, p) == 1
        tag = "imsq/%s/p%%8=%d" % ("root" if res else "none", p % 8)
        if not res:
            yield tag, "imsq %s %s" % (li(r, a), li(r, p)), "none"
        else:
            def chk(s):
                if s == "none":
                    return "a root exists"
                try:
                    v = parse_ri(s)
                except ValueError as e:
                    return "bad response " + str(e)
                if v is None or not (0 <= v < p) or (v * v - a) % p:
                    return "not a root in [0,p)"
            yield tag, "imsq %s %s" % (li(r, a), li(r, p)), chk

    for n in shards(range(1, T(tier, 200, 500), 2), shard, ns):
        for a in list(range(-40, 41)) + [n, -n, n - 1, n + 1, 2 * n, r.randrange(-n * n, n * n)]:
            yield from j(a, n)
    for a, n in bitgrid(r, shard, ns):
        yield from j(r.choice((a, -a)), n | 1)
    for p in shards(SMALLP[: T(tier, 60, 300)], shard, ns):
        for a in (range(-p, 2 * p) if p < 80 else [r.randrange(-p * p, p * p) for _ in range(60)] + [0, p, -p, 1, -1, p - 1]):
            yield from ms(a, p)
    for z in ("x0", "z0", "N"):
        yield "ijac/none", "ijac %s %s" % (li(r, gi(r, 3)), z), "none"
    for p in shards(BIGP, shard, ns):
        for _ in range(T(tier, 12, 60)):
            x = r.randrange(p)
            a = r.choice((x * x % p, x, -x, x * x % p + p, x * x % p - p, p - x * x % p, 0, p, p * p, 1, p - 1, 4, x * x))
            yield from ms(a, p)
            yield from j(a, p)
    for _ in range(T(tier, 350, 5000)):
        p = rand_prime(r, r.choice((5, 8, 16, 31, 32, 33, 48, 63, 64, 65, 80, 96, 128, 160, 200)), r.choice((1, 3, 5, 7)))
        # extra 2-adicity
        if r.random() < 0.3:
            k = r.randrange(4, 40)
            while True:
                p = (r.getrandbits(40) | 1) * (1 << k) + 1
                if is_prime(p):
                    break
        for _ in range(6):
            x = r.randrange(p)
            yield from ms(r.choice((x * x % p, x, -x, x * x, -x * x)), p)
            yield from j(r.choice((x, -x, x * x)), p)
    for p in shards(HUGEP, shard, ns):
        for _ in range(T(tier, 3, 12)):
            x = r.randrange(p)
            yield from ms(r.choice((x * x % p, x, -x, x * x, p - 1, 2, 3, 5, 7)), p)
            yield from j(x, p)
    # primes of every length, residue modulo 8 and shape
    for p in shards(LIMBP, shard, ns):
        n = (p.bit_length() + 31) // 32
        for _ in range(T(tier, 3, 8) if n <= 20 else 1):
            x = shaped(r, r.choice((n, n, 1, 2, n + 1)))
            yield from ms(r.choice((x * x % p, x * x % p, x, -x, x * x)), p)
        x = shaped(r, r.choice((n, n + 1, n + 3)))
        yield from j(r.choice((x, -x)), p)
    for n, a, b in shaped_pairs(r, shard, ns, T(tier, 1, 5)):
        for x, y in ((a, b | 1), (-a, b | 1), (b, a | 1), (-b, a | 1)):
            yield from j(x, y)
            if r.random() < .7:
                v = jacobi(x, y)
                k = -v if x < 0 else v
                yield "ijac/neg/%d" % k, "ijac %s %s" % (li(r, x), li(r, -y)), str(k)
    for n in shards([x for x in SWEEP for _ in range(T(tier, 3, 10))], shard, ns):
        yield from j(r.choice((1, -1)) * shaped(r, n), shaped(r, r.choice((1, 2, n, max(1, n - 1), n + 1))) | 1)
        yield from j(r.choice((1, -1)) * shaped(r, r.choice((1, 2, max(1, n // 2)))), shaped(r, n) | 1)
    for n in shards([x for x in list(range(9, 66)) + [80, 100, 128, 130] for _ in range(T(tier, 6, 30))], shard, ns):
        m, a = pat(r, n) | 1, gi(r, r.choice((n, n + 2, 3)))
        yield from j(a, m)
        yield from j(a << r.randrange(0, 200), m)
    for _ in range(T(tier, 12000, 50000)):
        n = gn(r, 8) | 1
        a = gi(r, 8)
        if r.random() < 0.3:
            g0 = gn(r, 2) | 1
            n, a = n * g0, a * g0
        if r.random() < 0.2:
            a = a << r.randrange(100)
        yield from j(a, n)


def c14(r, tier, shard, ns):
    def sq(v):
        yield "nsqrt", "nsqrt " + ln(r, v), rn(isqrt(v))
        yield "isqrt", "isqrt " + li(r, v), ri(isqrt(v))

    def neg(v):
        yield "isqrt/neg", "isqrt " + li(r, -v), "N"

    def mr(a, b):
        if not -1 << 63 <= min(a, b) <= max(a, b) < 1 << 63:
            return  # no i64 arguments
        if a > b:
            e = 1
        elif a <= 0 <= b:
            e = 0
        elif b - a > 3000:
            return
        else:
            e = 1
            for x in range(a, b + 1):
                e *= x
        yield "imulr", "imulr %d %d" % (a, b), ri(e)

    def bi(n, k):
        yield "ibinom", "ibinom %d %d" % (n, k), ri(comb(n, k))

    for v in shards(range(0, T(tier, 3000, 60000)), shard, ns):
        yield from sq(v)
        if v and v < 60:
            yield from neg(v)
    for a, b in shards([(a, b) for a in range(-12, 13) for b in range(-12, 13)], shard, ns):
        yield from mr(a, b)
    for n, k in shards([(n, k) for n in range(0, 36) for k in range(0, 40)], shard, ns):
        yield from bi(n, k)
    for n in shards(range(1, T(tier, 90, 300)), shard, ns):
        for x in (pat(r, n), 1 << (32 * n - 1), 1 << (32 * n - 2), (1 << (32 * n)) - 1):
            yield from sq(x)
            if n <= 45 or tier == "thorough":
                for d in (-1, 0, 1, 2 * x, 2 * x + 1):
                    yield from sq(abs(x * x + d))
        yield from neg(pat(r, n))
    for v in shards([v for s in SMALL for v in (s, s * s, s * s - 1, s * s + 1, s * s + 2 * s)], shard, ns):
        yield from sq(abs(v))
    I = (1 << 63) - 1
    J = -(1 << 63)
    edges = [(J, J), (J, J + 1), (J, J + 5), (J + 1, J + 2), (J, I), (J, 0), (J, -J - 1), (-1, I), (0, I), (I, I), (I - 1, I), (I - 7, I), (I, J), (1, 0), (5, -5), (I, 0), (0, J), (I, I - 1), (J + 1, J), (J, 1), (-2, -2), (-2, -1),
             (-I, -I + 3), (-I, -I), (-I, I), (1 << 32, (1 << 32) + 3), ((1 << 31) - 2, (1 << 31) + 2), (-(1 << 31) - 1, -(1 << 31) + 3), ((1 << 32) - 3, (1 << 32) + 3), (-1, -1), (-1, 0), (0, 0), (1, 1), (0, 1)]
    for a, b in shards(edges, shard, ns):
        yield from mr(a, b)
    for _ in range(T(tier, 4000, 12000)):
        a = r.choice((r.randrange(-300, 300), r.randrange(J, I), r.randrange(-(1 << 33), 1 << 33)))
        b = min(I, max(J, a + r.choice((-1, 0, 1, 2, 3, 5, 11, 30, 100, r.randrange(0, 300)))))
        yield from mr(a, b)
        n = r.choice((r.randrange(0, 400), r.randrange(0, 2000), r.randrange(0, I), r.randrange(0, 1 << 33), I, I - 1))
        k = r.choice((0, 1, 2, 3, 4, 7, 15, 40, r.randrange(0, 60)))
        if n < 2000 and r.random() < 0.5:
            k = r.randrange(0, n + 3)
        elif r.random() < 0.5:
            k = max(0, n - k)
        elif r.random() < 0.1:
            k = min(I, n + r.randrange(0, 5))
        if k > n or min(k, n - k) < 1200:
            yield from bi(n, k)
        yield from sq(gn(r, 40))
        x = gn(r, 20)
        yield from sq(abs(x * x + r.choice((0, -1, 1, 2 * x, 2 * x + 1, r.randrange(2 * x + 1)))))
    # n of every size, not only uniformly large or small, with few factors; the points where the partial products cross 32 and 64 bits
    for w in shards(range(1, 64), shard, ns):
        lo, hi = 1 << (w - 1), min(I, (1 << w) - 1)
        for k in range(0, 22):
            ns_ = {lo, hi, hi - 1, lo + 1, lo + (hi - lo) // 4, lo + (hi - lo) // 2, lo + 3 * (hi - lo) // 4} | {r.randint(lo, hi) for _ in range(T(tier, 4, 20))}
            if k > 1 and w == 1:
                continue
            for n in ns_:
                if n >= k:
                    yield from bi(n, k if r.random() < .6 else n - k)
                    b = n if r.random() < .5 else -(n - k + 1)
                    yield from mr(b - k + 1, b) if k else mr(b, b - 1)
    for k in shards(range(1, 40), shard, ns):
        for bits in (32, 63, 64, 65, 96, 127, 128):
            # the largest n with n^k (and n(n-1)..) within the bound, and its neighbours
            n0 = int(round(2 ** (bits / k)))
            for d in (-2, -1, 0, 1, 2, k // 2, k, r.randrange(1, 40)):
                n = n0 + d
                if k <= n <= I:
                    yield from bi(n, k)
                    yield from mr(n - k + 1, n)
                    yield from mr(-n, k - 1 - n)
    for n in shards(range(0, T(tier, 140, 400)), shard, ns):
        for k in range(0, n + 2):
            yield from bi(n, k)
    for n in shards([x for x in SWEEP for _ in range(T(tier, 1, 4))], shard, ns):
        for k in range(10):
            a = shape(r, n, k)
            yield from sq(a)
            if n <= 100:
                yield from sq(a * a + r.choice((0, 0, -1, 1, 2 * a, 2 * a + 1)))
        yield from neg(shaped(r, n))
    for n in shards([x for x in BIGLENS[:34] for _ in range(T(tier, 2, 6))], shard, ns):
        yield from sq(pat(r, n))
        x = pat(r, n // 2)
        yield from sq(x * x + r.choice((0, -1, 1, 2 * x, 2 * x + 1)))
    for k in shards(range(0, T(tier, 4, 12)), shard, ns):
        yield from bi(4000 + 777 * k, 1500 + 99 * k)
        yield from bi(2 ** (20 + k), 1000)
        yield from mr(1, 1000 + 137 * k)
        yield from mr(-900 - k, -1 - k)
