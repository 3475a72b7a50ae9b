"""Hostile numbers and their literals / renderings."""
W = 32
M32 = 0xFFFFFFFF


def rn(v):
    if v is None:
        return "N"
    k = max(1, (v.bit_length() + 31) // 32)
    return "%0*x" % (k * 8, v)


def ri(v):
    if v is None:
        return "N"
    return rn(v) if v >= 0 else "-" + rn(-v)


def rr(q):
    """Fraction"""
    if q is None:
        return "N"
    return ri(q.numerator) + "/" + ri(q.denominator)


def nanlit(r):
    return r.choice(("N", "N", "N", "N1", "N2", "N3"))


def ln(r, v, plain=False):
    if v is None:
        return nanlit(r)
    h = "%x" % v
    if plain or v.bit_length() > 6000:
        return "x" + h
    k = r.random()
    if k < 0.6:
        return "x" + h
    if k < 0.7:
        return "c" + h
    if k < 0.78:
        return "z" + h
    if k < 0.84:
        return "b" + h
    if k < 0.9:
        return "B" + h
    if k < 0.96 and v.bit_length() < 1500:
        return "s" + h
    if v < 1 << 128:
        return "p" + h
    return "x" + h


def li(r, v, plain=False):
    if v is None:
        return nanlit(r)
    return ("-" if v < 0 else "") + ln(r, abs(v), plain)


def lr(r, q):
    if q is None:
        return nanlit(r)
    k = r.choice((1, 1, 1, -1, 3, 2, 1 << 32)) if r.random() < 0.5 else 1
    return li(r, q.numerator * k) + "/" + li(r, q.denominator * k)


SPECW = [0, 1, 2, 3, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFF, 0x10000, 0xFFFF0000, 0xAAAAAAAA, 0x55555555]
SMALL = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1,
         (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) - 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1,
         (1 << 65) - 1, (1 << 95) - 1, 1 << 95, (1 << 96) - 1, 1 << 96, (1 << 96) + 1, (1 << 127) - 1, 1 << 127, (1 << 128) - 1, 1 << 128, (1 << 128) + 1]
LENS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 38, 39, 40, 41, 42, 43, 63, 64, 65, 79, 80, 81, 82, 127, 128, 129, 160, 161]


SWEEP = list(range(1, 72)) + [79, 80, 81, 95, 96, 97, 99, 100, 101, 127, 128, 129, 130, 150, 200, 201, 255, 256, 257, 300]


def shape(r, n, k):
    b = 1 << (32 * n)
    hi = 1 << (32 * (n - 1))
    v = r.getrandbits(32 * n) | hi << 31
    return (v, b - 1, hi, b >> 1, hi | (v & (hi - 1)), v | M32 * hi, (v >> 32 << 32) or hi, v | M32, v & ~(M32 * hi >> 32), v | (M32 * hi >> 32))[k]


def shaped(r, n):
    """a number of exactly n limbs with one of the shapes an implementation may treat apart"""
    return shape(r, n, r.randrange(10))


def shaped_pairs(r, shard, ns, reps=1, top=400):
    """every limb count of SWEEP, every shape, against partners shorter, equal (also nearly equal) and longer"""
    for n in shards([x for x in SWEEP if x <= top for _ in range(reps)], shard, ns):
        for k in range(10):
            a = shape(r, n, k)
            m = r.choice((1, 2, n, n, n, max(1, n - 1), n + 1, max(1, n // 2), r.choice(SWEEP[:70])))
            if m == n and r.random() < .4:
                b = a ^ (1 << r.choice((0, 31, 32 * n - 32, r.randrange(32 * n)))) if r.random() < .5 else a
                b = b or 1
            else:
                b = shaped(r, m)
            yield n, a, b


BITS = list(range(1, 68)) + [95, 96, 97, 126, 127, 128, 129, 130]


def bitgrid(r, shard, ns, bits=BITS, reps=1):
    """every pair of bit lengths around the machine words, where an implementation may switch to word arithmetic: extreme and random values"""
    def one(i):
        k = r.randrange(5)
        hi = 1 << (i - 1)
        return (hi, (1 << i) - 1, hi | r.getrandbits(i), hi | r.getrandbits(i), hi | (r.getrandbits(i) >> r.randrange(i)))[k]
    for i, j in shards([(i, j) for i in bits for j in bits for _ in range(reps)], shard, ns):
        yield (1 << i) - 1, (1 << j) - 1
        yield one(i), one(j)
        yield one(i), one(j)


def pat(r, n):
    """a number of exactly n limbs with a hostile bit pattern"""
    k = r.random()
    if k < 0.35:
        v = r.getrandbits(32 * n)
    elif k < 0.45:
        v = (1 << (32 * n)) - 1 - (r.getrandbits(r.randrange(1, 34)) if r.random() < 0.5 else 0)
    elif k < 0.55:
        e = 32 * (n - 1) + r.randrange(32)
        v = (1 << e) + r.choice((0, 1, -1)) * (1 if r.random() < 0.6 else r.getrandbits(31))
    elif k < 0.75:
        v = 0
        w = None
        for _ in range(n):
            if w is None or r.random() < 0.3:
                w = r.choice(SPECW) if r.random() < 0.8 else r.getrandbits(32)
            v = (v << 32) | w
    elif k < 0.85:
        v = 0
        for _ in range(r.randrange(1, 6)):
            v |= 1 << r.randrange(32 * n)
    else:
        z = r.randrange(n)
        v = r.getrandbits(32 * (n - z)) << (32 * z)
    v = abs(v)
    hi = v >> (32 * (n - 1))
    if hi == 0:
        v |= r.choice((1, 1, 2, 0x80000000, M32, r.randrange(1, 1 << 32))) << (32 * (n - 1))
    elif hi > M32:
        v >>= 32
    return v


def nlen(r, maxl):
    k = r.random()
    if k < 0.3:
        n = r.randrange(1, 5)
    elif k < 0.55:
        n = r.randrange(1, 26)
    elif k < 0.8:
        n = r.choice(LENS)
    else:
        n = r.randrange(1, maxl + 1)
    return max(1, min(n, maxl))


def gn(r, maxl=80):
    """any natural number"""
    k = r.random()
    if k < 0.08:
        return r.choice(SMALL)
    if k < 0.14:
        return r.randrange(0, 300)
    return pat(r, nlen(r, maxl))


def gi(r, maxl=80):
    v = gn(r, maxl)
    return -v if r.random() < 0.5 else v


def pair(r, maxl=80, g=gn):
    """two related or unrelated numbers"""
    a = g(r, maxl)
    k = r.random()
    if k < 0.5:
        return a, g(r, maxl)
    s = -1 if (g is gi and r.random() < 0.3) else 1
    if k < 0.57:
        return a, s * a
    b = abs(a)
    if k < 0.67:
        b = b + r.choice((-2, -1, 1, 2, 1 << r.randrange(1 + b.bit_length()), -(1 << r.randrange(max(1, b.bit_length())))))
    elif k < 0.75:
        b = b ^ (r.choice(SPECW) << (32 * r.randrange(1 + b.bit_length() // 32)))
    elif k < 0.82:
        b = b >> (32 * r.randrange(1 + b.bit_length() // 32))
    elif k < 0.88:
        b = (b << r.randrange(0, 70)) | r.getrandbits(3)
    elif k < 0.94:
        b = ((1 << max(1, b.bit_length())) - b)
    else:
        b = r.choice(SMALL)
    b = abs(b) * (1 if g is gn or a >= 0 else -1) * s
    if g is gn:
        b = abs(b)
    if r.random() < 0.5:
        return a, b
    return b, a


FORMS = ("v", "m", "a")


def shards(it, shard, n):
    for i, x in enumerate(it):
        if i % n == shard:
            yield x
