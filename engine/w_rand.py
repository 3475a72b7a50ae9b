"""Randomness: primality (C15), bounded random numbers (C16), PRNG engines (C24), failure reporting (C25), hardware sources (C27)."""
from num import *
from w_int import T, is_prime, rand_prime, jacobi, parse_ri


# ---------------------------------------------------------------- scripted sources
def script(r, toks=(), fail=None):
    if fail is None:
        fail = r.choice((0, 0, 2, 3, 5))
    return "%x:%d:%s" % (r.getrandbits(64), fail, ",".join("E" if t is None else "%x" % t for t in toks))


def limbs(v, k):
    return [(v >> (32 * i)) & M32 for i in range(k)]


def nl(v):
    return max(1, (v.bit_length() + 31) // 32)


def sprinkle(r, toks):
    """insert transient failures between the scripted words"""
    if r.random() < 0.5:
        return toks
    out = []
    for t in toks:
        while r.random() < 0.25:
            out.append(None)
        out.append(t)
    return out


# ---------------------------------------------------------------- C15
def lucas_pass(n):
    """almost-extra-strong Lucas test as published (Baillie-OEIS method C); only selects hostile inputs"""
    p = 3
    while True:
        j = jacobi(p * p - 4, n)
        if j == -1:
            break
        if j == 0:
            return n == p + 2
        if p == 40:
            import math
            if math.isqrt(n) ** 2 == n:
                return False
        p += 1
    s, r = n + 1, 0
    while s % 2 == 0:
        s //= 2
        r += 1
    a, b = 2, p
    for i in reversed(range(s.bit_length())):
        if s >> i & 1:
            a, b = (a * b - p) % n, (b * b - 2) % n
        else:
            a, b = (a * a - 2) % n, (a * b - p) % n
    if a in (2, n - 2) and (p * a - 2 * b) % n == 0:
        return True
    for _ in range(r - 1):
        if a == 0:
            return True
        a = (a * a - 2) % n
    return False


def spsp2(n):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    x = pow(2, d, n)
    if x in (1, n - 1):
        return True
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1:
            return True
    return False


SP53 = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]
BIGPRIMES = [2 ** 31 - 1, 2 ** 32 - 5, 2 ** 32 + 15, 2 ** 61 - 1, 2 ** 64 - 59, 2 ** 64 + 13, 2 ** 89 - 1, 2 ** 96 - 17, 2 ** 107 - 1, 2 ** 127 - 1, 2 ** 128 - 159, 2 ** 255 - 19,
             2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 2 ** 256 - 2 ** 32 - 977, 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 2 ** 521 - 1, 2 ** 607 - 1, 2 ** 448 - 2 ** 224 - 1,
             65537, 3 * 2 ** 30 + 1, 5 * 2 ** 25 + 1, 2 ** 64 - 2 ** 32 + 1, 3 * 2 ** 41 + 1, 27 * 2 ** 56 + 1, 4179340454199820289]
CARM = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153,
        340561, 399001, 410041, 449065, 488881, 512461, 118901521, 172947529, 216821881, 228842209, 1299963601, 2301745249, 9624742921, 11346205609, 13079177569, 65700513721, 71171308081, 84127131361]
SPSP2 = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 104653, 130561, 196093, 220729, 233017, 252601, 253241, 256999, 271951, 280601, 314821,
         357761, 390937, 458989, 476971, 486737, 3215031751, 1093 ** 2, 3511 ** 2, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461, 3317044064679887385961981]
PSEUDO_MULTI = [1195068768795265792518361315725116351898245581, 80383745745363949125707961434194210813883768828755814583748891752229742737653336521865023361632397928]


def c15(r, tier, shard, ns):
    def case(tag, n, rounds, sc, want=None, lit=None):
        want = is_prime(n) if want is None else want
        return (tag, "nprime %s %d %s" % (lit or ln(r, n), rounds, sc), _head("1" if want else "0"))

    if shard == 0:
        for n in (0, 1, 2, 3, 4):
            yield case("tiny", n, 5, script(r, fail=0))
        yield ("tiny", "nprime N 5 1:0:", _head("0"))
    lo = T(tier, 24000, 400000)
    # every small number
    for n in range(shard, lo, ns):
        yield case("exhaustive-small", n, 20 if not is_prime(n) else r.choice((0, 1, 20)), script(r, fail=r.choice((0, 0, 0, 4))), lit="x%x" % n)
    # Lucas pseudoprimes: only Miller-Rabin can reject them
    ps = [n for n in range(129 + 2 * shard, T(tier, 120000, 1500000), 2 * ns) if n % 3 and n % 5 and n % 7 and n % 11 and not is_prime(n) and lucas_pass(n)]
    for n in ps:
        for _ in range(4):
            yield case("lucas-pseudoprime", n, 24, script(r), False)
        # the first words are liars for every n (1 and n-1); the remaining rounds see honest ones
        for k in (1, 2, 4, 8):
            yield case("lucas-pseudoprime-liars-first", n, k + 24, script(r, [r.choice((1, n - 1)) for _ in range(k)], 0), False)
    # strong pseudoprimes to base 2 under a source that only yields 2: only the Lucas part can reject them
    def base2(n):
        rounds = r.choice((0, 1, 4))
        return case("spsp2-base2-only", n, rounds, script(r, sprinkle(r, limbs(2, nl(n)) * (rounds + 1)), 0), False)
    for n in shards(SPSP2, shard, ns):
        yield base2(n)
        yield case("spsp2", n, 20, script(r), False)
    n0 = T(tier, 60, 600)
    got = 0
    while got < n0:
        bits = r.choice((8, 12, 14, 16, 17, 20, 24, 28, 31, 32, 33, 40, 48, 60, 64, 65, 96, 128, 160))
        p = rand_prime(r, bits)
        k = r.choice((2, 2, 2, 3, 4, 5, 6))
        q = k * (p - 1) + 1
        if not is_prime(q):
            continue
        n = p * q
        yield case("semiprime-p-kp", n, r.choice((20, 24)), script(r), False)
        if spsp2(n) and all(n % s for s in SP53):
            got += 1
            yield base2(n)
    for n in shards(CARM, shard, ns):
        yield case("carmichael", n, 20, script(r), False)
    got = 0
    while got < T(tier, 8, 80):
        k = r.getrandbits(r.choice((6, 10, 16, 22, 30, 40)))
        f = (6 * k + 1, 12 * k + 1, 18 * k + 1)
        if k and all(is_prime(x) for x in f):
            got += 1
            yield case("carmichael-chernick", f[0] * f[1] * f[2], 20, script(r), False)
    # squares and powers of primes
    for i in range(T(tier, 60, 600)):
        p = rand_prime(r, r.choice((7, 8, 10, 16, 17, 31, 32, 33, 64, 65, 100)))
        yield case("prime-power", p ** r.choice((2, 2, 2, 3, 4)), r.choice((4, 20)), script(r), False)
        q = rand_prime(r, r.choice((7, 8, 16, 32, 33, 64)))
        yield case("semiprime", p * q, r.choice((2, 20)), script(r), False)
        sp = r.choice(SP53 + [2, 59, 61, 67])
        yield case("small-factor", p * sp, r.choice((2, 20)), script(r), False)
    # primes under hostile sources
    def hostile(n):
        k = nl(n)
        rounds = r.choice((0, 1, 2, 5, 8) if n.bit_length() < 300 else (0, 1, 2))
        toks = []
        for _ in range(rounds + 1 + r.randrange(3)):
            b = r.choice((0, 0, 1, 2, n - 1, n - 2, n, n + 1, (1 << (32 * k)) - 1, n >> 1, (n + 1) // 2, r.randrange(n), 1 << (32 * (k - 1)), r.getrandbits(16), 3))
            toks += limbs(b, k)
        return case("prime-hostile-source", n, rounds, script(r, sprinkle(r, toks)), True)
    for n in shards(BIGPRIMES, shard, ns):
        for _ in range(3 if n.bit_length() < 400 else 1):
            yield hostile(n)
    for n in range(101 + shard, T(tier, 6000, 60000), ns):
        if is_prime(n):
            yield hostile(n)
    for i in range(T(tier, 110, 1500)):
        bits = r.choice((8, 9, 12, 16, 20, 24, 28, 31, 32, 33, 40, 48, 63, 64, 65, 80, 95, 96, 97, 127, 128, 129, 160, 192, 200, 256, 320, 384, 512))
        if r.random() < 0.5:
            p = rand_prime(r, bits)
        else:
            # p = c*2^k +- 1: long 2-adic chains in Miller-Rabin or Lucas
            t = r.randrange(2, max(3, bits - 6))
            while True:
                c = r.getrandbits(max(5, bits - t)) | 1
                p = c * (1 << t) + r.choice((-1, 1))
                if p > 130 and is_prime(p):
                    break
        yield hostile(p)
        yield case("prime-random-source", p, r.choice((1, 4)), script(r), True)
        m = p + 2 * r.randrange(1, 60)
        if not is_prime(m):
            yield case("near-prime-composite", m, r.choice((2, 20)), script(r), False)
    # primes modulo which every small prime is a square: the Lucas parameter search has to go far, and must not give up
    def far(hi, bits):
        m = 8
        for q in range(3, hi + 1, 2):
            if is_prime(q):
                m *= q
        while True:
            n = m * r.getrandbits(max(6, bits - m.bit_length())) + 1
            if n > 130 and is_prime(n):
                return n
    for hi in shards([37, 41, 43, 47, 61, 67, 97, 113, 131, 197, 251][: T(tier, 9, 11)], shard, ns):
        for _ in range(T(tier, 2, 8)):
            n = far(hi, 40)
            yield hostile(n)
            yield case("prime-far-lucas", n, 1, script(r), True)
            n2 = far(hi, 40)
            yield case("semiprime-far-lucas", n * n2, 20, script(r), False)
            yield case("square-far-lucas", n * n, 20, script(r), False)
    if tier == "thorough" and shard < 2:
        for bits in (768, 1024, 1536, 2048):
            yield case("prime-large", rand_prime(r, bits), 2, script(r), True)
    # generate_prime
    if shard == 0:
        for b in (0, 1):
            yield ("genprime-short", "ngenp %d 5 1:0:" % b, lambda s: None if s.startswith("err ") else "expected an Err")
    bl = list(range(2, 70)) + [95, 96, 97, 98, 127, 128, 129, 130, 159, 160, 161, 192, 193, 256, 257]
    for b in shards(bl, shard, ns):
        for _ in range(T(tier, 2, 10)):
            yield ("genprime", "ngenp %d %d %s" % (b, r.choice((1, 8)), script(r, hosttoks(r, r.randrange(0, 5)))), genp(b))
    for i in range(T(tier, 25, 300)):
        b = r.choice((2, 3, 4, 5, 6, 7, 8, 31, 32, 33, 34, 63, 64, 65, 66))
        yield ("genprime", "ngenp %d %d %s" % (b, r.choice((2, 8)), script(r, hosttoks(r, r.randrange(0, 9)))), genp(b))


def hosttoks(r, n):
    return [r.choice((0, M32, 0x80000000, 1, 0x7FFFFFFF, None, r.getrandbits(32))) for _ in range(n)]


def _head(want):
    def f(s):
        t = s.split(" ")
        return None if t[0] == want and t[1].startswith("polls=") and len(t) == 2 else "expected %s" % want
    return f


def genp(bits):
    def f(s):
        t = s.split(" ")
        if t[0] != "ok" or len(t) != 3:
            return "expected a prime of %d bits" % bits
        v = parse_ri(t[1])
        if rn(v) != t[1]:
            return "not canonical"
        if v.bit_length() != bits:
            return "bit length %d, expected %d" % (v.bit_length(), bits)
        if v >> (bits - 2) != 3:
            return "the two top bits are not both set"
        if not is_prime(v):
            return "not a prime"
    return f


# ---------------------------------------------------------------- C16
def c16(r, tier, shard, ns):
    def rng_ok(n, cover=0, neg=False):
        def f(s):
            t = s.split(" ")
            if not t[-1].startswith("polls="):
                return "malformed"
            vs = []
            for x in t[:-1]:
                v = parse_ri(x)
                if v is None or ri(v) != x:
                    return "not canonical: " + x
                if neg:
                    v = -v
                if not 0 <= v < n:
                    return "out of range: " + x
                vs.append(v)
            if cover and n <= 64:
                if len(set(vs)) != n:
                    return "only %d of %d values reached" % (len(set(vs)), n)
            elif cover:
                oct_ = {v * 8 // n for v in vs}
                if len(oct_) != 8:
                    return "parts of the range never reached: octants %s" % sorted(oct_)
                low = set()
                for v in vs:
                    low.add(v & 7)
                if len(low) != 8:
                    return "low bits not covered"
                # every bit below the top two takes both values, and neighbouring limbs are not copies of each other
                one = zero = 0
                for v in vs:
                    one |= v
                    zero |= ~v
                m = (1 << max(0, n.bit_length() - 2)) - 1
                if one & m != m or zero & m != m:
                    return "a bit position never varies"
                for i in range(nl(n) - 2):
                    if all((v >> 32 * i) & M32 == (v >> 32 * (i + 1)) & M32 for v in vs):
                        return "limbs %d and %d are always equal" % (i, i + 1)
        return f

    # complete coverage of small ranges
    for n in shards(range(1, 65), shard, ns):
        for fm in (0, 2, 3):
            yield ("small-coverage", "nrand x%x %d %s" % (n, 60 * n + 60, script(r, fail=fm)), rng_ok(n, 1))
        yield ("small-coverage", "irand x%x %d %s" % (n, 60 * n + 60, script(r)), rng_ok(n, 1))
        yield ("small-coverage-neg", "irand -x%x %d %s" % (n, 60 * n + 60, script(r)), rng_ok(n, 1, True))
    for i in range(T(tier, 450, 1500)):
        n = max(65, gn(r, r.choice((1, 2, 3, 10, 70))))
        yield ("range-coverage", "nrand %s 420 %s" % (ln(r, n), script(r)), rng_ok(n, 1))
        yield ("range-coverage-neg", "irand -%s 420 %s" % (ln(r, n), script(r)), rng_ok(n, 1, True))
    # hostile words, transient failures
    for i in range(T(tier, 15000, 80000)):
        n = max(1, gn(r, r.choice((1, 2, 3, 6, 40, 150))))
        k = nl(n)
        toks = []
        for _ in range(r.randrange(1, 5)):
            b = r.choice((0, n - 1, n, n + 1, (1 << (32 * k)) - 1, r.randrange(n), n ^ (1 << r.randrange(32 * k)), (r.randrange(n) % (1 << (32 * max(0, k - 1))))))
            toks += [x & M32 for x in limbs(b, k)]
        toks = sprinkle(r, toks)
        if r.random() < 0.15:
            toks = [None] * r.randrange(1, 40) + toks
        neg = r.random() < 0.4
        if neg:
            yield ("hostile-source-neg", "irand -%s %d %s" % (ln(r, n), r.randrange(1, 9), script(r, toks)), rng_ok(n, 0, True))
        elif r.random() < 0.3:
            yield ("hostile-source-int", "irand %s %d %s" % (ln(r, n), r.randrange(1, 9), script(r, toks)), rng_ok(n))
        else:
            yield ("hostile-source", "nrand %s %d %s" % (ln(r, n), r.randrange(1, 9), script(r, toks)), rng_ok(n))
    # bounds of every limb count and shape
    for n in shards([x for x in SWEEP for _ in range(T(tier, 1, 4))], shard, ns):
        for j in range(10):
            v = shape(r, n, j)
            if v < 65:
                v += 65
            if r.random() < T(tier, .3, 1) and n <= 100:
                neg = r.random() < .5
                yield ("range-coverage-shape", ("irand -%s 420 %s" if neg else r.choice(("irand %s 420 %s", "nrand %s 420 %s"))) % (ln(r, v), script(r)), rng_ok(v, 1, neg))
            k = nl(v)
            toks = []
            for _ in range(r.randrange(1, 5)):
                toks += [x & M32 for x in limbs(r.choice((0, v - 1, v, v + 1, (1 << (32 * k)) - 1, v ^ (1 << r.randrange(32 * k)), (v >> 32 << 32) | r.getrandbits(32))), k)]
            toks = sprinkle(r, toks)
            neg = r.random() < .5
            yield ("hostile-source-shape", ("irand -%s %d %s" if neg else r.choice(("irand %s %d %s", "nrand %s %d %s"))) % (ln(r, v), r.randrange(1, 9), script(r, toks)), rng_ok(v, 0, neg))
    if shard == 0:
        for op in ("nrand", "irand"):
            for z in ("x0", "z0", "N"):
                for _ in range(4):
                    yield ("zero-nan", "%s %s 2 %s" % (op, z, script(r)), lambda s: None if s.split(" ")[:2] == ["N", "N"] else "expected NaN")
    # prime generation under failing sources
    for i in range(T(tier, 120, 400)):
        b = r.choice((2, 3, 4, 5, 8, 16, 31, 32, 33, 40, 63, 64, 65, 90, 96, 97, 128))
        toks = [None if r.random() < 0.5 else r.choice((0, M32, r.getrandbits(32))) for _ in range(r.randrange(0, 30))]
        yield ("genprime-failing-source", "ngenp %d 4 %s" % (b, script(r, toks, r.choice((0, 2, 3, 4)))), genp(b))


# ---------------------------------------------------------------- engine models
BITS = {"u32": 32, "u64": 64, "usize": 64}


class Lcg:
    def __init__(s, ty, seed, a, c, m):
        s.a, s.c, s.m = a, c, m
        s.x = seed

    def gen(s):
        s.x = (s.a * s.x + s.c) % s.m
        return s.x

    def reset(s, seed):
        s.x = seed

    def copy(s):
        o = object.__new__(Lcg)
        o.__dict__.update(s.__dict__)
        return o


class Mt:
    def __init__(s, ty, seed, w, n, m, r, a, u, d, t_s, b, t, c, l, f):
        s.p = (w, n, m, r, a, u, d, t_s, b, t, c, l, f)
        s.reset(seed)

    def reset(s, seed):
        w, n, f = s.p[0], s.p[1], s.p[12]
        mk = (1 << w) - 1
        x = [seed & mk]
        for i in range(1, n):
            y = x[-1]
            x.append((f * (y ^ (y >> (w - 2))) + i) & mk)
        s.x = x
        s.i = n

    def gen(s):
        w, n, m, r, a, u, d, ss, b, t, c, l, f = s.p
        if s.i >= n:
            x = s.x
            lo = (1 << r) - 1
            up = ((1 << w) - 1) ^ lo
            for i in range(n):
                y = (x[i] & up) | (x[(i + 1) % n] & lo)
                x[i] = x[(i + m) % n] ^ (y >> 1) ^ (a if y & 1 else 0)
            s.i = 0
        z = s.x[s.i]
        s.i += 1
        z ^= (z >> u) & d
        z ^= (z << ss) & b
        z ^= (z << t) & c
        return z ^ (z >> l)

    def copy(s):
        o = object.__new__(Mt)
        o.p, o.i, o.x = s.p, s.i, list(s.x)
        return o


class Swc:
    def __init__(s, ty, seed, w, sl, r):
        s.w, s.s, s.r = w, sl, r
        s.ty = ty
        s.reset(seed)

    def reset(s, seed):
        z = seed
        k = (s.w + 31) // 32
        s.x = []
        for _ in range(s.r):
            v = 0
            for j in range(k):
                z = z * 40014 % 2147483563
                v += z << (32 * j)
            s.x.append(v & ((1 << s.w) - 1))
        s.c = 1 if s.x[-1] == 0 else 0

    def gen(s):
        d = s.x[s.r - s.s] - s.x[0] - s.c
        s.c = 1 if d < 0 else 0
        v = d & ((1 << s.w) - 1)
        s.x.pop(0)
        s.x.append(v)
        return v

    def copy(s):
        o = object.__new__(Swc)
        o.__dict__.update(s.__dict__)
        o.x = list(s.x)
        return o


MT32 = (32, 624, 397, 31, 0x9908B0DF, 11, 0xFFFFFFFF, 7, 0x9D2C5680, 15, 0xEFC60000, 18, 1812433253)
MT64 = (64, 312, 156, 31, 0xB5026F5AA96619E9, 29, 0x5555555555555555, 17, 0x71D67FFFEDA60000, 37, 0xFFF7EEE000000000, 43, 6364136223846793005)
NAMED = {"minstd_rand0": (Lcg, "u32", (16807, 0, 2147483647)), "minstd_rand": (Lcg, "u32", (48271, 0, 2147483647)), "mt19937": (Mt, "u32", MT32), "mt19937_64": (Mt, "u64", MT64),
         "ranlux24_base": (Swc, "u32", (24, 10, 24)), "ranlux48_base": (Swc, "u64", (48, 5, 12)), "ranlux24_base_64": (Swc, "u64", (24, 10, 24)), "ranlux48_base_us": (Swc, "usize", (48, 5, 12))}
STD10000 = [("minstd_rand0", 1, 1043618065), ("minstd_rand", 1, 399268537), ("mt19937", 5489, 4123659995), ("mt19937_64", 5489, 9981545732273789042), ("ranlux24_base", 19780503, 7937952),
            ("ranlux48_base", 19780503, 61839128582725), ("ranlux24_base_64", 19780503, 7937952), ("ranlux48_base_us", 19780503, 61839128582725)]


def actions(r, e, bits, n, failing=True, first=None):
    """run a random history against the model; returns (action words, expected outputs)"""
    acts, outs = [], []
    bk = None

    def h(vs):
        return ",".join("%x" % v for v in vs)
    todo = list(first or [])
    for _ in range(n):
        k = todo.pop(0) if todo else r.choice("ggggiidkwrrE")
        big = getattr(e, "p", (0, 40))[1]
        cnt = r.choice((0, 1, 2, 3, r.randrange(1, 12), r.randrange(1, 60), min(2000, big + r.randrange(-2, 3)) if r.random() < 0.3 else 4))
        cnt = max(0, cnt)
        if k == "g":
            acts.append("g%d" % cnt)
            outs.append(h([e.gen() for _ in range(cnt)]))
        elif k == "i":
            acts.append("i%d" % cnt)
            outs.append(h([e.gen() for _ in range(cnt)]))
        elif k == "d":
            cnt = r.randrange(1, 3000)
            acts.append("d%d" % cnt)
            for _ in range(cnt):
                v = e.gen()
            outs.append("%x" % v)
        elif k == "k":
            bk = e.copy()
            acts.append("k")
            outs.append("k")
        elif k == "w":
            if bk is None:
                continue
            e, bk = bk, e
            acts.append("w")
            outs.append("w")
        elif k == "r":
            s = seedv(r, bits)
            e.reset(s)
            acts.append("r%x" % s)
            outs.append("ok")
        elif failing:
            acts.append("rE")
            outs.append("err:InnerErr:seed-failed")
    return acts, outs


def seedv(r, bits):
    return r.choice((0, 1, 2, 5489, 19780503, 0x7FFFFFFF, 2147483563, 2147483647, M32, 0x80000000, (1 << bits) - 1, (1 << bits) // 40014 + 1, r.getrandbits(31), r.getrandbits(bits), r.getrandbits(bits), r.getrandbits(8))) & ((1 << bits) - 1)


def gval(r, bits):
    """a word, biased to the extremes"""
    return r.choice((1, 2, 3, 16807, 48271, 40014, 2147483647, 2147483563, M32, M32 - 1, 0x80000000, (1 << bits) - 1, (1 << bits) - 2, 1 << (bits - 1), (1 << (bits - 1)) + 1,
                     r.getrandbits(bits), r.getrandbits(bits), r.getrandbits(bits // 2), r.getrandbits(r.randrange(1, bits + 1)))) & ((1 << bits) - 1)


def mtpar(r, bits, maxn=40):
    w = r.choice((2, 3, 5, 8, 16, 24, 31, 32, bits, bits, bits - 1, r.randrange(2, bits + 1)))
    w = min(w, bits)
    n = r.choice((1, 2, 3, 4, 7, r.randrange(1, maxn + 1), 624 if r.random() < 0.1 else 5))
    m = r.choice((1, n, max(1, n - 1), max(1, n // 2), r.randrange(1, n + 1)))
    mk = (1 << w) - 1

    def wd():
        return max(1, min(mk, gval(r, bits) & mk))

    def sh():
        return r.choice((1, w - 1, r.randrange(1, w)))
    return (w, n, m, sh(), wd(), sh(), r.choice((mk, wd())), sh(), wd(), sh(), wd(), sh(), wd())


def swpar(r, bits):
    w = r.choice((1, 2, 8, 24, 31, 32, 33, 48, 63, 64, bits, bits, r.randrange(1, bits + 1)))
    w = min(w, bits)
    lr_ = r.choice((2, 3, 5, 12, 24, 43, r.randrange(2, 60)))
    return (w, r.choice((1, lr_ - 1, r.randrange(1, lr_))), lr_)


def hx(p):
    return " ".join("%x" % x for x in p)


def c24(r, tier, shard, ns):
    for nm, sd, v in shards(STD10000, shard, ns):
        yield ("c++-standard-10000th", "gnamed %s %x d10000" % (nm, sd), "ok %x" % v)
    for nm in sorted(NAMED):
        cls, ty, par = NAMED[nm]
        for _ in range(T(tier, 36, 160)):
            s = seedv(r, BITS[ty])
            a, o = actions(r, cls(ty, s, *par), BITS[ty], r.randrange(1, 8))
            yield ("named-history", " ".join(["gnamed", nm, "%x" % s] + a), " ".join(["ok"] + o))
    for _ in range(T(tier, 4400, 16000)):
        ty = r.choice(("u32", "u64", "usize"))
        bits = BITS[ty]
        s = seedv(r, bits)
        m = max(1, gval(r, bits))
        a, c = gval(r, bits), r.choice((0, gval(r, bits)))
        ac, o = actions(r, Lcg(ty, s, a, c, m), bits, r.randrange(1, 7))
        yield ("lcg-history", " ".join(["glcg", ty, "%x" % s, hx((a, c, m))] + ac), " ".join(["ok"] + o))
        p = swpar(r, bits)
        s = seedv(r, bits)
        ac, o = actions(r, Swc(ty, s, *p), bits, r.randrange(1, 7))
        yield ("swc-history", " ".join(["glf", ty, "%x" % s, hx(p)] + ac), " ".join(["ok"] + o))
        p = mtpar(r, bits)
        s = seedv(r, bits)
        ac, o = actions(r, Mt(ty, s, *p), bits, r.randrange(1, 7))
        yield ("mt-history", " ".join(["gmt", ty, "%x" % s, hx(p)] + ac), " ".join(["ok"] + o))


# ---------------------------------------------------------------- C25
def bad(kind):
    f = lambda s: None if s.startswith("err:" + kind + ":") else "expected Err(%s)" % kind
    f.is_bad = True
    return f


def okall(s):
    """accepted: no later panic or error"""
    return None if s.startswith("ok ") and "err" not in s else "expected an accepted parameter set"


def mt_valid(p, bits):
    """None: not specified (l = 0)"""
    w, n, m, r, a, u, d, s, b, t, c, l, f = p
    mk = (1 << w) - 1
    v = 0 < w <= bits and 1 <= m <= n and 0 < r < w and 0 < a <= mk and all(0 < x < w for x in (u, s, t)) and all(0 < x <= mk for x in (d, b, c)) and l < w and 0 < f <= mk
    return None if v and l == 0 else v


def c25(r, tier, shard, ns):
    iw = ("n", "n", "n", "e", "c")
    for _ in range(T(tier, 20000, 80000)):
        ty = r.choice(("u32", "u64", "usize"))
        toks = [None if r.random() < r.choice((0.1, 0.4)) else gval(r, 64) for _ in range(r.randrange(0, 14))]
        fm = r.choice((0, 0, 2, 3, 4))
        sc = script(r, toks, fm)
        st = [int(sc.split(":")[0], 16)]
        mk = (1 << BITS[ty]) - 1
        polls, err, out, acts = 0, None, [], []
        for _ in range(r.randrange(1, 30)):
            a = r.choice(iw)
            acts.append(a)
            if a == "n":
                if err:
                    out.append("-")
                    continue
                i = polls
                polls += 1
                if i < len(toks):
                    v = toks[i]
                elif fm and i % fm == 0:
                    v = None
                else:
                    st[0] = (st[0] + 0x9E3779B97F4A7C15) & (2 ** 64 - 1)
                    z = st[0]
                    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9 & (2 ** 64 - 1)
                    z = (z ^ (z >> 27)) * 0x94D049BB133111EB & (2 ** 64 - 1)
                    v = z ^ (z >> 31)
                if v is None:
                    err = "err:NoNewRandNumberGen:poll%d" % i
                    out.append("-")
                else:
                    out.append("%x" % (v & mk))
            elif a == "e":
                out.append(err or "-")
            else:
                err = None
                out.append("c")
        out.append("polls=%d" % polls)
        yield ("iterator-latch", "giter %s %s %s" % (ty, sc, " ".join(acts)), " ".join(out))
    # parameter validation around every bound
    for _ in range(T(tier, 8800, 40000)):
        ty = r.choice(("u32", "u64", "usize"))
        bits = BITS[ty]
        s = seedv(r, bits)
        run = r.choice(("g3", "g70", "i3 g2 r1 g5", "k g4 w g4"))
        # LCG
        m = r.choice((0, 0, gval(r, bits)))
        yield ("lcg-params", "glcg %s %x %s %s" % (ty, s, hx((gval(r, bits), gval(r, bits), m)), run), bad("DivisorIsZero") if m == 0 else okall)
        # subtract with carry
        p = list(swpar(r, bits))
        if r.random() < 0.7:
            i = r.randrange(3)
            p[i] = r.choice((0, 1, bits, bits + 1, bits + 32, p[2], p[2] - 1, p[2] + 1, p[1], p[1] + 1)) if i < 2 else r.choice((0, 1, p[1], p[1] + 1))
        w, sl, lr_ = p
        v = 0 < w <= bits and 0 < sl < lr_
        yield ("swc-params", "glf %s %x %s %s" % (ty, s, hx(p), run), okall if v else bad("InvalidRngPara"))
        # mersenne twister
        p = list(mtpar(r, bits, 12))
        for _ in range(r.choice((0, 1, 1, 1, 2))):
            i = r.randrange(13)
            w, n, m = p[0], p[1], p[2]
            mk = (1 << min(w, bits)) - 1
            if i == 0:
                p[i] = r.choice((0, 1, 2, bits, bits + 1, bits + 33))
            elif i == 1:
                p[i] = r.choice((0, 1, max(0, m - 1), m))
            elif i == 2:
                p[i] = r.choice((0, n, n + 1))
            elif i in (3, 5, 7, 9, 11):
                p[i] = r.choice((0, 1, max(0, w - 1), w, w + 1, bits))
            else:
                p[i] = r.choice((0, 1, mk, min(mk + 1, (1 << bits) - 1), (1 << bits) - 1))
        v = mt_valid(p, bits)
        if v is None:
            continue
        yield ("mt-params", "gmt %s %x %s %s" % (ty, s, hx(p), run), okall if v else bad("InvalidRngPara"))
    # failing seeds: constructor and reset
    for _ in range(T(tier, 2000, 8000)):
        ty = r.choice(("u32", "u64", "usize"))
        bits = BITS[ty]
        se = "err:InnerErr:seed-failed"
        yield ("seed-failure", "glcg %s E %s g3" % (ty, hx((gval(r, bits), 1, max(1, gval(r, bits))))), se)
        yield ("seed-failure", "glf %s E %s g3" % (ty, hx(swpar(r, bits))), se)
        yield ("seed-failure", "gmt %s E %s g3" % (ty, hx(mtpar(r, bits))), se)
        nm = r.choice(sorted(NAMED))
        yield ("seed-failure", "gnamed %s E g3" % nm, se)
        # the stream goes on unchanged after a failed reset, also before the first draw
        cls, t2, par = NAMED[nm]
        s = seedv(r, BITS[t2])
        first = r.choice((["E", "g"], ["g", "E", "g"], ["E", "E", "i", "E", "g"], ["k", "g", "E", "w", "E", "g"], ["r", "E", "g"]))
        a, o = actions(r, cls(t2, s, *par), BITS[t2], len(first), True, first)
        yield ("reset-failure", " ".join(["gnamed", nm, "%x" % s] + a), " ".join(["ok"] + o))
        kind = r.choice(("glcg", "glf", "gmt"))
        p = {"glcg": lambda: (gval(r, bits), gval(r, bits), max(1, gval(r, bits))), "glf": lambda: swpar(r, bits), "gmt": lambda: mtpar(r, bits)}[kind]()
        s = seedv(r, bits)
        e = {"glcg": Lcg, "glf": Swc, "gmt": Mt}[kind](ty, s, *p)
        a, o = actions(r, e, bits, len(first), True, first)
        yield ("reset-failure", " ".join([kind, ty, "%x" % s, hx(p)] + a), " ".join(["ok"] + o))


# ---------------------------------------------------------------- C27
def c27(r, tier, shard, ns):
    def fresh(n, bits, hw):
        def f(s):
            t = s.split(" ")
            if len(t) != 3 or not t[0].startswith("fails=") or t[1] != "reset=11":
                return "malformed or failing reset"
            vs = [int(x, 16) for x in t[2].split(",") if x]
            if len(vs) != n:
                return "only %d of %d words after 5M failed polls" % (len(vs), n)
            if any(v >> bits for v in vs):
                return "word wider than the type"
            o = a = 0
            a = (1 << bits) - 1
            for v in vs:
                o |= v
                a &= v
            if o != (1 << bits) - 1:
                return "bits never set: %x" % (((1 << bits) - 1) ^ o)
            if a:
                return "bits never clear: %x" % a
            # repeats: expected n^2/2^33 for u32; a short cycle or a constant gives far more
            d = n - len(set(vs))
            if d > (8 if bits == 32 else 0):
                return "%d repeated words among %d" % (d, n)
            if any(vs[i] == vs[i + 1] == vs[i + 2] for i in range(n - 2)):
                return "constant run"
            for b in range(bits):
                c = sum(v >> b & 1 for v in vs)
                # 12 sigma
                if abs(2 * c - n) > 12 * n ** 0.5:
                    return "bit %d is biased: %d of %d" % (b, c, n)
            # the two halves must not repeat each other
            if bits == 64 and sum((v >> 32) == (v & M32) for v in vs) > 2:
                return "the halves of the words are equal"
            for b in range(bits - 1):
                c = sum((v >> b ^ v >> (b + 1)) & 1 for v in vs)
                if abs(2 * c - n) > 12 * n ** 0.5:
                    return "bits %d and %d are correlated" % (b, b + 1)
        return f
    k = 0
    for rep in range(T(tier, 6, 40)):
        for what in ("seed", "rand", "crypto", "randit", "cryptoit"):
            for ty in ("u32", "u64", "usize"):
                k += 1
                if k % ns != shard:
                    continue
                n = r.choice((1000, 2000, 3000))
                yield ("hw-" + what, "ghw %s %s %d" % (what, ty, n), fresh(n, BITS[ty], what))
    # scripted hardware: every word handed out was really delivered, every failure is reported
    for i in range(T(tier, 12000, 60000)):
        what, ty = r.choice(("seed", "rand", "crypto", "randit", "cryptoit")), r.choice(("u32", "u64", "usize"))
        pf = r.choice((0, .1, .5, .9))
        steps = [None if r.random() < pf else r.getrandbits(64) | 1 for _ in range(r.randrange(1, 25))]
        if r.random() < .2:
            steps = [None] * r.randrange(1, 12) + steps
        yield ("scripted-" + what, "ghwf %s %s %d %s" % (what, ty, r.randrange(1, 12), ",".join("f" if x is None else "%x" % x for x in steps)), scripted(BITS[ty]))


def halves(v, bits):
    return [v >> k & M32 for k in range(0, bits, 32)]


def scripted(bits, kind=None):
    """each poll: a word made of what the instruction delivered during that poll, or an error if it failed"""
    def f(s):
        for t in s.split(" "):
            r, log = t.rsplit(":", 1)
            if not log:
                continue  # the instruction was not reached through the hook: nothing was observed
            log = log.split(".")
            if r[0] == "E":
                if "f" not in log:
                    return "error although the hardware delivered (%s)" % t
                if kind and not r.startswith("Eerr:%s:" % kind):
                    return "wrong kind of error (%s)" % t
                continue
            got = [h for x in log if x != "f" for h in halves(int(x, 16), bits)]
            v = int(r, 16)
            for h in halves(v, bits):
                if h not in got:
                    return "the word %s contains bits the hardware did not deliver (%s)" % (r, ".".join(log))
                got.remove(h)
    return f


# ---------------------------------------------------------------- C30, portable entropy source
def os_entropy(r, tier, shard, ns):
    """getrandom with short reads and failures: every kernel byte is used at most once, too few bytes are an error"""
    def exp(nb):
        def f(s):
            seen = set()
            for t in s.split(" "):
                x, log = t.rsplit(":", 1)
                log = [l for l in log.split(".") if l]
                short = not log
                for l in log:
                    if l in ("f", "-"):
                        short = True
                        continue
                    b = bytes.fromhex(l)
                    short |= len(b) < nb
                    seen |= set(b)
                if x[0] == "E":
                    if not short:
                        return "error although the kernel delivered enough (%s)" % t
                    continue
                if not log:
                    continue
                for c in int(x, 16).to_bytes(nb, "little"):
                    if c not in seen:
                        return "the word %s contains a byte that was not delivered, or was used before (%s)" % (x, s)
                    seen.discard(c)
        return f
    for i in range(T(tier, 9000, 40000)):
        ty = r.choice(("u32", "u64", "usize"))
        nb = BITS[ty] // 8
        data = list(range(1, 256))
        r.shuffle(data)
        k = r.random()
        steps = [("e" if r.random() < .2 else str(r.randrange(0, nb + 1))) if k < .6 else r.choice((str(nb), str(nb), "e", "1", str(nb - 1), "0")) for _ in range(r.randrange(1, 26))]
        yield ("os-entropy", "ghwf %s %s %d %s %s" % (r.choice(("crypto", "cryptoit")), ty, len(steps), ",".join(steps), bytes(data).hex()), exp(nb))


PORT = "C01 C02 C03 C08 C11 C12 C14 C17 C19"


def run_portable(pid, tier, seed, t0):
    """the request streams of the arithmetic checks, and the entropy source, on the build of the portable back ends"""
    import core, registry, time
    exe = core.build("portable")
    cap = t0 + (420 if tier == "quick" else 5400)
    tot = None

    def thin(wl, k):
        def w(r, tier, shard, ns):
            for i, x in enumerate(wl(r, tier, shard, ns)):
                if i % k == 0 or tier == "thorough":
                    yield x
        return w
    for name, wl, k in [("entropy", os_entropy, 1), ("fresh", lambda r, tier, shard, ns: (x for x in c27(r, tier, shard, ns) if x[0].startswith("hw-")), 1)] + [(p, registry.REG[p]["wl"], 1 if p in ("C01", "C03") else 3) for p in PORT.split()]:
        t = core.run_workload(exe, thin(wl, k), seed, tier, cap, {})
        t["tags"] = {name + "/" + a: b for a, b in t["tags"].items()}
        if tot is None:
            tot = t
        else:
            core.merge(tot, t)
        if tot["viol"]:
            break
    for v in tot["viol"]:
        v["profile"] = "portable"
    tot["builds"] = {"portable": tot["n"]}
    return tot
