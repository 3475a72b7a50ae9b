#!/usr/bin/env python3
"""writes engine/primes.txt: primes of given limb counts, residues modulo 8 and bit patterns (sorted, one hex number per line)"""
import os, random
from concurrent.futures import ProcessPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP = [p for p in range(3, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))]


def isp(n):
    if any(n % p == 0 for p in SP):
        return False
    r = random.Random(n)
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in [2] + [r.randrange(2, n - 1) for _ in range(20)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def find(j):
    n, m8, kind = j
    r = random.Random("%d %d %d" % j)
    top = 32 * (n - 1)
    if kind == 0:
        b = 1 << top
    elif kind == 1:
        b = (1 << (32 * n)) - (1 << 20)
    elif kind == 2:
        b = r.getrandbits(32 * n) | 1 << (top + 31)
    else:
        b = (r.getrandbits(32) | 1) << top
    b = b & ~7 | m8
    while not isp(b):
        b += 8
    return "%x" % b


J = [(n, m, k) for n in list(range(2, 21)) for m in (1, 3, 5, 7) for k in range(4)] + [(n, m, n % 4) for n in (25, 33, 41, 50) for m in (1, 3, 5, 7)] + [(64, 5, 1), (64, 1, 2), (64, 3, 0), (100, 5, 2), (100, 7, 3)]
if __name__ == "__main__":
    with ProcessPoolExecutor(8) as ex:
        L = list(ex.map(find, J))
    with open(V + "/engine/primes.txt", "w") as f:
        f.write("\n".join(L) + "\n")
