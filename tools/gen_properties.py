#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the text is reviewable); rewrites the file."""
import json, os
N = "src/bigint/nat.rs"; NA = "src/bigint/nat_amd64.rs"; NV = "src/bigint/nat_avx2.rs"; NM = "src/bigint/nat_macro.rs"
AG = "src/bigint/arith_generic.rs"; B = "src/bigint/bigint.rs"; BM = "src/bigint/bigint_macro.rs"; R = "src/bigint/rat.rs"
F = "src/bigint/float.rs"; FF = "src/bigint/float_fmt.rs"; D = "src/bigint/decimal.rs"; U = "src/bigint/util.rs"
FP = "src/bigint/float_para.rs"
RD = "src/rand/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

LIMBS = ("limb vector", "little-endian u32 digits of the magnitude; empty means NaN, no leading zero digit otherwise", N)

p("C01", "Natural-number +, - and * are exact at every size",
  "For all natural numbers of any size, +, - and * (with a Nat or u32 right operand, by value or in assigning form, also when a number is combined with its own clone) yield exactly the mathematical sum, absolute difference and product. The sign-reporting subtractions additionally return true exactly when the left operand is >= the right one.",
  ["inputs"], "all pairs of natural numbers (any limb count, any carry/borrow pattern), every operator form",
  "The unit tests compare a few dozen literals; carry chains, limb-count combinations and aliased forms are unbounded.",
  [N, NA, NV, NM], [("carry/borrow chains with the adc/sbb intrinsics", NA), ("vectorised schoolbook product", NV), ("u32 multiply with carry", N)],
  [LIMBS], ["return value of the public operators, read through AsRef<[u32]>"])
p("C02", "Division and remainder satisfy their defining equations",
  "For every dividend and non-zero divisor, Nat and BigInt / and % (and Nat by u32) give the truncated quotient and the remainder with the dividend's sign, so that a = q*b + r and |r| < |b|; div_euclid and rem_euclid give the unique pair with 0 <= r < |b|. This holds for by-value, assigning and self-aliased forms, and dividing by zero panics instead of returning a value.",
  ["inputs"], "all dividend/divisor pairs and sign combinations",
  "Tests sample a handful of literals; bit-length differences, near-equal operands and sign/zero combinations are unbounded.",
  [N, B, BM, NM], [("shift-and-subtract division", N), ("single-word division", N), ("sign handling and Euclidean correction", B)],
  [LIMBS], ["return values of / % div_euclid rem_euclid"])
p("C03", "Karatsuba product and squaring equal the exact product at every size",
  "For operands of every length, mul_karatsuba(a,b) equals a*b and sqr(a) equals a*a exactly (for Nat, and for BigInt squaring), whatever the sizes, shapes or zero runs of the operands.",
  ["inputs"], "all operand lengths, in particular around and across the algorithm-switch lengths and very unbalanced pairs",
  "The unit tests use a few fixed lengths; the recursion layout depends on the exact lengths and on borrow signs inside the recursion.",
  [N, AG, B], [("karatsuba, karatsuba_sqr, basic_sqr, add_at on raw pointers", N), ("vector kernels", AG)],
  [LIMBS], ["return values of mul_karatsuba and sqr"])
p("C04", "Shifts multiply or floor-divide by powers of two",
  "For every value and every shift distance s, x << s equals x*2^s and x >> s equals floor(x / 2^s), for Nat and for BigInt (negative BigInts round toward minus infinity), in by-value and assigning form.",
  ["inputs"], "all values and shift distances, including multiples of 32 and distances beyond the bit length",
  "The tests shift a few constants by a few distances.",
  [N, B], [("limb move plus bit shift", N), ("two's-complement identity for negative >>", B)], [LIMBS], ["return values of << and >>"])
p("C05", "Bitwise operators follow infinite two's complement",
  "For all operands, &, |, ^, ! and and_not on BigInt equal the infinite two's-complement result for every sign combination, and on Nat equal the plain bitwise result (Nat ! complements the bits below its own bit length), in by-value, assigning and self-aliased form. bits_len, is_set_bit (None at or beyond bits_len) and, for non-zero Nats, the trailing-zero count describe the same bits.",
  ["inputs"], "all operand pairs, sign combinations and bit indices",
  "Tests cover single sign patterns with short literals.",
  [N, B], [("limbwise and/or/xor/and_not", N), ("(x-1) identities for negative operands", B)], [LIMBS], ["operator results, is_set_bit, bits_len, trailling_zeros"])
p("C06", "Every result is in canonical form after any history of operations",
  "After any sequence of public operations, every Nat, BigInt and Rat is canonical: no leading zero limb, no negative zero, rationals in lowest terms with a positive denominator. Consequently two values that are mathematically equal always compare equal with ==, and print and serialise identically, no matter how they were computed.",
  ["histories", "programs"], "all programs of public operations over shared registers",
  "A unit test checks single calls; a stale leading limb only matters some operations later.",
  [N, NA, NV, B, R], [("trim_head_zero after every kernel", N), ("sign normalisation", B), ("norm", R)], [LIMBS, ("sign", "Natural for zero", B)],
  ["AsRef<[u32]>, ==, Display of every register after every step"])
p("C07", "Comparisons are the numeric total order",
  "==, <, <=, >, >= and partial_cmp agree with each other and with the mathematical order for all Nat, BigInt, Rat and Float values, for Nat against u8..u128/usize and BigInt against u32; -0 equals +0 and infinities are ordered for Float. A NaN operand makes every comparison false and partial_cmp None.",
  ["inputs"], "all pairs of values including NaN, infinities, signed zeros and values differing only in one limb",
  "Tests check a few pairs.",
  [N, NM, B, R, F], [("partial_cmp_inner", N), ("sign-then-magnitude order", B), ("cross multiplication", R), ("ord/ucmp", F)], [], ["comparison operators"])
p("C08", "Signed integer arithmetic and sign queries are exact",
  "For all BigInts, +, -, *, unary minus, abs, set_negative/set_natural and squaring give the exact signed result in by-value, assigning and self-aliased form. is_negative, is_positive, is_natural and signnum always describe the sign of that mathematical value, and zero is never negative.",
  ["inputs"], "all signed operand pairs",
  "Tests sample a few sign/magnitude combinations.",
  [B, BM], [("sign/magnitude add_inner, sub_inner, mul_inner", B)], [("sign", "Natural or Negative; Natural for zero", B)], ["operator results and sign predicates"])
p("C09", "Integer text parsing and formatting round-trip in every base",
  "Formatting any Nat or BigInt in decimal, hex (lower/upper/Debug), octal or binary yields exactly the digits of the value (with 0x/0o/0b only under '#', and a leading '-' for negatives), and parsing such text, with optional sign and leading zeros, yields the same value back. Text without such a number (empty, only a sign or prefix, a digit illegal in its base) is rejected with an Err: no string makes the parser panic, or return NaN or a wrong value.",
  ["inputs"], "all values and all strings",
  "Tests parse and print a few literals and no hostile strings.",
  [N, NM, B, BM], [("check_base and per-base digit loops", N), ("fmt macros and Octal/Display", N)], [], ["from_str and format! results"])
p("C10", "Byte and primitive conversions preserve the value",
  "Converting any u8..u128, usize, i8..i128, isize, byte slice (little or big endian) or limb vector to Nat or BigInt yields exactly that value; to_le_bytes/to_be_bytes and copy_to_* give the minimal-length encoding, replace the destination's previous content, and round-trip.",
  ["inputs"], "all primitives, byte strings and limb vectors including leading/trailing zero bytes and type extremes",
  "Tests convert a few constants.",
  [N, NM, B, BM], [("from_le_or_be_bytes, copy_to_*", N), ("From impls", NM)], [], ["From/to_bytes results"])
p("C11", "Powers and modular exponentiation are exact",
  "pow(b) equals self^b, and pow_mod, Nat exp and BigInt exp equal self^b mod |n| in [0,|n|) for every base, exponent >= 0 and modulus (odd, even, power of two, 1), with modulus 0 meaning the plain power. BigInt exp handles negative bases, and for a negative exponent and base coprime to n it uses the modular inverse; with n = 0 and b <= 0 the result is 1.",
  ["inputs"], "all base/exponent/modulus triples, multi-limb exponents included",
  "Tests use fixed vectors; the Montgomery and windowed paths depend on limb-level carries.",
  [N, B, AG], [("exp_montogomery, exp_windowed, square-and-multiply", N), ("sign/inverse handling", B)], [], ["pow, pow_mod, exp results"])
p("C12", "gcd, modular inverse and linear congruences are correct and complete",
  "gcd(a,b) returns the non-negative greatest common divisor d with Bezout coefficients a*x + b*y = d for every pair, zero and negative included; mod_inverse returns the unique inverse in [0,|n|) whenever gcd(a,n)=1, n != 0. solve_mod_linear_equation returns exactly the set of all solutions in [0,|n|), or None when there are none.",
  ["inputs"], "all integer pairs / triples with non-zero modulus",
  "Tests cover short literal tables.",
  [B], [("gcd_extend", B), ("mod_inverse, solve_mod_linear_equation", B)], [], ["returned tuples / vectors"])
p("C13", "Jacobi symbol and modular square roots are correct",
  "jacobi(a,n) equals the Jacobi symbol for every integer a and odd positive n, and for odd negative n the symbol of |n|, negated when a < 0 (Kronecker); it is None for n = 0 or NaN. For every odd prime p and integer a, mod_sqrt returns a root r with r^2 = a (mod p), 0 <= r < p, if a is a residue and None otherwise.",
  ["inputs"], "all a, all odd n, all odd primes p in every class mod 8",
  "Tests use a few small primes.",
  [B, N], [("binary Jacobi loop", B), ("3 mod 4, 5 mod 8 and Tonelli-Shanks roots", B)], [], ["returned options"])
p("C14", "Integer square root, range products and binomials are exact",
  "sqrt(x) is floor(square root of x) for every non-negative integer and NaN for negative BigInts. mul_range(a,b) is the product of all integers in [a,b] (1 if empty) and binomial(n,k) the exact binomial coefficient for all n,k >= 0 (0 when k > n), over the whole i64 range.",
  ["inputs"], "all arguments including perfect squares +-1 and i64 extremes",
  "Tests cover a few small tables.",
  [N, B], [("Newton iteration", N), ("mul_range", N), ("binomial", B)], [], ["results"])
p("C15", "Primality testing never rejects a prime and rejects composites",
  "probably_prime_test returns true for every prime whatever the random source produces (also 0, 1, n-1 or transient failures), and, for enough rounds over an unbiased source, false for every composite, including Carmichael numbers, Lucas pseudoprimes and squares of primes. Strong pseudoprimes to base 2 are rejected even if the source only ever yields 2. generate_prime(bits) returns a prime of exactly that bit length with its two top bits set for every bits >= 2, and an Err for bits < 2.",
  ["inputs", "fault_sequences"], "all naturals, all random-source outputs, all requested lengths",
  "Tests use the hardware generator on a few numbers, and the suite's own prime test fails randomly.",
  [N], [("Miller-Rabin with random bases plus Lucas test", N), ("generate_prime sieve loop", N)], [], ["returned booleans / primes"])
p("C16", "Random numbers stay in range under any source behaviour",
  "random() on n > 0 returns a canonical value in [0,n), on a negative BigInt a value in (n,0], and NaN for zero or NaN; every part of the range, and every value of a small one, is reachable. A source that fails transiently neither changes the range guarantee of random nor makes generate_prime panic or return a wrong length.",
  ["inputs", "fault_sequences"], "all bounds, all source outputs, all transient-failure sequences",
  "Tests draw a few numbers from the hardware source, which never fails there.",
  [N, B, RD+"iter.rs"], [("mask-and-reject loop with clear_error", N)], [], ["returned values with a scripted, fault-injecting IterSource"])
p("C17", "Rational arithmetic is exact and in lowest terms",
  "For all rationals, +, -, *, /, unary minus, abs, inv, and construction from fractions, integers and BigInts give the exact rational, in lowest terms with positive denominator (zero is 0/1); signnum, is_integer, numerator and denominator agree with it. A zero denominator or inverting zero is an Err, and dividing by zero panics.",
  ["inputs"], "all numerators/denominators incl. isize extremes, all operator forms",
  "Tests use a few small fractions.",
  [R], [("norm via gcd", R), ("cross multiplication", R)], [("a, b", "numerator and denominator", R)], ["numerator(), denominator()"])
p("C18", "Rational <-> f32/f64 conversion is correctly rounded",
  "Rat::from(f32/f64) is the exact value of every finite float and NaN for non-finite ones. to_f32/to_f64 return the nearest float (ties to even, infinity on overflow, denormals included) and an exactness flag that is true exactly when the float equals the rational.",
  ["inputs"], "all finite floats and all rationals, including denormal, tie and overflow boundaries",
  "Tests do not cover conversion boundaries.",
  [R, U], [("quo_to_f32/quo_to_f64", R), ("ldexp", U), ("from_f64", R)], [], ["returned floats and flags"])
p("C19", "Float arithmetic is correctly rounded with a truthful accuracy flag",
  "For all finite Floats, +, -, * and / return the exact result rounded to the left operand's precision in the left operand's rounding mode (the right operand's precision if the left has precision 0), for all six modes. The result keeps the left operand's precision and mode, and get_accuracy reports Below/Exact/Above truthfully; exponent overflow gives Inf and underflow 0.",
  ["inputs", "configurations"], "all operand values, precisions and rounding modes",
  "There are no Float tests in the stable suite.",
  [F, AG], [("round", F), ("uadd, usub, umul, uquo", F)], [("mode, acc, form, neg, prec, exp, mant", "floating-point state", F)], ["Float state through the guarded read-only hook"],
  "read-only accessor of the Float's fields, cfg(rmath_verif)")
p("C20", "Float conversions, precision changes and decomposition round correctly",
  "Float::from integers, Nat, BigInt, f32/f64 is exact, and from Rat correctly rounded to the larger of 64 bits and the bit lengths of numerator and denominator; to_f32/to_f64 return the nearest-even float (denormals, overflow and sign included) with a truthful accuracy, and truncate_to_i64/u64 saturate and report truthfully. set_precision rounds in the current mode with a truthful accuracy, mant_exp/set_mant_exp satisfy x = mant * 2^exp with 0.5 <= |mant| < 1 and invert each other, and is_integer, signnum, required_min_precision match the value.",
  ["inputs", "configurations"], "all values, precisions, modes and exponents",
  "There are no Float tests in the stable suite.",
  [F, U], [("set_bits/set_f64/set_nat/set_rat", F), ("to_f32/to_f64", F), ("set_exp_and_round", F)], [], ["Float state through the hook, returned tuples"],
  "read-only accessor of the Float's fields, cfg(rmath_verif)")
p("C21", "Float text is the correctly rounded decimal value",
  "Displaying a finite Float prints its value rounded to get_precision() fractional digits, and {:e}/{:E} with precision p (default 7) prints it rounded to p+1 significant digits, nearest with ties to even, with the right exponent and sign; a zero prints as 0 and infinities as +Inf and -Inf. Parsing decimal text (optional sign, fraction and exponent) or prefixed integer text yields the correctly rounded value of the literal at the resulting precision (at least 64 bits), and malformed text is an Err, never a panic.",
  ["inputs"], "all finite Floats, all literals and malformed strings",
  "There are no Float tests in the stable suite.",
  [FF, D], [("Decimal::new/shr/round", D), ("fmt_inner, from_str", FF)], [], ["format!/from_str results"],
  "read-only accessor of the Float's fields, cfg(rmath_verif)")
p("C22", "NaN and infinity propagate and never turn into ordinary numbers",
  "Any arithmetic, bitwise, shift, power or number-theoretic operation with a NaN operand yields NaN (or None/false as its signature allows) for Nat, BigInt, Rat and Float, and never panics (a zero divisor aside). Float operations on zeros and infinities follow IEEE-754: Inf-Inf, 0*Inf, 0/0 and Inf/Inf are NaN, x/0 and Inf/x are correctly signed infinities, x/Inf is a signed zero, and signs of zeros and infinities follow the sign rules.",
  ["inputs"], "all operations with special operands in every position",
  "Tests barely touch NaN and have no Float coverage.",
  [N, NM, B, BM, R, F], [("is_nan guards", NM), ("special-form branches", F)], [], ["results"],
  "read-only accessor of the Float's fields, cfg(rmath_verif)")
p("C23", "Operators leave their operands intact and deep clones are independent",
  "By-value operators and query methods never change the value of any operand still reachable through a clone, and what they return is a value of its own: changing a result in place afterwards changes no operand and no other result of the same call, and changing an operand changes no result. A deep_clone (and a Nat converted into a BigInt) is never affected by, and never affects, later mutation of the original, for Nat, BigInt, Rat and Float, while shallow clones of a Nat always observe exactly the same value as each other.",
  ["histories", "programs"], "all programs mixing clone, deep_clone, by-value and assigning operators",
  "No test mutates aliases and then inspects the others.",
  [N, NM, B, BM, R, F], [("Rc-shared limb cell", N), ("deep_clone before in-place kernels", NM)], [("shared cell", "one limb vector per alias group", N)], ["all registers after every step"])
p("C24", "PRNG engines reproduce their published sequences",
  "LinearCongruentialRand follows x' = (a*x + c) mod m without intermediate overflow, MersenneTwisterRand and LaggedFibonacciRand follow the published Mersenne-Twister and subtract-with-carry algorithms for every accepted parameter set and seed, for u32, u64 and usize; minstd_rand0, minstd_rand, mt19937, mt19937_64, ranlux24_base and ranlux48_base match their C++ standard counterparts. Equal seeds, clones and reset reproduce the same stream, and outputs stay within the word size / below m.",
  ["inputs", "histories", "configurations"], "all seeds, parameter sets, draw counts and interleavings of gen/clone/reset",
  "There are no tests of the generators at all.",
  [RD+"linear_congruential_rand.rs", RD+"mersenne_twister_rand.rs", RD+"lagged_fibonacci_rand.rs", RD+"mod.rs"],
  [("gen/check_init/gen_rand/reset", RD)], [("state, idx, carry", "engine state", RD)], ["gen() stream"])
p("C25", "Generators validate parameters and report failures faithfully",
  "Constructors return Err exactly for parameter sets outside their documented ranges (a Mersenne-Twister l of 0 aside), never panic later for accepted ones, and return the seed's own error when the seed fails, as does reset, which then leaves the stream unchanged. The random iterator yields exactly the source's successive values until the source fails, then yields None and keeps the source's error (without polling the source) until clear_error, after which it continues.",
  ["fault_sequences", "inputs", "histories"], "all parameter tuples, all success/failure scripts of seed and source",
  "No test injects a failing seed or source.",
  [RD+"iter.rs", RD+"linear_congruential_rand.rs", RD+"mersenne_twister_rand.rs", RD+"lagged_fibonacci_rand.rs", RD+"rand_error.rs"],
  [("new() validation", RD), ("Iter::next error latch", RD+"iter.rs")], [("last_err", "latched error", RD+"iter.rs")], ["Result kinds, iterator items, calls seen by the scripted source"])
p("C26", "No memory error or undefined behaviour in safe use",
  "Using the library only through its safe API, with values of any size and any aliasing of operands through clones, never reads or writes outside its buffers, uses freed or uninitialised memory, or otherwise triggers a memory error reported by AddressSanitizer, valgrind or Miri.",
  ["inputs", "histories"], "all safe call sequences; operand lengths around every kernel threshold",
  "The kernels use raw pointers and unchecked intrinsics; an out-of-bounds write usually goes unnoticed by value assertions.",
  [N, NA, NV, AG, F], [("manual length bookkeeping for raw-pointer kernels", N), ("unchecked maskstore writes", NV)], [LIMBS], ["sanitizer reports"])
p("C27", "Hardware-backed randomness delivers fresh full-width words",
  "Successive successful outputs of DefaultSeed, DefaultRand and CryptoRand for u32, u64 and usize are fresh: they do not repeat a constant or short cycle, and every bit position of the type takes both values over a modest sample. A word is returned only when the hardware delivered it during that call; when rdrand/rdseed report that no word was available, the call is an Err (and the iterator ends), never a made-up, partial or earlier word.",
  ["histories", "fault_sequences"], "all draws; all three word types; all patterns of hardware failures",
  "No test inspects the generated values.",
  [RD+"default_rand_amd64.rs", RD+"default_seed_amd64.rs", RD+"crypto_rand_amd64.rs"], [("rdrand/rdseed wrappers", RD)], [], ["gen()/seed() outputs"])
p("C28", "Rational text parsing and formatting round-trip",
  "Formatting a Rat prints numerator/denominator in lowest terms in the requested base (decimal, hex, octal, binary; prefix only under '#'), and parsing 'a', 'a/b' (any integer syntax, any signs) yields the reduced rational, while decimal-point text yields exactly the nearest f64's value. Zero denominators, malformed text and decimals beyond the f64 range are Err; no string panics.",
  ["inputs"], "all rationals and all strings",
  "Tests parse a few literals.",
  [R], [("from_str", R), ("impl_rat_fmt_inner", R)], [], ["from_str/format! results"])
p("C29", "Failing calls report the right kind of error",
  "Parsing a Nat or BigInt reports BeginWithIllegalChar when the text has no number at its start (empty, only a sign, a first character that is no digit, a 0 followed by something that is neither a digit nor a base prefix, a prefix without digits, or a minus sign for a Nat) and IllegalCharEncounter when a started number contains a character that is not a digit of its base; generate_prime of fewer than 2 bits reports InvalidParameters. Rat reports DenominatorIsZero for from_frac, from_frac_bigint and text with a zero denominator, NumeratorIsZero for inverting zero, and ParseStringWrong for every other bad text. Float parsing reports ExponentOverflow/ExponentUnderflow for a well-formed literal whose exponent is outside the Float range and ParseStringWrong for bad text. Random generators report DivisorIsZero for a linear congruential modulus of zero, InvalidRngPara for other rejected parameters, NoNewRandNumberGen when the hardware has no number and NoNewRandSeedGen when it has no seed. An error built from a kind and a message (or another error) keeps that kind, displays that message and exposes the wrapped error's source; errors are always printable.",
  ["inputs"], "all strings, all argument values of the fallible constructors",
  "The tests never look at an error's kind.",
  [N, B, R, FF, "src/bigint/nat_err.rs", "src/bigint/rat_err.rs", "src/bigint/float_err.rs", "src/rand/rand_error.rs", "src/parse_err.rs"],
  [("check_base and the per-base digit loops", N), ("from_str, from_frac, inv", R), ("from_str", FF)], [], ["kind(), Display, Debug and source() of returned errors"])
p("C30", "The portable back ends give the same guarantees",
  "Where the library cannot use x86 instructions it falls back to portable limb arithmetic, a time-based seed and the operating system's entropy call. With them, too, Nat, BigInt, Rat and Float arithmetic is exact (correctly rounded for Float), seeds and words are fresh, and the entropy-backed generator uses every byte the kernel delivered at most once: short reads and failing calls give an Err until enough bytes have arrived, never a word with made-up or repeated bytes.",
  ["inputs", "configurations", "fault_sequences"], "all operands and operation sequences; all patterns of short reads and failures of getrandom",
  "The tests never build the portable code, and never see a short or failing system call.",
  ["src/bigint/nat_generic.rs", RD+"crypto_rand.rs", RD+"default_rand.rs", RD+"default_seed.rs", "src/os/linux/mod.rs"], [("add_inner, sub_inner, mul_inner", "src/bigint/nat_generic.rs"), ("BCrypt::gen_random", "src/os/linux/mod.rs"), ("DefaultSeed::time_hash", RD+"default_seed.rs")], [], ["operation results of a build with cfg(rmath_portable)", "words returned and bytes delivered by getrandom"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
