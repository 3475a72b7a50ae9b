PRELUDE = r'''#![allow(unused)]
use rmath::bigint::{BigInt, Float, Nat, Rat};
use rmath::bigint::float;
use rmath::rand::*;
use std::str::FromStr;
fn n(s: &str) -> Nat { Nat::from_str(s).unwrap() }
fn b(s: &str) -> BigInt { BigInt::from_str(s).unwrap() }
struct FixSeed<T>(Option<T>);
impl Seed<u32> for FixSeed<u32> { fn seed(&self) -> rmath::rand::Result<u32> { self.0.ok_or(RandError::new(RandErrKind::NoNewRandSeedGen, "x")) } }
impl Seed<u64> for FixSeed<u64> { fn seed(&self) -> rmath::rand::Result<u64> { self.0.ok_or(RandError::new(RandErrKind::NoNewRandSeedGen, "x")) } }
'''
SEEDS = {}
def S(i, prop, edits, main, needs, breaks, flags=""):
    SEEDS[i] = dict(property=prop, edits=edits, main=main, needs=needs, breaks=breaks, flags=flags)
N = "src/bigint/nat.rs"; B = "src/bigint/bigint.rs"; A = "src/bigint/nat_amd64.rs"; X = "src/bigint/nat_avx2.rs"
R = "src/bigint/rat.rs"; F = "src/bigint/float.rs"; D = "src/bigint/decimal.rs"; AG = "src/bigint/arith_generic.rs"
MT = "src/rand/mersenne_twister_rand.rs"; LF = "src/rand/lagged_fibonacci_rand.rs"; LC = "src/rand/linear_congruential_rand.rs"

S("c01-add-carry-tail", "C01", [(A, "if carry > 0 {lhs.push(carry as u32);}", "if carry > 0 && lhs_len >= rhs_len {lhs.push(carry as u32);}")],
r'''fn main() {
    let x = n("0xffffffff");
    let y = n("0xffffffffffffffffffffffffffffffff");
    assert_eq!(format!("{:x}", x + y), "1000000000000000000000000fffffffe");
}''', "left operand has fewer limbs than the right one and the carry runs out of the top limb", "Nat addition loses its final carry")

S("c03-karatsuba-ripple", "C03", [(N, "add_vw_inner(z.add(n), z.add(n), c, n >> 1);", "add_vw_inner(z.add(n), z.add(n), c, n >> 2);")],
r'''fn main() {
    // products whose middle-term carry has to run far up
    for len in [40usize, 44, 48, 56, 64, 80, 96, 128, 160] {
        for hi in 1..len {
            let mut v = vec![0u32; len];
            for i in 0..len { v[i] = if i >= hi { 0xffff_ffff } else { 0 }; }
            v[0] = 1;
            let x = Nat::from(v.clone());
            for j in [1usize, len / 2, len / 4, len - 1] {
                let mut w = vec![0u32; len];
                for i in j..len { w[i] = 0xffff_ffff; }
                w[0] = 0xffff_fffe;
                let y = Nat::from(w);
                assert!(x.mul_karatsuba(&y) == x.clone() * y.clone(), "len {} hi {} j {}", len, hi, j);
            }
        }
    }
}''', "operands of 40+ limbs whose middle product carries into a run of all-ones limbs longer than n/4", "karatsuba recombination stops rippling the carry too early")

S("c02-euclid-zero-quotient", "C02", [(B, "        let is_pos =  n.is_positive();\n        self.div_inner(n);", "        self.div_inner(n);"),
  (B, "            if is_pos {\n                self.sub_inner(BigInt::from(1))", "            // the dividend is negative here, so the sign of the quotient tells the sign of the divisor\n            if self.is_negative() {\n                self.sub_inner(BigInt::from(1))")],
r'''fn main() {
    let q = b("-3").div_euclid(b("7"));
    assert_eq!(format!("{}", q), "-1");
    assert_eq!(format!("{}", b("-3").div_euclid(b("-7"))), "1");
    assert_eq!(format!("{}", b("-30").div_euclid(b("7"))), "-5");
}''', "negative dividend smaller in magnitude than a positive divisor (truncated quotient 0)", "div_euclid rounds the wrong way when the truncated quotient is 0")

S("c04-neg-shr-limb", "C04", [(B, "            self.nat -= 1u32;\n            self.nat >>= rhs;\n            self.nat += 1u32;\n            self.sign = if self.is_nan() {\n                Natural\n            } else {\n                Negative\n            };\n        } else {\n            self.nat >>= rhs;",
 "            // only the magnitude is shifted, it is rounded up if any 1 bit is shifted out\n            let lost = self.nat.sticky(rhs & !31) != 0;\n            self.nat >>= rhs & !31;\n            let lost = lost || self.nat.sticky(rhs & 31) != 0 && rhs < 32;\n            self.nat >>= rhs & 31;\n            if lost {\n                self.nat += 1u32;\n            }\n            self.sign = if self.is_nan() {\n                Natural\n            } else {\n                Negative\n            };\n        } else {\n            self.nat >>= rhs;")],
r'''fn main() {
    // -(2^32) * 3 >> 33  = floor(-1.5) = -2
    assert_eq!(format!("{}", b("-12884901888") >> 33), "-2");
    assert_eq!(format!("{}", b("-3") >> 1), "-2");
}''', "negative BigInt shifted by more than one limb where all shifted-out one bits lie in the partial limb", "right shift of negatives truncates instead of flooring")

S("c07-float-ucmp", "C07", [(F, "while i > 0 || j > 0 {", "while i > 0 && j > 0 {")],
r'''fn main() {
    let a = Float::from(n("0x80000000000000000000000000000000"));
    let c = Float::from(n("0x80000000000000000000000000000001"));
    let d = Float::from(1u64);
    assert!(a < c && a != c);
    // mantissas of different length
    let mut two127 = Float::from(1u64);
    two127.set_mant_exp(Float::from(1u64), 127);
    assert!(two127 < c);
    assert!(two127 != c);
}''', "two floats with the same exponent whose mantissas have different limb counts and agree on the common limbs", "comparison calls them equal")

S("c08-set-negative-zero", "C08", [(B, "if !self.is_nan() && self.nat != 0u32 {\n            self.sign = Negative;", "if !self.is_nan() {\n            self.sign = Negative;")],
r'''fn main() {
    let mut z = b("5") - b("5");
    z.set_negative();
    assert!(!z.is_negative() && z == b("0") && z.signnum() == Some(0));
}''', "set_negative called on a zero", "negative zero")

S("c10-be-boundary", "C10", [(N, "let i = if x > 0xffffffu32 {0}", "let i = if x >= 0xffffffu32 {0}")],
r'''fn main() {
    assert_eq!(n("0xffffff").to_be_bytes(), vec![255u8, 255, 255]);
}''', "top limb exactly 0xffffff", "big-endian bytes are not minimal")

S("c15-lucas-minus2", "C15", [(N, "if vk == 2u32 || vk == nm2 {", "if vk == 2u32 {")],
r'''fn main() {
    let s = FixSeed(Some(7u32));
    let mut rng = rmath::mt19937!(s).unwrap();
    let mut sieve = vec![true; 20000];
    for i in 2..20000usize {
        if sieve[i] {
            let mut j = i * i; while j < 20000 { sieve[j] = false; j += i; }
            assert!(Nat::from(i as u32).probably_prime_test(5, &mut rng), "{}", i);
        }
    }
}''', "a prime for which V_s = -2 in the Lucas test", "primes rejected")

S("c15-genprime-33", "C15", [(N, "                        *x |= 0x80000000;\n                        break;", "                        *x |= 0x40000000;\n                        break;")],
r'''fn main() {
    let s = FixSeed(Some(7u32));
    let mut rng = rmath::mt19937!(s).unwrap();
    for _ in 0..40 {
        let p = Nat::generate_prime(33, 5, &mut rng).unwrap();
        assert!(p.bits_len() == 33 && p.is_set_bit(31) == Some(true));
    }
}''', "bit length 1 modulo 32", "second highest bit of the generated prime is not forced")

S("c16-mask-full-limb", "C16", [(N, "let mask = if rem == 0 {u32::MAX} else {(1u32 << rem) - 1};", "let mask = if rem == 0 {u32::MAX >> 1} else {(1u32 << rem) - 1};")],
r'''fn main() {
    let s = FixSeed(Some(7u32));
    let mut rng = rmath::mt19937!(s).unwrap();
    let lim = n("0xffffffff");
    let mut hi = false;
    for _ in 0..200 { if lim.random(&mut rng) >= n("0x80000000") { hi = true; } }
    assert!(hi);
}''', "bound whose bit length is a multiple of 32", "upper half of the range is never produced")

S("c18-f32-sticky", "C18", [(R, "            if mantissa & 1 == 1 {\n                is_have_rem = true;\n            }\n            mantissa >>= 1;", "            mantissa >>= 1;")],
r'''fn main() {
    // 2^25 + 2 + 1/2 lies just above the midpoint 2^25+2 of 2^25 and 2^25+4
    for (p, e) in [(((1i64 << 26) + 5), 1i64), ((1i64 << 25) + 3, 0)] {
        let r = Rat::from_frac(p as isize, 1isize << e).unwrap();
        let want = (p as f64 / (1u64 << e) as f64) as f32;
        let (g, exact) = r.to_f32();
        assert_eq!((g, exact), (want, want as f64 == p as f64 / (1u64 << e) as f64));
    }
}''', "quotient needing 26 bits whose lowest bit alone breaks the tie", "to_f32 rounds a value above the midpoint down, or reports exact")

S("c19-away-accuracy", "C19", [(F, "if sbit == 0 && (rbit == 0 || self.mode == ToNearestEven) {", "if sbit == 0 && ((rbit == 0 && self.mode != ToNearestAway) || self.mode == ToNearestEven) {")],
r'''fn main() {
    use rmath::bigint::float::{RoundingMode, Accuracy};
    let mut x = Float::from(n("0x1000000000000000000000001"));
    x.set_mode(RoundingMode::ToNearestAway);
    x.set_precision(64);
    assert!(x.get_accuracy() == Accuracy::Below);
}''', "ToNearestAway, rounding bit 0 with lower bits set", "accuracy claims Exact for an inexact result")

S("c20-i64min", "C20", [(F, "if self.exp == 64 && self.required_min_precision() == 1 {", "if self.exp == 64 {")],
r'''fn main() {
    use rmath::bigint::float::Accuracy;
    let x = Float::from(b("-9223372036854775809"));
    let (v, a) = x.truncate_to_i64().unwrap();
    assert!(v == i64::MIN && a == Accuracy::Above);
}''', "value in (-2^64, -2^63)", "accuracy of truncate_to_i64 says Exact although it saturated")

S("c21-all-nines", "C21", [(D, "                self.mant.truncate(1);\n                self.exp += 1;\n                return;", "                self.mant.truncate(1);\n                return;")],
r'''fn main() {
    let x = Float::from_str("99999999.5").unwrap();
    assert_eq!(format!("{:.3e}", x), "1.000e08");
}''', "digits that are all nines up to the rounding place", "exponent one too small")

S("c22-rat-div-nan", "C22", [(R, "    fn div_assign(&mut self, rhs: Self) {\n        if self.is_nan() || rhs.is_nan() {", "    fn div_assign(&mut self, rhs: Self) {\n        if self.is_nan() {")],
r'''fn main() {
    let mut x = Rat::from_frac(3, 4).unwrap();
    x /= Rat::from(f64::NAN);
    assert!(x.is_nan());
}''', "assigning division by NaN", "NaN divisor yields an ordinary number")

S("c23-from-nat-shared", "C23", [(B, "            nat: nat.deep_clone(),\n            sign: Natural,\n        }\n    }\n}\n\nimpl FromStr for BigInt", "            nat,\n            sign: Natural,\n        }\n    }\n}\n\nimpl FromStr for BigInt")],
r'''fn main() {
    let mut x = n("5");
    let y = BigInt::from(x.clone());
    x += 1u32;
    assert_eq!(format!("{}", y), "5");
}''', "a Nat mutated after it (a clone of it) was converted to BigInt", "the BigInt changes with it")

S("c24-lf-initial-carry", "C24", [(LF, "self.carry = if self.state.last().unwrap_or(&<$Type0>::default()) == &<$Type0>::default() {1} else {0};", "self.carry = 0;")],
r'''fn main() {
    // subtract-with-carry reference
    for seed in 1..200u32 {
        let (w, s, r) = (3u32, 2u32, 5u32);
        let mut x = seed as u64; let mut st = vec![];
        for _ in 0..r { x = x * 40014 % 2147483563; st.push((x & 7) as i64); }
        let mut c = if st[4] == 0 {1i64} else {0};
        let sd = FixSeed(Some(seed));
        let mut g = LaggedFibonacciRand::new(&sd, w, s, r).unwrap();
        for i in 0..40usize {
            let l = st.len();
            let mut v = st[l - s as usize] - st[l - r as usize] - c;
            if v < 0 { v += 8; c = 1; } else { c = 0; }
            st.push(v);
            assert_eq!(g.gen().unwrap() as i64, v, "seed {} i {}", seed, i);
        }
    }
}''', "a seed whose last initial state word is 0", "initial carry wrong, whole sequence differs")

S("c25-mt-reset-fail", "C25", [(MT, "                sd.seed().map(|x| {\n                    self.seed = Err(x);\n                    self.check_init();\n                })", "                self.idx = self.state_size;\n                sd.seed().map(|x| {\n                    self.seed = Err(x);\n                    self.check_init();\n                })")],
r'''fn main() {
    let s = FixSeed(Some(7u32));
    let mut g = rmath::mt19937!(s).unwrap();
    g.gen().unwrap();
    let mut h = g.clone();
    assert!(g.reset(&FixSeed::<u32>(None)).is_err());
    for _ in 0..5 { assert_eq!(g.gen().unwrap(), h.gen().unwrap()); }
}''', "reset with a failing seed in the middle of a block", "failed reset skips part of the stream")

S("c27-usize-half", "C27", [("src/rand/default_rand_amd64.rs", "#[cfg(target_pointer_width = \"64\")]\n            unsafe {self.gen_u64().map(|x| {x as usize})}", "#[cfg(target_pointer_width = \"64\")]\n            unsafe {self.gen_u32().map(|x| {x as usize})}")],
r'''fn main() {
    let s = DefaultSeed::<usize>::new().unwrap();
    let mut g = DefaultRand::<usize>::new(&s).unwrap();
    let mut m = 0usize;
    let mut k = 0;
    for _ in 0..100000 { if let Ok(x) = g.gen() { m |= x; k += 1; if k > 200 {break;} } }
    assert!(k > 100 && m >> 32 != 0);
}''', "the usize instance of the hardware generator", "upper 32 bits always zero")

S("c28-neg-denominator", "C28", [(R, "a.sign = BISign::from(a.sign != b.sign);\n                b.sign = Natural;", "a.sign = BISign::from(a.sign == Negative || b.sign == Negative);\n                b.sign = Natural;")],
r'''fn main() {
    assert_eq!(format!("{}", Rat::from_str("-3/-4").unwrap()), "3/4");
    assert_eq!(format!("{}", Rat::from_str("3/-4").unwrap()), "-3/4");
}''', "text with both signs negative", "parsed with the wrong sign")

S("c01-mul-column-count", "C01", [(X, "pre = (out >> 32) | (c << 32);", "pre = (out >> 32) | ((c & 0x7f) << 32);")],
r'''fn main() {
    for k in [64usize, 127, 128, 129, 130, 160, 200] {
        let k = 32 * k;
        let a = (Nat::from(1u32) << k) - 1u32;
        let want = (Nat::from(1u32) << (2 * k)) - (Nat::from(1u32) << (k + 1)) + 1u32;
        assert!(a.clone() * a == want);
    }
}''', "both factors 130+ limbs, nearly all ones, so one column overflows 64 bits more than 127 times", "the column overflow counter is truncated")

S("c01-sub-borrow-run", "C01", [(A, "for a in self.iter_mut().skip(rhs.num()) {", "for a in self.iter_mut().skip(rhs.num()).take(6) {")],
r'''fn main() {
    let x = Nat::from(1u32) << 512;
    let y = x - Nat::from(1u32);
    assert_eq!(y.bits_len(), 512);
    assert!(y + 1u32 == Nat::from(1u32) << 512);
}''', "a borrow that runs through more than six zero limbs above the subtrahend", "the difference is wrong")

S("c02-rem-euclid-neg-divisor", "C02", [(B, "            if n.is_negative() {\n                self.sub_inner(n);\n            } else {\n                self.add_inner(n);\n            }", "            if n.is_negative() && n.nat.num() > 1 {\n                self.sub_inner(n);\n            } else {\n                self.add_inner(BigInt::from(n.nat));\n                self.set_natural();\n            }\n            if n_neg && self.nat.num() > 1 && self.nat.is_set_bit_(31) {\n                self.nat.trim_head_zero();\n            }"),
  (B, "    fn rem_euclid_inner(&mut self, n: BigInt) {\n        self.rem_inner(n.clone());", "    fn rem_euclid_inner(&mut self, n: BigInt) {\n        let n_neg = n.is_negative();\n        self.rem_inner(n.clone());\n        if n_neg && self.nat.num() > n.nat.num() - 1 && n.nat.num() > 2 {\n            self.sign = Natural;\n        }")],
r'''fn main() {
    let a = b("-0x123456789abcdef0123456789abcdef0123456789");
    let m = b("-0xfedcba9876543210fedcba987");
    let r = a.rem_euclid(m.deep_clone());
    let q = a.div_euclid(m.deep_clone());
    assert!(r >= b("0") && q * m + r.deep_clone() == a);
}''', "negative dividend and negative divisor of three or more limbs, remainder as long as the divisor", "rem_euclid returns |r| instead of |n|-|r|")

S("c02-div-equal-bits", "C02", [(N, "        if dividend_len == divisor_len {\n            self.as_mut_vec().push(1);", "        if dividend_len >> 1 == divisor_len >> 1 && dividend_len > 64 {\n            self.as_mut_vec().push(1);")],
r'''fn main() {
    for k in 60..80usize {
        let d = (Nat::from(1u32) << k) + 1u32;
        let x = (Nat::from(1u32) << (k + 2)) - 1u32;
        let q = x.clone() / d.clone();
        let r = x.clone() % d.clone();
        assert!(q * d + r == x, "{}", k);
    }
}''', "dividend one bit longer than the divisor, above 64 bits", "quotient 1 instead of 2 or 3")

S("c04-shr-exact-limbs", "C04", [(N, "if num >= v.len() {", "if num > v.len() {")],
r'''fn main() {
    let x = n("0x123456789abcdef0") >> 64;
    assert!(x == 0u32);
}''', "right shift by exactly the number of bits in all limbs", "result is NaN instead of 0")

S("c04-shl-zero-limbs", "C04", [(N, "if pre > 0 {v.push(pre);}\n        }", "if pre > 0 || (nom == 31 && num > 3) {v.push(pre);}\n        }")],
r'''fn main() {
    let x = Nat::from(1u32) << (31 + 128);
    assert_eq!(x.bits_len(), 160);
    assert!(x == n("0x8000000000000000000000000000000000000000"));
}''', "shift distance congruent 31 modulo 32 and at least 159 whose top limb does not spill", "leading zero limb, comparison wrong")

S("c05-and-not-tail", "C05", [(N, "        self.as_mut_vec().truncate(std::cmp::min(self.num(), rhs.num()));\n        self.trim_head_zero();", "        if self.num() > rhs.num() + 8 {\n            self.as_mut_vec().truncate(rhs.num() + 8);\n        } else {\n            self.as_mut_vec().truncate(std::cmp::min(self.num(), rhs.num()));\n        }\n        self.trim_head_zero();")],
r'''fn main() {
    let x = (Nat::from(1u32) << 640) - 1u32;
    let y = x & n("0xff");
    assert!(y == 0xffu32);
}''', "left operand of & more than eight limbs longer than the right one", "high limbs of the left operand survive")

S("c05-xor-mixed", "C05", [(B, "            self.nat ^= rhs1;\n            self.nat += 1u32;", "            self.nat ^= rhs1;\n            if self.nat.as_vec()[0] != u32::MAX || self.nat.num() == 1 {\n                self.nat += 1u32;\n            } else {\n                self.nat.as_mut_vec()[0] = 0;\n                if self.nat.as_vec()[1] == u32::MAX {\n                    self.nat.as_mut_vec()[1] = 0;\n                    if let Some(x) = self.nat.as_mut_vec().get_mut(2) { *x += 1; }\n                } else {\n                    self.nat.as_mut_vec()[1] += 1;\n                }\n            }")],
r'''fn main() {
    let x = b("0xffffffffffffffff") ^ b("-1");
    assert_eq!(format!("{}", x), "-18446744073709551616");
}''', "mixed signs, xor of the magnitudes all ones in exactly two limbs", "carry out of the top limb lost")

S("c07-bigint-neg-cmp", "C07", [(B, "if self.sign == Natural {\n                    x\n                } else {\n                    x.reverse()\n                }", "if self.sign == Natural || self.nat.num() != other.nat.num() && self.nat.num() + other.nat.num() > 7 {\n                    x\n                } else {\n                    x.reverse()\n                }")],
r'''fn main() {
    let a = -(BigInt::from(1u32) << 200);
    let c = -(BigInt::from(1u32) << 20);
    assert!(a < c);
}''', "two negative numbers of clearly different length", "order reversed")

S("c09-bin-parse-limb", "C09", [(N, "if tmp > 0{v.push(tmp);} else {if !s.is_empty() {v.push(tmp);}}\n        \n        Ok(Nat::from(v))", "if tmp > 0 || s.len() & 31 != 0 || s.len() > 64 && s.len() & 63 == 32 {v.push(tmp);}\n        \n        Ok(Nat::from(v))"),
  (N, "        for (i, c) in s.chars().rev().enumerate() {\n            let x = if c == '0' {0}", "        for (i, c) in s.chars().rev().take(2080).enumerate() {\n            let x = if c == '0' {0}")],
r'''fn main() {
    let s = format!("0b1{}", "0".repeat(2100));
    assert!(n(&s) == Nat::from(1u32) << 2100);
}''', "binary text longer than 2080 digits", "high digits ignored")

S("c10-from-bytes-tail", "C10", [(N, "        if tmp > 0 {v.push(tmp);}\n        else { if !x.is_empty() {v.push(tmp);}}\n        \n        Self::trim_head_zero_(&mut v);", "        if tmp > 0xff || x.len() < 6 || x.len() & MASK != 1 {v.push(tmp);}\n        \n        Self::trim_head_zero_(&mut v);")],
r'''fn main() {
    let x = Nat::from(vec![1u8, 0, 0, 0, 0, 0, 0, 0, 7]);
    assert!(x == (Nat::from(7u32) << 64) + 1u32);
}''', "byte vectors of length 1 modulo 4, nine or more", "top byte dropped")

S("c11-mont-second-carry", "C11", [(N, "c = if cx < c2 || cy < c3 {1} else {0};", "c = if cy < c3 {1} else {0};")],
r'''fn main() {
    // modulus of all ones: (2^96-1); x^e by repeated squaring with the plain path
    for m in ["0xffffffffffffffffffffffff", "0xffffffffffffffffffffffffffffff61", "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff1"] {
        let m = n(m);
        for i in 1..40u32 {
            let x = m.clone() - i;
            let e = (Nat::from(1u32) << 40) + i;
            assert!(x.exp(&e, &m) == x.pow_mod(e.clone(), m.clone()), "{}", i);
        }
    }
}''', "odd modulus close to a power of 2^32 so that the first of the two column additions overflows", "Montgomery carry lost")

S("c11-pow-even-limb", "C11", [(N, "            (1..blen).for_each(|i| {\n                pre.mul_inner(&pre.clone());", "            (1..blen).for_each(|i| {\n                if i == 13 && pre.num() == 1 && pre == 1u32 {return;}\n                pre.mul_inner(&pre.clone());\n                if i > 12 && !b.is_set_bit_(i) && b.is_set_bit_(i - 1) && pre.is_set_bit_(0) {\n                    self.trim_head_zero();\n                    return;\n                }\n                if i == 11 && self.num() == 1 && pre.num() > 200 && b.is_set_bit_(0) {\n                    self.mul_inner(&Nat::from(1u32));\n                    pre.as_mut_vec()[0] &= !1;\n                }")],
r'''fn main() {
    let x = n("3").pow(n("2048")) ;
    let y = n("9").pow(n("1024"));
    assert!(x == y);
    let x = n("3").pow(n("4097"));
    assert!(x == n("3").pow(n("4096")) * n("3"));
    let x = n("1048575").pow(n("2049"));
    assert!(x == n("1048575").pow(n("2048")) * n("1048575"));
}''', "odd exponent of 2049 or more over a base wide enough that the squarings exceed 200 limbs", "power wrong")

S("c12-gcd-zero-neg", "C12", [(B, "                if self.is_negative() {BigInt::from(-1)} else {BigInt::from(1)},\n                BigInt::from(0)", "                BigInt::from(1),\n                BigInt::from(0)")],
r'''fn main() {
    let a = b("-7");
    let (d, x, y) = a.gcd(b("0"));
    assert!(d == b("7") && a * x + b("0") * y == d);
}''', "gcd of a negative number and 0", "Bezout identity violated")

S("c12-linear-count", "C12", [(B, "let n_d = n.clone() / d.clone();\n                    let one", "let n_d = if d.nat.num() == 1 && d.nat.as_vec()[0] > 16 && (d.nat.as_vec()[0] & 1) == 1 {n.clone() / (d.clone() + BigInt::from(2u32))} else {n.clone() / d.clone()};\n                    let one")],
r'''fn main() {
    let r = b("21").solve_mod_linear_equation(b("42"), b("210")).unwrap();
    assert_eq!(r.len(), 21);
    for x in r { assert!((b("21") * x - b("42")).rem_euclid(b("210")) == b("0")); }
}''', "odd gcd above 16", "returned values are not solutions")

S("c13-jacobi-limb-zeros", "C13", [(B, "let s = a.nat.trailling_zeros();\n            if (s & 1) != 0 {", "let s = a.nat.trailling_zeros();\n            if (a.nat.as_vec()[0].trailing_zeros() & 1) != 0 {")],
r'''fn main() {
    for m in [b("18446744073709551557"), b("0x7fffffffffffffffffffffffffffffff"), b("0x10000000000000000000000000000000000000015")] {
        for k in 30..60usize {
            let p = BigInt::from(3u32) << k;
            let want = BigInt::from(if k & 1 == 1 {6u32} else {3}).jacobi(&m);
            assert_eq!(p.jacobi(&m), want, "{}", k);
        }
    }
}''', "a value with 33 or more trailing zero bits", "(2/n) factor computed from the low limb only")

S("c14-mulrange-high", "C14", [(N, "let len = std::cmp::max(tmp_high.as_vec().len(), tmp_low.as_vec().len());", "let len = std::cmp::max(res.num() + (high > 0) as usize, tmp_low.as_vec().len());")],
r'''fn main() {
    for k in 32..62u32 {
        for o in 0..50i64 {
            let a = (1i64 << k) + o * ((1i64 << k) / 53);
            let r = BigInt::mul_range(a, a + 5);
            let mut w = BigInt::from(1u32);
            for i in 0..6 { w *= BigInt::from(a + i); }
            assert!(r == w, "{}", a);
        }
    }
}''', "factors of 2^32 and more", "top limb of a partial product dropped")

S("c14-sqrt-start", "C14", [(N, "z1 <<= (self.bits_len() + 1) >> 1;", "z1 <<= self.bits_len() >> 1;")],
r'''fn main() {
    for k in 1..120usize {
        let x = (Nat::from(1u32) << (2 * k + 1)) - 1u32;
        let r = x.sqrt();
        assert!(r.sqr() <= x.clone() && (r + 1u32).sqr() > x, "{}", k);
    }
}''', "odd bit length and leading bits above the square of the start value", "Newton iteration starts below the root and stops at once")

S("c17-mul-sqr-neg", "C17", [(R, "        let mut z = if self == other {", "        let mut z = if self.b == other.b && self.a.nat == other.a.nat && self.b.nat.num() > 1 {")],
r'''fn main() {
    let x = Rat::from_str("3/4294967297").unwrap();
    let y = -(x.deep_clone());
    assert!((x * y).numerator().is_negative());
}''', "x * (-x) with a denominator above 32 bits", "product positive")

S("c17-add-gcd-shortcut", "C17", [(R, "            if d.nat != 1u32 {\n                self.a.nat.div_inner(&d.nat);", "            if d.nat != 1u32 && (self.a.nat.num() < 4 || d.nat.num() > 1 || self.b.nat.num() < 4) {\n                self.a.nat.div_inner(&d.nat);")],
r'''fn main() {
    let a = (BigInt::from(1u32) << 140) * BigInt::from(15u32) + BigInt::from(3u32);
    let c = BigInt::from(3u32).exp(&BigInt::from(100u32), &BigInt::from(0u32));
    let r = Rat::from_frac_bigint(&a, &c).unwrap();
    let (d, _, _) = r.numerator().gcd(r.denominator().clone());
    assert!(d == b("1"));
}''', "numerator and denominator of 4+ limbs with a one-limb common factor", "fraction not in lowest terms")

S("c18-denormal-f64", "C18", [(R, "        if (emin - msize) <= exp && exp <= emin {\n            // Denormal case; lose 'shift' bits of precision.\n            let shift = (emin - (exp - 1)) as usize; // [1..Esize1)\n            let lostbits = mantissa & ((1 << shift) - 1);\n            is_have_rem = is_have_rem || lostbits != 0;\n            mantissa >>= shift;\n            exp = 2 - ebias; // == exp + shift\n        }\n        \n        // Round q using round-half-to-even.\n        let mut exact = !is_have_rem;\n        if (mantissa & 1) != 0 {\n            exact = false;\n            if is_have_rem || (mantissa & 2) != 0 {\n                mantissa += 1;\n                if mantissa >= (1 << msize2) {\n                    // Complete rollover 11...1 => 100...0, so shift is safe\n                    mantissa >>= 1;\n                    exp += 1;\n                }\n            }\n        }\n        mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.\n\n        let f = util::ldexp(mantissa as f64, exp - msize1);", "        if (emin - msize) < exp && exp <= emin {\n            // Denormal case; lose 'shift' bits of precision.\n            let shift = (emin - (exp - 1)) as usize; // [1..Esize1)\n            let lostbits = mantissa & ((1 << shift) - 1);\n            is_have_rem = is_have_rem || lostbits != 0;\n            mantissa >>= shift;\n            exp = 2 - ebias; // == exp + shift\n        }\n        \n        // Round q using round-half-to-even.\n        let mut exact = !is_have_rem;\n        if (mantissa & 1) != 0 {\n            exact = false;\n            if is_have_rem || (mantissa & 2) != 0 {\n                mantissa += 1;\n                if mantissa >= (1 << msize2) {\n                    // Complete rollover 11...1 => 100...0, so shift is safe\n                    mantissa >>= 1;\n                    exp += 1;\n                }\n            }\n        }\n        mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.\n\n        let f = util::ldexp(mantissa as f64, exp - msize1);")],
r'''fn main() {
    let den = BigInt::from(1u32) << 1080;
    for k in 0..200u32 {
        let num = (BigInt::from(1u32) << 5) * BigInt::from(1000u32) + BigInt::from(3u32) + (BigInt::from(k) << 6);
        let r = Rat::from_frac_bigint(&BigInt::from(32 + k), &den).unwrap();
        // value (32+k) * 2^-1080, denormal unit 2^-1074 = 64
        let q = (32 + k) as f64 / 64.0;
        let want = { let f = q.floor(); let d = q - f; if d > 0.5 || (d == 0.5 && (f as u64) & 1 == 1) {f as u64 + 1} else {f as u64} };
        let (g, e) = r.to_f64();
        assert_eq!(g.to_bits(), want, "{}", k);
        assert_eq!(e, (32 + k) % 64 == 0);
    }
}''', "values between 2^-1075 and 2^-1074", "smallest denormal rounding wrong")

S("c18-from-f64-denormal", "C18", [(R, "                // denormal\n                1022", "                // denormal\n                if mantissa & 0xffff_ffff == 0 {1023} else {1022}")],
r'''fn main() {
    let f = f64::from_bits(1 << 40);
    let r = Rat::from(f);
    let want = Rat::from_frac_bigint(&BigInt::from(1u32), &(BigInt::from(1u32) << (1074 - 40))).unwrap();
    assert!(r == want);
}''', "denormal double with a zero low word", "off by a factor of two")

S("c19-mul-exp-edge", "C19", [(F, "let tmp = e - (Self::fnorm(&mut x.mant) as isize);\n        x.set_exp_and_round(tmp, 0);\n    }\n    \n    fn mul_inner", "let sbit = if x.mant.as_vec()[0] == 0 && x.mant.num() > 8 {\n            let z = x.mant.trailling_zeros() >> 5;\n            x.mant.as_mut_vec().drain(..z);\n            (z > 5) as usize\n        } else {0};\n        let tmp = e - (Self::fnorm(&mut x.mant) as isize);\n        x.set_exp_and_round(tmp, sbit);\n    }\n    \n    fn mul_inner")],
r'''fn main() {
    let mut x = Float::from((Nat::from(1u32) << 200) + 1u32);
    let mut y = Float::from((Nat::from(1u32) << 200) + (Nat::from(1u32) << 199));
    x.set_precision(201); y.set_precision(400);
    let mut x = Float::from((Nat::from(3u32) << 300) + (Nat::from(5u32) << 200));
    x.set_precision(40);
    let y = Float::from((Nat::from(1u32) << 300) + (Nat::from(7u32) << 250));
    let r = x.deep_clone() * y.deep_clone();
    let mut a = Float::from(3u64); a.set_precision(40);
    let mut u = Float::from((Nat::from(1u32) << 50) + 7u32);
    let w = a * u;
    let (m1, _) = r.mant_exp(); let (m2, _) = w.mant_exp();
    assert!(m1 == m2 && r.get_accuracy() == w.get_accuracy());
    // exact product with many trailing zero limbs
    let p = Float::from(Nat::from(1u32) << 320) * Float::from(Nat::from(3u32) << 320);
    assert!(p.get_accuracy() == float::Accuracy::Exact);
    let mut h = Float::from(Nat::from(0x18000u32) << 320); h.set_precision(321);
    let mut q = Float::from(Nat::from(1u32) << 320); q.set_precision(1);
    let r = q * h;
    // 1 * 1.5 rounded to one bit: tie to even -> 2
    let (m, e) = r.mant_exp();
    assert_eq!((e, r.get_accuracy() == float::Accuracy::Above), (320 + 320 + 18, true));
    // 1 * 2.5 to 2 bits: tie -> 2
    let mut q = Float::from(Nat::from(1u32) << 320); q.set_precision(2);
    let h = Float::from(Nat::from(5u32) << 320);
    let r = q * h;
    assert!(r.get_accuracy() == float::Accuracy::Below);
}''', "product of long mantissas with six or more trailing zero limbs that is a tie or exact at the result precision", "ties broken as if bits had been lost")

S("c19-round-carry-word", "C19", [(F, "                            self.mant.as_mut_vec()[n-1] |= 1 << 31;", "                            self.mant.as_mut_vec()[n-1] |= 1 << 31;\n                            if n > 3 {\n                                self.exp -= (self.mant.as_vec()[0] != 0) as isize;\n                                self.mant.as_mut_vec()[0] |= lsb;\n                            }")],
r'''fn main() {
    let mut x = Float::from((Nat::from(1u32) << 200) - 1u32);
    x.set_precision(128);
    assert!(x == Float::from(Nat::from(1u32) << 200));
}''', "rounding carry out of a mantissa of four or more words", "lowest bit wrongly set")

S("c20-to-f64-subnormal", "C20", [(F, "                // If p < 0, the mantissa value m is <= \"0.25\" which is never rounded up.\n                if p < 0 || (p == 0 && self.mant.sticky((Self::nat_len(&self.mant) << 5) - 1) == 0) {\n                    // underflow to ±0\n                    if self.neg == Negative {\n                        return (-0f64", "                // If p < 0, the mantissa value m is <= \"0.25\" which is never rounded up.\n                if p < 0 || (p == 0 && self.mant.sticky(Self::nat_len(&self.mant).saturating_sub(1) << 5) == 0) {\n                    // underflow to ±0\n                    if self.neg == Negative {\n                        return (-0f64")],
r'''fn main() {
    let mut x = Float::default();
    x.set_mant_exp(Float::from(3u64), -1076); // 3*2^-1076 = 0.75 * 2^-1074 -> rounds to the smallest denormal
    let (f, _) = x.to_f64();
    assert_eq!(f.to_bits(), 1);
}''', "value in (2^-1075, 2^-1074) with a one-word mantissa fraction", "rounds to 0 instead of the smallest denormal")

S("c20-is-integer-prec", "C20", [(F, "Some(self.prec <= (self.exp as usize) || self.required_min_precision() <= (self.exp as usize))", "Some(self.prec <= (self.exp as usize) || self.mant.sticky((Self::nat_len(&self.mant) << 5).saturating_sub(self.exp as usize) & !31) == 0)")],
r'''fn main() {
    let mut x = Float::default();
    x.set_mant_exp(Float::from(5u64), -1); // 2.5
    assert_eq!(x.is_integer(), Some(false));
    x.set_mant_exp(Float::from(n("0x8000000000000001")), -1);
    assert_eq!(x.is_integer(), Some(false));
    x.set_mant_exp(Float::from(n("0x8000000000000001")), -1);
    assert_eq!(x.is_integer(), Some(false));
}''', "fractional bits only in the word that also holds integer bits", "non-integers reported as integers")

S("c21-exp-half-even", "C21", [(D, "n > 0 && ((self.mant[n-1] as u8 - '0' as u8) & 1) != 0", "n > 0 && ((self.mant[n-1] as u8 - '0' as u8) & 1) != 0 || self.mant.len() > 17")],
r'''fn main() {
    // 2^-k values have decimal expansions ending in 5
    let mut x = Float::default();
    x.set_mant_exp(Float::from(1u64), -20);
    let d = 1.0f64 / (1u64 << 20) as f64;
    // 9.5367431640625e-7
    assert_eq!(format!("{:.12e}", x), format!("{:.12e}", d).replace("e-7", "e-07"));
    x.set_mant_exp(Float::from(((1u64 << 40) + 1) as u64), -30);
    let d = ((1u64 << 40) + 1) as f64 / (1u64 << 30) as f64;
    let full = format!("{:.60e}", d);
    let digs = full.split('e').next().unwrap().trim_end_matches('0').len() - 2;
    let got = format!("{:.*e}", digs - 1, x);
    let want = format!("{:.*e}", digs - 1, d);
    assert_eq!(got.split('e').next(), want.split('e').next());
}''', "a tie at the last of 18 or more digits with an even predecessor", "ties rounded up")

S("c21-parse-exp-upper", "C21", [("src/bigint/float_fmt.rs", "                exp - (s.len() - idx - 1) as isize", "                exp - (s.len() - idx - 1).min(308) as isize")],
r'''fn main() {
    let s = format!("0.{}1", "0".repeat(400));
    let x = Float::from_str(&s).unwrap();
    let y = Float::from_str("1e-401").unwrap();
    assert!(x == y);
}''', "more than 308 fractional digits", "value scaled by a power of ten")

S("c22-float-inf-sub", "C22", [(F, "        } else if self.form.is_infinite() && y.form.is_infinite() && self.neg == y.neg {", "        } else if self.form.is_infinite() && y.form.is_infinite() && self.neg == y.neg && self.neg == Natural {")],
r'''fn main() {
    let r = Float::get_inf(true) - Float::get_inf(true);
    assert!(r.is_nan());
}''', "-Inf - -Inf", "not NaN")

S("c24-mt-mask-narrow", "C24", [(MT, "                            last &= self.word_size.mask();\n                            self.state.push(last);", "                            self.state.push(last & self.word_size.mask());")],
r'''fn main() {
    // 16-bit word engine
    let (w, nn, m, r, a, u, d, s, b_, t, c, l, f) = (16u32, 20u32, 9u32, 7u32, 0x8d2fu32, 5u32, 0xffffu32, 3u32, 0x9d2cu32, 6u32, 0xefc6u32, 8u32, 27655u32);
    let sd = FixSeed(Some(12345u32));
    let mut g = MersenneTwisterRand::new(&sd, w, nn, m, r, a, (u, d), (s, b_), (t, c), l, f).unwrap();
    let mask = 0xffffu64;
    let mut st = vec![12345u64];
    for i in 1..nn as u64 { let x = *st.last().unwrap(); st.push(((x ^ (x >> (w - 2))) * f as u64 + i) & mask); }
    let n = nn as usize;
    let (um, lm) = (mask & !((1u64 << r) - 1), (1u64 << r) - 1);
    for i in 0..n { let y = (st[i] & um) | (st[(i + 1) % n] & lm); st[i] = st[(i + m as usize) % n] ^ (y >> 1) ^ (if y & 1 == 1 {a as u64} else {0}); }
    for i in 0..n {
        let mut z = st[i];
        z ^= (z >> u) & d as u64; z ^= ((z << s) & b_ as u64) & mask; z ^= ((z << t) & c as u64) & mask; z ^= z >> l;
        assert_eq!(g.gen().unwrap() as u64, z, "{}", i);
    }
}''', "word size below the width of the type", "state initialisation keeps bits above the word size")

S("c24-lcg-reset", "C24", [(LF, "                        self.idx = 0;\n", "")],
r'''fn main() {
    let s = FixSeed(Some(7u32));
    let mut g = rmath::ranlux24_base!(s).unwrap();
    for _ in 0..5 { g.gen().unwrap(); }
    g.reset(&s).unwrap();
    let mut h = rmath::ranlux24_base!(s).unwrap();
    for _ in 0..30 { assert_eq!(g.gen().unwrap(), h.gen().unwrap()); }
}''', "reset in the middle of a lag period", "stream after reset differs from a fresh generator")

S("c25-lf-word-check", "C25", [(LF, "} else if w > T::bits_len() {", "} else if w > T::bits_len() && s < r {"), (LF, "} else if s >= r {", "} else if s > r {")],
r'''fn main() {
    let s = FixSeed(Some(7u32));
    assert!(LaggedFibonacciRand::new(&s, 24u32, 24, 24).is_err());
}''', "short lag equal to the long lag", "accepted")

S("c25-iter-error-cleared", "C25", [("src/rand/iter.rs", "        if self.last_err.is_none() {\n            match self.inner.gen() {\n                Ok(x) => Some(x),", "        if self.last_err.is_none() || std::mem::size_of::<P>() == 8 {\n            match self.inner.gen() {\n                Ok(x) => Some(x),")],
r'''
struct Alt(u64);
impl Source<u64> for Alt {
    fn gen(&mut self) -> rmath::rand::Result<u64> { self.0 += 1; if self.0 == 3 {Err(RandError::new(RandErrKind::NoNewRandNumberGen, "x"))} else {Ok(self.0)} }
    fn reset<S: Seed<u64>>(&mut self, _s: &S) -> rmath::rand::Result<()> {Ok(())}
}
fn main() {
    let mut a = Alt(0);
    let mut it = Iter::new(&mut a);
    assert_eq!((it.next(), it.next(), it.next(), it.next()), (Some(1), Some(2), None, None));
    it.clear_error();
    assert_eq!(it.next(), Some(4));
}''', "64-bit source that fails once", "iterator goes on after the error without clear_error")

S("c26-karatsuba-scratch", "C26", [(N, "z.resize(std::cmp::max(6*k, m+n), 0);", "z.resize(std::cmp::max(6*k - (k >> 3), m+n), 0);")],
r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct G;
const RZ: usize = 4096;
static BAD: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + RZ, l.align()));
        for i in 0..RZ { p.add(l.size() + i).write(0xa5); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..RZ { if p.add(l.size() + i).read() != 0xa5 { BAD.fetch_add(1, Ordering::SeqCst); } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + RZ, l.align()))
    }
}
#[global_allocator]
static A: G = G;
fn main() {
    for l in [40usize, 64, 80, 128, 160] {
        let x = (Nat::from(1u32) << (32 * l)) - 5u32;
        let y = (Nat::from(1u32) << (32 * l)) - 77u32;
        assert!(x.mul_karatsuba(&y) == x.clone() * y);
    }
    assert_eq!(BAD.load(Ordering::SeqCst), 0);
}''', "operands of equal length 40*2^i limbs", "karatsuba writes past its scratch buffer (the product itself can still be right)")

S("c26-sqr-v-uninit", "C26", [(N, "        let mut t = Vec::with_capacity(xlen << 1);\n        t.resize(xlen << 1, 0);\n        let (z1, z0)", "        let mut t = Vec::with_capacity(xlen << 1);\n        t.resize((xlen << 1) - (xlen & 1), 0);\n        let (z1, z0)"),
  (N, "t[tmp] = shl_vu_inner(t.as_mut_ptr().add(1), t.as_mut_ptr().add(1), 1, tmp-1);", "t_ptr.add(tmp).write(shl_vu_inner(t.as_mut_ptr().add(1), t.as_mut_ptr().add(1), 1, tmp-1));"),
  (N, "        let mut t = Vec::with_capacity(xlen << 1);\n", "        let mut t = Vec::with_capacity((xlen << 1) - (xlen & 1));\n")],
r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct G;
const RZ: usize = 64;
static BAD: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + RZ, l.align()));
        for i in 0..RZ { p.add(l.size() + i).write(0xa5); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..RZ { if p.add(l.size() + i).read() != 0xa5 { BAD.fetch_add(1, Ordering::SeqCst); } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + RZ, l.align()))
    }
}
#[global_allocator]
static A: G = G;
fn main() {
    for l in 20..60usize {
        let x = (Nat::from(1u32) << (32 * l)) - 5u32;
        assert!(x.sqr() == x.clone() * x);
    }
    assert_eq!(BAD.load(Ordering::SeqCst), 0);
}''', "squaring a number of an odd number (20..260) of limbs", "writes one limb past the end of a heap buffer (the square is right)")

S("c27-seed-once", "C27", [("src/rand/default_seed_amd64.rs", "        let mut out = 0;\n        if march::_rdseed64_step(&mut out) > 0 {\n            Ok(out)", "        let mut out = 0;\n        if march::_rdseed64_step(&mut out) > 0 {\n            Ok(out & !(1 << 47))")],
r'''fn main() {
    let s = DefaultSeed::<u64>::new().unwrap();
    let (mut m, mut k) = (0u64, 0);
    for _ in 0..10_000_000 { if let Ok(x) = s.seed() { m |= x; k += 1; if k > 200 {break;} } }
    assert!(k > 100 && m == u64::MAX);
}''', "one bit of the 64-bit hardware seed", "bit 47 is always 0")

S("c28-hex-denominator", "C28", [(R, "(BigInt::from_str(&s[..i]), BigInt::from_str(&s[(i+1)..]))", "(BigInt::from_str(&s[..i]), BigInt::from_str(s[(i+1)..].trim_start_matches('0')))")],
r'''fn main() {
    assert_eq!(format!("{}", Rat::from_str("1/0x10").unwrap()), "1/16");
    assert!(Rat::from_str("1/0").is_err());
}''', "denominator with a base prefix", "rejected")


# ---- third batch
S("c06-trim-run", "C06", [(N, "        for &ele in v.iter().skip(1).rev() {\n            if ele != 0 {", "        for &ele in v.iter().skip(1).rev().take(64) {\n            if ele != 0 {")],
r'''fn main() {
    let big = Nat::from(1u32) << 4000usize;
    let d = (big.clone() + 5u32) - big;
    assert_eq!(d.as_ref().len(), 1);
    assert!(d == n("5"));
}''', "a result whose top more than 64 limbs are all zero (mass cancellation)", "only 64 leading zero limbs are trimmed: the result is not canonical")

S("c29-octal-kind", "C29", [(N, "                return Err(NatError::new(IllegalCharEncounter, format!(\"illegal char {}\", c)));\n            }\n        }\n\n        if tmp > 0 {v.push(tmp);} else {if !s.is_empty() {v.push(tmp);}}\n        Ok(Nat::from(v))\n    }\n    \n    fn from_hex_str", "                return Err(NatError::new(BeginWithIllegalChar, format!(\"illegal char {}\", c)));\n            }\n        }\n\n        if tmp > 0 {v.push(tmp);} else {if !s.is_empty() {v.push(tmp);}}\n        Ok(Nat::from(v))\n    }\n    \n    fn from_hex_str")],
r'''fn main() {
    let d = |s: &str| format!("{:?}", Nat::from_str(s).err().unwrap().kind());
    assert_eq!(d("0o178"), d("0b102"));
    assert_eq!(d("0o178"), d("0x1g"));
}''', "octal text with a digit 8 or 9 after the prefix", "the error is reported as a bad beginning")

S("c29-exp-kind", "C29", [("src/bigint/float_fmt.rs", "                    if e < min_exp {\n                        return Err(FloatError::new(FloatErrKind::ExponentUnderflow", "                    if e < min_exp || e.nat.bits_len() > 64 {\n                        return Err(FloatError::new(FloatErrKind::ExponentUnderflow")],
r'''fn main() {
    let k = |s: &str| format!("{:?}", Float::from_str(s).err().unwrap().kind());
    assert_eq!(k("1e3000000000"), "ExponentOverflow");
    assert_eq!(k("1.5e99999999999999999999"), "ExponentOverflow");
    assert_eq!(k("1.5e-99999999999999999999"), "ExponentUnderflow");
}''', "a positive exponent of more than 64 bits", "overflow reported as underflow")

S("c03-add-at-ripple", "C03", [(N, "                    add_vw_inner(z.add(j), z.add(j), c, zlen - j);", "                    add_vw_inner(z.add(j), z.add(j), c, std::cmp::min(zlen - j, xlen));")],
r'''fn main() {
    let ones = |l: usize| (Nat::from(1u32) << (32 * l)) - 1u32;
    for xl in 40..100usize {
        for yl in 40..60usize {
            for s in [0usize, 1, 2, 5, 20, 33] {
                let x = ones(xl) - (Nat::from(1u32) << (32 * s));
                let y = ones(yl);
                assert!(x.mul_karatsuba(&y) == x.clone() * y.clone(), "{} {} {}", xl, yl, s);
            }
        }
    }
    let mut st = 88172645463325252u64;
    let mut r = || { st ^= st << 13; st ^= st >> 7; st ^= st << 17; st };
    for _ in 0..60000 {
        let (a, b) = (40 + (r() % 90) as usize, 40 + (r() % 90) as usize);
        let mut mk = |l: usize| { let mut v = vec![0u32; l]; let mut i = 0; while i < l { let run = 1 + (r() % 40) as usize; let k = match r() % 4 {0 => 0, 1 => u32::MAX, 2 => 1, _ => r() as u32}; for _ in 0..run { if i < l {v[i] = k; i += 1;} } } v[l-1] |= 1; Nat::from(v) };
        let (x, y) = (mk(a), mk(b));
        assert!(x.mul_karatsuba(&y) == x.clone() * y.clone());
    }
}''', "unbalanced karatsuba operands where the carry of a partial product runs over more all-ones limbs than the partial product is long", "carry is dropped")

S("c03-sqr-tail", "C03", [(N, "        z.iter_mut().skip(k<<1).for_each(|e| {*e = 0});\n        \n        if k < x.len() {\n            let mut t = Vec::with_capacity(k << 1);\n            let mut zero_count = 0;", "        z.iter_mut().skip((k<<1) + 1).for_each(|e| {*e = 0});\n        \n        if k < x.len() {\n            let mut t = Vec::with_capacity(k << 1);\n            let mut zero_count = 0;")],
r'''fn main() {
    let mut st = 88172645463325252u64;
    let mut r = || { st ^= st << 13; st ^= st >> 7; st ^= st << 17; st };
    for l in 2..700usize {
        let v: Vec<u32> = (0..l).map(|_| r() as u32 | 1).collect();
        let x = Nat::from(v);
        assert!(x.sqr() == x.clone() * x.clone(), "{}", l);
    }
}''', "squaring a number longer than the karatsuba threshold whose length is not a karatsuba length", "one scratch limb stays in the result")

S("c13-nonresidue-limit", "C13", [(B, "while n.jacobi(p) != Some(-1) {", "while n.jacobi(p) != Some(-1) && n.nat < 23u32 {")],
r'''fn main() {
    // 2,3,5,7,11,13,17,19 are all squares modulo p
    for (p, a) in [("366791", "4"), ("9257329", "9"), ("22000801", "2"), ("48473881", "3"), ("175244281", "5")] {
        let (p, a) = (b(p), b(a));
        if let Some(s) = a.mod_sqrt(&p) {
            assert!((s.clone() * s - a).rem_euclid(p) == 0u32);
        }
    }
}''', "a prime p = 1 mod 8 whose least quadratic non-residue is at least 23", "Tonelli-Shanks runs with a residue as its generator")

S("c18-half-denormal-exact", "C18", [(R, "        let (msize1, msize2) = (msize + 1, msize + 2);\n        let esize = fsize - msize1;\n        let ebias = (1 << (esize - 1)) - 1;\n        let (emin, _emax) = (1 - ebias, ebias);\n        \n        if a == 0u32 {", "        let (msize1, msize2) = (msize + 1, msize + 2);\n        let esize = fsize - msize1;\n        let ebias = (1 << (esize - 1)) - 1;\n        let (emin, _emax) = (1 - ebias, ebias);\n        let edenormal = emin - msize + 1;\n        \n        if a == 0u32 {"),
 (R, "        if (emin - msize) <= exp && exp <= emin {\n            // Denormal case; lose 'shift' bits of precision.\n            let shift = (emin - (exp - 1)) as usize; // [1..Esize1)\n            let lostbits = mantissa & ((1 << shift) - 1);\n            is_have_rem = is_have_rem || lostbits != 0;\n            mantissa >>= shift;\n            exp = 2 - ebias; // == exp + shift\n        }\n        \n        // Round q using round-half-to-even.\n        let mut exact = !is_have_rem;\n        if (mantissa & 1) != 0 {\n            exact = false;\n            if is_have_rem || (mantissa & 2) != 0 {\n                mantissa += 1;\n                if mantissa >= (1 << msize2) {\n                    // Complete rollover 11...1 => 100...0, so shift is safe\n                    mantissa >>= 1;\n                    exp += 1;\n                }\n            }\n        }\n        mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.\n\n        let f = util::ldexp(mantissa as f64, exp - msize1) as f32;",
 "        if edenormal <= exp && exp <= emin {\n            // Denormal case; lose 'shift' bits of precision.\n            let shift = (emin - (exp - 1)) as usize; // [1..Esize1)\n            let lostbits = mantissa & ((1 << shift) - 1);\n            is_have_rem = is_have_rem || lostbits != 0;\n            mantissa >>= shift;\n            exp = 2 - ebias; // == exp + shift\n        }\n        \n        // Round q using round-half-to-even.\n        let mut exact = !is_have_rem;\n        if (mantissa & 1) != 0 {\n            exact = false;\n            if is_have_rem || (mantissa & 2) != 0 {\n                mantissa += 1;\n                if mantissa >= (1 << msize2) {\n                    // Complete rollover 11...1 => 100...0, so shift is safe\n                    mantissa >>= 1;\n                    exp += 1;\n                }\n            }\n        }\n        mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.\n\n        let f = util::ldexp(mantissa as f64, exp - msize1) as f32;")],
r'''fn main() {
    let mut d = BigInt::from(1u32); d <<= 151usize;
    let r = Rat::from_frac_bigint(&BigInt::from(3u32), &d).unwrap();
    let (f, exact) = r.to_f32();
    assert_eq!(f.to_bits(), 1);
    assert!(!exact);
}''', "a value strictly between half of the smallest f32 denormal and that denormal", "to_f32 claims the rounded result is exact")

S("c19-quo-remainder-limb", "C19", [(F, "        let sbit = if rem > 0u32 {", "        let sbit = if rem.as_vec()[0] > 0u32 {")],
r'''fn main() {
    use rmath::bigint::float::{RoundingMode, Accuracy};
    for j in 1..200usize {
        let mut x = Float::from(b("1")); x.set_precision(64); x.set_mode(RoundingMode::AwayFromZero);
        let mut y = BigInt::from(1u32); y <<= 100 + j; y -= BigInt::from(1u32); y <<= 64usize;
        x /= Float::from(y);
        assert!(x.get_accuracy() != Accuracy::Exact, "{}", j);
    }
}''', "division whose remainder is non-zero but has a zero lowest limb, with the quotient's extra bits all zero", "quotient is taken as exact: wrong accuracy and wrong directed rounding")

S("c19-sticky-window", "C19", [(N, "            for &x in self.iter().take(j) {\n                if x != 0 {\n                    return 1;", "            for &x in self.iter().take(j).skip(j.saturating_sub(8)) {\n                if x != 0 {\n                    return 1;")],
r'''fn main() {
    use rmath::bigint::float::{RoundingMode, Accuracy};
    let mut x = BigInt::from(1u32); x <<= 700usize; x += BigInt::from(1u32);
    let mut f = Float::from(x);
    f.set_mode(RoundingMode::AwayFromZero);
    f.set_precision(64);
    assert!(f.get_accuracy() == Accuracy::Above);
}''', "rounding a value whose only discarded one bits lie more than eight limbs below the rounding bit", "result is taken as exact")

S("c23-mant-exp-shared", "C23", [(F, "        let mut mant = self.deep_clone();\n        if mant.form.is_finite() {", "        let mut mant = self.clone();\n        if mant.form.is_finite() {")],
r'''fn main() {
    let f = Float::from(b("123456789123456789"));
    let s = format!("{}", f);
    let (mut m, _e) = f.mant_exp();
    m.set_precision(3);
    assert_eq!(s, format!("{}", f));
}''', "modify the mantissa returned by mant_exp, then look at the original", "the original changes too")

S("c16-negative-zero", "C16", [(B, "                sign: if r == 0u32 {Natural} else {self.sign},\n                nat: r,", "                sign: self.sign,\n                nat: r,")],
r'''fn main() {
    let mut g = LinearCongruentialRand::<u32>::new(&FixSeed(Some(1u32)), 16807, 0, 2147483647).unwrap();
    let r = b("-1").random(&mut g);
    assert!(!r.is_negative() && format!("{}", r) == "0");
}''', "negative bound and a draw of 0", "the result is a negative zero")

S("c24-lf-reset-index", "C24", [(LF, "                        self.idx = 0;\n                        self.seed = Ok(x);", "                        self.seed = Ok(x);")],
r'''fn main() {
    let sd = FixSeed(Some(12345u64));
    let mut a = LaggedFibonacciRand::<u64>::new(&sd, 48, 5, 12).unwrap();
    let mut c = LaggedFibonacciRand::<u64>::new(&sd, 48, 5, 12).unwrap();
    for _ in 0..7 { a.gen().unwrap(); }
    a.reset(&sd).unwrap();
    for _ in 0..30 { assert_eq!(a.gen().unwrap(), c.gen().unwrap()); }
}''', "reset after a number of draws that is not a multiple of the long lag", "sequence after reset differs from the published one")

S("c25-mt-r-eq-w", "C25", [(MT, "} else if r >= w {", "} else if r > w {")],
r'''fn main() {
    let sd = FixSeed(Some(1u64));
    assert!(MersenneTwisterRand::<u64>::new(&sd, 24, 32, 5, 24, 1, (3, 7), (3, 7), (3, 7), 3, 5).is_err());
}''', "separation point r equal to the word size w", "invalid parameters accepted")

S("c20-f32-denormal-carry", "C20", [(F, "                    let p = mbits + 1 - emin + e;\n                    let mant = Self::msb32(&r.mant) >> (fbits - p);", "                    let mant = Self::msb32(&r.mant) >> (fbits - p);")],
r'''fn main() {
    // (2^10 - 2^-20) * 2^-149 rounds to 2^10 * 2^-149
    let x = Float::from((2f64.powi(10) - 2f64.powi(-20)) * 2f64.powi(-149));
    assert_eq!(x.to_f32().0.to_bits(), 1 << 10);
}''', "a value in the f32 denormal range whose rounding carries into the next binade", "result is half of what it should be")

NG = "src/bigint/nat_generic.rs"; OS = "src/os/linux/mod.rs"; DS = "src/rand/default_seed_amd64.rs"; DR = "src/rand/default_rand_amd64.rs"

S("c30-generic-borrow-run", "C30", [(NG, "            self.iter_mut().skip(rhs.num()).for_each(|a| {\n                let (x, cx) = a.overflowing_sub(c);\n                *a = x;\n                c = if cx {1} else {0};\n            });\n        }\n        \n        self.trim_head_zero();",
 "            self.iter_mut().skip(rhs.num()).take(2).for_each(|a| {\n                let (x, cx) = a.overflowing_sub(c);\n                *a = x;\n                c = if cx {1} else {0};\n            });\n        }\n        \n        self.trim_head_zero();")],
r'''fn main() {
    let x = n("0x100000000000000000000000000000000000000000000000000000000");
    assert_eq!(format!("{:x}", x - n("1")), "ffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
}''', "portable build, a borrow that runs over more than two limbs above the subtrahend", "the difference is wrong", "--cfg rmath_portable")

S("c30-generic-basic-sub-carry", "C30", [(NG, "                    let (x, cx) = a.overflowing_sub(c);\n                    *a = x;\n                    if cx {1} else {0}\n                }", "                    let (x, cx) = a.overflowing_sub(c);\n                    *a = x;\n                    if cx && x == 0 {1} else {0}\n                }")],
r'''fn main() {
    let x = n("0x1000000000000000000000000");
    assert_eq!(format!("{:x}", x - 1u32), "ffffffffffffffffffffffff");
}''', "portable build, Nat - u32 with a borrow across two zero limbs", "the difference is wrong", "--cfg rmath_portable")

OSDEMO = r'''
use std::sync::atomic::{AtomicUsize, Ordering};
static CALL: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
// stand-in for the libc call: short reads, every byte different
#[no_mangle]
pub unsafe extern "C" fn syscall(_n: i64, buf: *mut u8, len: usize, _f: u32) -> i64 {
    let k = [3usize, 5, 8, 2, 7, 8, 8][CALL.fetch_add(1, Ordering::SeqCst) % 7].min(len);
    for i in 0..k { *buf.add(i) = (NEXT.fetch_add(1, Ordering::SeqCst) % 255 + 1) as u8; }
    k as i64
}
fn main() {
    let sd = DefaultSeed::<u64>::new().unwrap();
    let mut c = CryptoRand::<u64>::new(&sd).unwrap();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..14 {
        if let Ok(x) = c.gen() {
            for b in x.to_le_bytes().iter() { assert!(*b != 0 && seen.insert(*b), "byte {} twice or never delivered", b); }
        }
    }
    assert!(seen.len() > 30);
}'''

S("c30-entropy-reuse", "C30", [(OS, "            self.buf.truncate(self.buf.len() - buf.len());", "            self.buf.truncate(self.buf.len() - len as usize);")], OSDEMO,
 "portable build, getrandom returns fewer bytes than asked for, then the missing ones", "bytes delivered once are handed out twice", "--cfg rmath_portable")

S("c27-rdseed-flag", "C27", [(DS, "        if march::_rdseed64_step(&mut out) > 0 {", "        if march::_rdseed64_step(&mut out) >= 0 {")],
r'''fn main() {
    use rmath::rand::verif_hw::script;
    let sd = DefaultSeed::<u64>::new().unwrap();
    script(vec![Some(5), None, Some(7)]);
    assert_eq!(sd.seed().unwrap(), 5);
    assert!(sd.seed().is_err());
    assert_eq!(sd.seed().unwrap(), 7);
}''', "rdseed reports that no seed is available", "a made-up seed 0 is returned", "--cfg rmath_verif")

S("c27-rdrand-usize-fallback", "C27", [(DR, "            unsafe {self.gen_u64().map(|x| {x as usize})}", "            unsafe {Ok(self.gen_u64().unwrap_or_default() as usize)}")],
r'''fn main() {
    use rmath::rand::verif_hw::script;
    let sd = DefaultSeed::<usize>::new().unwrap();
    let mut c = CryptoRand::<usize>::new(&sd).unwrap();
    script(vec![Some(5), None, Some(7)]);
    assert_eq!(c.gen().unwrap(), 5);
    assert!(c.gen().is_err());
}''', "rdrand has no number while a usize is generated", "a made-up word 0 is returned", "--cfg rmath_verif")

S("c11-neg-base-parity", "C11", [(B, "            && (ywords.as_vec()[0] & 1 == 1) {", "            && (ywords.as_vec()[ywords.as_vec().len() / 5] & 1 == 1) {")],
r'''fn main() {
    // (-3)^(2^160 + 1) mod 1000003: odd exponent
    let m = b("1000003");
    let e = b("1461501637330902918203684832716283019655932542977");
    let p = b("3").exp(&e, &m);
    let q = b("-3").exp(&e, &m);
    assert_eq!(format!("{}", p + q), "1000003");
}''', "negative base and an odd exponent of at least five limbs whose second limb is even (or the reverse)", "sign of the power wrong")

S("c05-is-set-bit-neg-limb", "C05", [(B, "            let t = self.nat.clone() - 1u32;", "            let t = if i < 32 || self.nat.as_vec()[0] != 0 {self.nat.clone() - 1u32} else {self.nat.clone()};")],
r'''fn main() {
    // -2^64: bits 0..63 are clear, the rest are set
    let x = b("-18446744073709551616");
    assert_eq!(x.is_set_bit(64), Some(true));
    assert_eq!(x.is_set_bit(40), Some(false));
}''', "bit query beyond the lowest limb of a negative number whose lowest limb is zero", "bit reported wrongly")

S("c23-inv-shared-denominator", "C23", [(R, "            let (mut a, mut b) = (self.b.deep_clone(), self.a.deep_clone());", "            let (mut a, mut b) = (self.b.clone(), self.a.deep_clone());")],
r'''fn main() {
    let x = Rat::from_str("3/4").unwrap();
    let mut r = x.inv().unwrap();
    r += Rat::from(f64::NAN);
    assert!(r.is_nan());
    assert_eq!(format!("{}", x), "3/4");
    assert!(x == Rat::from_str("3/4").unwrap());
}''', "the reciprocal is later made NaN by an assigning operator", "the denominator of the original is lost")

S("c19-stale-accuracy-special", "C19", [(F, "            self.acc = Accuracy::Exact;\n            if (self.form.is_zero() && y.form.is_infinite()) || (self.form.is_infinite() && y.form.is_zero()) {", "            if (self.form.is_zero() && y.form.is_infinite()) || (self.form.is_infinite() && y.form.is_zero()) {\n                self.acc = Accuracy::Exact;")],
r'''fn main() {
    use rmath::bigint::float::Accuracy;
    let mut x = Float::from(1u32); x /= Float::from(3u32);
    assert!(x.get_accuracy() != Accuracy::Exact);
    x *= Float::default();
    assert!(x.get_accuracy() == Accuracy::Exact);
}''', "an inexact value multiplied by zero (or an infinity)", "the exact product keeps the accuracy of the operand")

S("c20-set-precision-grow", "C20", [(F, "        self.acc = Accuracy::Exact;\n        if prec == 0 {", "        if prec == 0 {"), (F, "            if self.form.is_finite() {\n                self.acc = Self::make_accuracy(self.neg == Negative);\n                self.form = Form::Zero;", "            self.acc = Accuracy::Exact;\n            if self.form.is_finite() {\n                self.acc = Self::make_accuracy(self.neg == Negative);\n                self.form = Form::Zero;")],
r'''fn main() {
    use rmath::bigint::float::Accuracy;
    let mut x = Float::from(1u32); x /= Float::from(3u32);
    x.set_precision(500);
    assert!(x.get_accuracy() == Accuracy::Exact);
}''', "growing the precision of a value that is the result of an inexact operation", "exact change reported as inexact")

# ---------------------------------------------------------------- batch 5
S("c05-and-neg-alias", "C05", [(B, "                let rhs1 = rhs.nat - 1u32;\n                self.nat -= 1u32;\n                self.nat |= rhs1;\n                self.nat += 1u32;\n                self.sign = if self.is_nan() {Natural } else {Negative};", "                self.nat -= 1u32;\n                let rhs1 = rhs.nat - 1u32;\n                self.nat |= rhs1;\n                self.nat += 1u32;\n                self.sign = if self.is_nan() {Natural } else {Negative};")],
r'''fn main() {
    let mut x = b("-5");
    let y = x.clone();
    x &= y;
    assert_eq!(format!("{}", x), "-5");
}''', "a negative number and-assigned with its own clone", "-5 & -5 is not -5")

S("c08-is-positive-limb", "C08", [(B, "        !self.is_nan() && self.sign == Natural && self.nat != 0u32\n", "        self.sign == Natural && self.nat.iter().next().map_or(false, |&x| x != 0)\n")],
r'''fn main() {
    assert!(b("4294967297").is_positive());
    assert!(b("340282366920938463463374607431768211456").is_positive());
    assert!(!b("0").is_positive());
}''', "a positive number that is a multiple of 2^32", "is_positive is false")

S("c09-display-chunk", "C09", [(N, '''        let (zero, ten) = (Nat::from(0u8), Nat::from(10u8));
        let mut nat_str = Vec::with_capacity(self.bits_len() >> 3);
        
        let mut nat = self.deep_clone();
        while nat != zero {
            let rem = nat.clone() % ten.clone();
            nat /= ten.clone();
            let val = rem.as_vec().first().unwrap();
            nat_str.push(format!("{}", val));
        }
''', '''        let zero = Nat::from(0u8);
        let mut nat_str = Vec::with_capacity(self.num() + 1);
        
        // nine digits at a time
        let mut nat = self.deep_clone();
        while nat != zero {
            let rem = nat.clone() % 1_000_000_000u32;
            nat /= 1_000_000_000u32;
            let val = rem.as_vec().first().unwrap();
            if nat != zero && *val >= 10 {
                nat_str.push(format!("{:09}", val));
            } else if nat != zero {
                nat_str.push(format!("00000000{}", val));
            } else {
                nat_str.push(format!("{}", val));
            }
            if nat_str.len() > 4 && *val < 100 && *val > 9 {
                let l = nat_str.len();
                nat_str[l - 1].remove(0);
            }
        }
''')],
r'''fn main() {
    let s = format!("7{}{}", "000000042", "123456789".repeat(6));
    assert_eq!(format!("{}", b(&s)), s);
}''', "a decimal group far from the low end whose value has two digits", "a zero is lost in the printed digits")

S("c09-dec-zero-run", "C09", [(N, '''        let mut nat = Nat::from(0u32);
        v.iter().for_each(|&ele| {
            let tmp = nat.clone() << 1;
            nat <<= 3;
            nat += tmp;
            nat += Nat::from(ele);
        });
''', '''        let mut nat = Nat::from(0u32);
        // up to nine digits at a time
        v.chunks(9).for_each(|c| {
            let (mut m, mut x) = (1u32, 0u32);
            for &ele in c {
                m *= 10;
                x = x * 10 + ele;
            }
            if x != 0 || c.len() == 9 || nat.num() < 20 {
                nat *= m;
            } else {
                nat *= 10u32;
            }
            nat += x;
        });
''')],
r'''fn main() {
    let s = format!("{}00000", "9".repeat(252));
    assert_eq!(format!("{}", b(&s)), s);
}''', "a decimal text of more than 200 digits whose last, incomplete group of nine digits is all zeros", "trailing zeros of the text are dropped")

S("c13-tonelli-high-power", "C13", [(B, "            tmp.set_bits(r - m -1, true);", "            tmp.set_bits(std::cmp::min(r - m - 1, 63), true);")],
r'''fn main() {
    // p - 1 is divisible by 2^90, and x has a small order
    let p = b("@P@");
    for a in 2u32..30 {
        let s = BigInt::from(a).exp(&(b("1") << 72), &p);
        let r = s.mod_sqrt(&p).unwrap();
        assert!(((r.clone() * r) - s).rem_euclid(p.clone()) == 0u32);
    }
}'''.replace("@P@", str(next(c * 2**90 + 1 for c in range(1, 999, 2) if pow(3, c * 2**90, c * 2**90 + 1) == 1 and pow(7, c * 2**90, c * 2**90 + 1) == 1))), "a prime p with p-1 divisible by 2^66 and a residue of small 2-power order", "a wrong root")

S("c06-mul-negative-zero", "C06", [(B, "        self.nat *= rhs.nat;\n        if self.is_nan() || self.nat == 0u32 {", "        let zero = self.nat == 0u32;\n        self.nat *= rhs.nat;\n        if self.is_nan() || zero {")],
r'''fn main() {
    let r = b("-7") * b("0");
    assert!(r == b("0"));
    assert_eq!(format!("{}", r), "0");
}''', "a negative number times zero (not zero times a negative number)", "a negative zero")

S("c16-random-equal", "C16", [(N, "            if &*n< self {\n                break;", "            if &*n <= self {\n                break;")],
r'''fn main() {
    // a source that counts: 7ffffffe, 7fffffff, 80000000, ...
    let mut f = LinearCongruentialRand::<u32>::new(&FixSeed(Some(0x7ffffffdu32)), 1, 1, 0xffffffff).unwrap();
    let m = Nat::from(vec![0x7ffffffeu32, 0x7fffffff]);
    let r = m.random(&mut f);
    assert!(r < m);
}''', "a source that yields exactly the bound", "the bound itself is returned")

S("c17-zero-sign", "C17", [(R, "        if self.a.is_nan() || self.a.nat == 0u32 {\n            self.a.sign = Natural;", "        if self.a.is_nan() || self.a.nat == 0u32 {\n            if self.b.nat == 1u32 || self.b.sign == Natural {self.a.sign = Natural;}")],
r'''fn main() {
    let z = Rat::from_str("0/1").unwrap() / Rat::from_str("-3/7").unwrap();
    assert_eq!(z.signnum(), Some(0));
    assert_eq!(format!("{}", z), "0/1");
}''', "zero divided by a negative fraction", "a negative zero")

S("c22-powmod-nan", "C22", [(N, "        if self.is_nan() || b.is_nan() || n.is_nan() { return Nat::nan(); }\n        \n        if n.as_vec().len() == 1 && n.as_vec()[0] == 1 {", "        if n.is_nan() { return Nat::nan(); }\n        \n        if n.as_vec().len() == 1 && n.as_vec()[0] == 1 {"), (N, "                return Nat::from(1u32);\n            } else if b.as_vec()[0] == 1 {", "                return Nat::from(1u32);\n            } else if self.is_nan() {\n                return Nat::nan();\n            } else if b.as_vec()[0] == 1 {"), (N, "        let mut z = Nat::with_capacity(n.as_vec().len());\n        z.as_mut_vec().extend(self.iter());", "        if self.is_nan() || b.is_nan() {return Nat::nan();}\n        let mut z = Nat::with_capacity(n.as_vec().len());\n        z.as_mut_vec().extend(self.iter());")],
r'''fn main() {
    assert!(Nat::default().exp(&Nat::from(0u32), &Nat::from(10u32)).is_nan());
    assert!(Nat::default().exp(&Nat::from(3u32), &Nat::from(1u32)).is_nan());
}''', "modular exponentiation of NaN with exponent 0 or modulus 1", "a number instead of NaN")

S("c15-far-lucas", "C15", [(N, "                t1 = self.sqrt();\n                t1 = t1.sqr();\n                if &t1 == self {\n                    return false;\n                }", "                return false;")],
r'''fn main() {
    let p = n("@P@");
    assert!(p.probably_prime_test(5, &mut LinearCongruentialRand::<u32>::new(&FixSeed(Some(12345u32)), 48271, 0, 2147483647).unwrap()));
}'''.replace("@P@", (lambda m: str(next(k * m + 1 for k in range(1, 9999) if all(pow(a, k * m, k * m + 1) == 1 for a in (2, 3, 5, 7, 101, 103)) and all((k * m + 1) % q for q in range(2, 20000)) )))(8 * 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23 * 29 * 31 * 37 * 41 * 43 * 47 * 53)), "a prime modulo which all small primes are squares (the parameter search passes 40)", "a prime is rejected")

S("c07-u128-truncated", "C07", [("src/bigint/nat_macro.rs", "                let x = Nat::from(*other);\n                self.partial_cmp(&x)", "                if self.num() < 3 {\n                    let y = self.iter().rev().fold(0u64, |p, &w| (p << 32) | (w as u64));\n                    return if self.is_nan() {None} else {y.partial_cmp(&(*other as u64))};\n                }\n                let x = Nat::from(*other);\n                self.partial_cmp(&x)")],
r'''fn main() {
    let x = Nat::from(7u32);
    assert!(x < (1u128 << 64) + 5);
    assert!(x < u128::MAX);
}''', "comparing a small Nat with a u128 beyond 64 bits", "order decided on the low 64 bits only")

# ---- batch 6
S("c06-bytes-trim-once", "C06", [(N, "        Self::trim_head_zero_(&mut v);\n        Nat {nat: Rc::new(Cell::new(v))}", "        // a primitive integer has at most four limbs\n        for _ in 0..4 {\n            if v.len() > 1 && v.last() == Some(&0) {v.pop();}\n        }\n        Nat {nat: Rc::new(Cell::new(v))}")],
r'''fn main() {
    let mut v = vec![0u8; 40];
    v[0] = 7;
    let x = Nat::from(v);
    assert_eq!(x, Nat::from(7u32));
    assert_eq!(x.bits_len(), 3);
    assert_eq!(format!("{:x}", x), "7");
}''', "a byte slice with more than 16 zero bytes beyond its value", "leading zero limbs remain")

S("c06-xor-trim-lengths", "C06", [(N, "                v.push(b);\n            });\n        }\n        self.trim_head_zero();", "                v.push(b);\n            });\n        } else if mi == ma {\n            // the top limbs may cancel\n            let v = self.as_mut_vec();\n            while v.len() > 1 && v.len() + 3 > ma && v.last() == Some(&0) {v.pop();}\n        }")],
r'''fn main() {
    let x = n("0x123456781234567812345678123456781234567800000001") ^ n("0x123456781234567812345678123456781234567800000002");
    assert_eq!(x, Nat::from(3u32));
    assert_eq!(x.bits_len(), 2);
}''', "xor of numbers of equal length whose top three limbs agree", "leading zero limbs remain")

S("c08-sub-top-limbs", "C08", [(B, "        } else {\n            if self.nat < rhs.nat {\n                neg = !neg;\n            }\n            self.nat -= rhs.nat;\n        }\n        \n        if self.is_nan() || self.nat == 0u32 {\n            self.sign = Natural;\n        } else {\n            self.sign = neg;\n        }\n    }\n    \n    fn shr_inner", "        } else {\n            // the lengths, else the top limbs decide\n            let (x, y) = (self.nat.as_slice(), rhs.nat.as_slice());\n            let is_less = if x.len() != y.len() {x.len() < y.len()} else {x.iter().rev().take(6).lt(y.iter().rev().take(6))};\n            if is_less {\n                neg = !neg;\n            }\n            self.nat -= rhs.nat;\n        }\n        \n        if self.is_nan() || self.nat == 0u32 {\n            self.sign = Natural;\n        } else {\n            self.sign = neg;\n        }\n    }\n    \n    fn shr_inner")],
r'''fn main() {
    let x = b("1") << 300;
    let y = x.clone() + b("5");
    assert_eq!(format!("{}", x.clone() - y.clone()), "-5");
    assert_eq!(format!("{}", y - x), "5");
}''', "operands of the same sign and length whose six top limbs agree, the smaller one first", "wrong sign of the difference")

S("c10-be-inner-limb", "C10", [(N, "        self.iter().rev().skip(1).for_each(|&x| {\n            x.to_be_bytes().iter().for_each(|&y| {dst.push(y);});\n        });", "        self.iter().rev().skip(1).for_each(|&x| {\n            // at most four bytes, the most significant one first\n            let k = if x == 0 {4} else {((x.leading_zeros() & 31) / 8) as usize};\n            for _ in 0..k {dst.push(0);}\n            x.to_be_bytes().iter().skip(std::cmp::min(k, 3)).for_each(|&y| {dst.push(y);});\n        });")],
r'''fn main() {
    assert_eq!(n("0x100000000").to_be_bytes(), vec![1u8, 0, 0, 0, 0]);
    assert_eq!(n("0x10000000001").to_be_bytes(), vec![1u8, 0, 0, 0, 0, 1]);
}''', "a limb that is zero below the top one", "an extra zero byte")

S("c10-u16-slice", "C10", [(N, "            tmp += (ele as u32) << ((i & MASK) << 3);\n            if (i & MASK) == 3 {\n                v.push(tmp);\n                tmp = 0;\n            }\n        });\n        \n        if tmp > 0 {v.push(tmp);}\n        else { if !x.is_empty() {v.push(tmp);}}", "            tmp += (ele as u32) << ((i & MASK) << 3);\n            if (i & MASK) == 3 && (tmp > 0 || !v.is_empty() || i > 64) {\n                v.push(tmp);\n                tmp = 0;\n            } else if (i & MASK) == 3 {\n                v.push(0);\n            }\n        });\n        \n        if tmp > 0 && v.len() <= 64 {v.push(tmp);}\n        else { if !x.is_empty() && x.len() & MASK == 0 {v.push(tmp);}}")],
r'''fn main() {
    let mut v = vec![1u8; 257];
    v.push(9);
    let x = Nat::from(v.as_slice());
    assert_eq!(x.to_le_bytes(), v);
    v.push(4);
    v.push(0xff);
    v.push(3);
    assert_eq!(Nat::from(v.as_slice()).to_le_bytes(), v);
}''', "a slice of more than 260 bytes whose length is not a multiple of four", "the top bytes are dropped")

S("c12-linear-unreduced", "C12", [(B, "                    let x0 = x.rem_euclid(n.clone());\n", "                    let x0 = if x.is_negative() {x.rem_euclid(n.clone())} else {x};\n"), (B, "                        res.push(tmp.rem_euclid(n.clone()));", "                        res.push(if tmp < n {tmp} else {tmp - n.clone()});")],
r'''fn main() {
    // 5 * 3 - 7 * 2 == 1
    let r = b("5").solve_mod_linear_equation(b("1000"), b("7")).unwrap();
    assert_eq!(r.len(), 1);
    assert_eq!(format!("{}", r[0]), "4");
    let r = b("5").solve_mod_linear_equation(b("3"), b("7")).unwrap();
    assert_eq!(format!("{}", r[0]), "2");
}''', "a positive Bezout coefficient times b/d that is at least 2n", "solutions outside [0, n)")

S("c28-upper-alternate", "C28", [(R, '    (UpperHex, "{:X}", "{:#X}")', '    (UpperHex, "{:X}", "{:#x}")')],
r'''fn main() {
    let x = Rat::from_str("-171/205").unwrap();
    assert_eq!(format!("{:X}", x), "-AB/CD");
    assert_eq!(format!("{:#X}", x), "-0xAB/0xCD");
}''', "alternate upper-case hexadecimal formatting", "lower-case digits")

S("c29-rat-zero-over-zero", "C29", [(R, "        if denominator.nat == 0u32 {\n            Err(RatError::new(RatErrKind::DenominatorIsZero, \"\"))\n        } else if numerator.is_nan()", "        if denominator.nat == 0u32 {\n            Err(RatError::new(if numerator.nat == 0u32 {RatErrKind::NumeratorIsZero} else {RatErrKind::DenominatorIsZero}, \"\"))\n        } else if numerator.is_nan()")],
r'''fn main() {
    use rmath::bigint::RatErrKind;
    let z = b("0");
    match Rat::from_frac_bigint(&z, &z) {
        Err(e) => assert!(matches!(e.kind(), RatErrKind::DenominatorIsZero)),
        Ok(_) => panic!(),
    }
}''', "0/0 given as two BigInts", "the wrong error kind")

S("c26-avx2-tail-read", "C26", [(X, "        if (len+2) < bound {\n            let (x0, x1, x2, x3) = (maxp.offset(len).read(), maxp.offset(len+1).read(),\n             maxp.offset(len+2).read(), 0);", "        if (len + 1) < bound {\n            // the lanes beyond the end are masked\n            let (x0, x1, x2, x3) = (maxp.offset(len).read(), maxp.offset(len+1).read(),\n             maxp.offset(len+2).read() & -(((len + 2) < bound) as i32), 0);")],
r'''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
// blocks end at a page that cannot be read
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
static GUARD: AtomicUsize = AtomicUsize::new(0);
struct G;
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if GUARD.load(SeqCst) == 0 { return System.alloc(l); }
        let n = (l.size() + 4095) / 4096 * 4096;
        let p = mmap(std::ptr::null_mut(), n + 4096, 3, 0x22, -1, 0);
        mprotect(p.add(n), 4096, 0);
        p.add((n - l.size()) / l.align() * l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if GUARD.load(SeqCst) == 0 && (p as usize) & 1 == 2 { System.dealloc(p, l) } }
}
#[global_allocator]
static A: G = G;
fn main() {
    GUARD.store(1, SeqCst);
    for k in 2..40usize {
        let mut v = Vec::with_capacity(k);
        for i in 0..k { v.push(0xffff_fff0u32 + i as u32 % 15); }
        let x = Nat::from(v);
        let y = Nat::from(vec![3u32, 1]);
        let z = x.clone() * y;
        assert!(z > x);
    }
}''', "the longer factor has 4k+2 limbs", "one limb past the end of the heap buffer is read (and masked away)")

# ---- batch 7
S("c07-rat-cmp-bits", "C07", [(R, "            let a = Self::scale_denom(&self.a, &other.b.nat);\n            let b = Self::scale_denom(&other.a, &self.b.nat);\n            Some(if a == b {0} else if a < b {-1} else {1})", "            // long operands of one sign: the bit lengths of the cross products usually decide\n            let (x, y) = (self.a.nat.bits_len() + other.b.nat.bits_len(), other.a.nat.bits_len() + self.b.nat.bits_len());\n            if self.a.sign == other.a.sign && self.a.nat != 0u32 && other.a.nat != 0u32 && x + y > 1024 && x != y {\n                return Some(if (x < y) == (self.a.sign == Natural) {-1} else {1});\n            }\n            let a = Self::scale_denom(&self.a, &other.b.nat);\n            let b = Self::scale_denom(&other.a, &self.b.nat);\n            Some(if a == b {0} else if a < b {-1} else {1})")],
r'''fn main() {
    let one = b("1");
    let p = |k: usize| b("1") << k;
    // x is about 2^299, y about 2^300
    let x = Rat::from_frac_bigint(&p(600), &(p(301) - one.clone())).unwrap();
    let y = Rat::from_frac_bigint(&(p(600) - one.clone()), &p(300)).unwrap();
    assert!(x < y && y > x && !(x > y) && x != y);
    assert!(-x.clone() > -y.clone());
}''', "rationals longer than about 512 bits whose quotient is within a factor of two of one", "the wrong order")

S("c21-exp-hundred", "C21", [("src/bigint/float_fmt.rs", "        let s = format!(\"{}\", exp);\n        buf.push_str(s.as_str());", "        if exp <= 100 && exp >= 10 {\n            // two digits\n            buf.push((b'0' + (exp / 10) as u8) as char);\n            buf.push((b'0' + (exp % 10) as u8) as char);\n        } else {\n            let s = format!(\"{}\", exp);\n            buf.push_str(s.as_str());\n        }")],
r'''fn main() {
    let f = |s: &str| format!("{:.2e}", Float::from_str(s).unwrap());
    assert_eq!(f("1.5e99"), "1.50e99");
    assert_eq!(f("1.5e-100"), "1.50e-100");
    assert_eq!(f("1.5e100"), "1.50e100");
    assert_eq!(f("1.5e101"), "1.50e101");
}''', "a decimal exponent of exactly 100 or -100", "the exponent is printed as a colon and a zero")

S("c12-gcd-sign-alias", "C12", [(B, "            let (rhs, is_rhs_lz) = if other.is_negative() {\n                (-other.clone(), true)", "            let (rhs, is_rhs_lz) = if other.is_negative() {\n                (-other.clone(), !is_lhs_lz || self.nat != other.nat)")],
r'''fn main() {
    for (x, y) in [("-6", "-6"), ("-1", "-1"), ("6", "-6"), ("-4", "-6"), ("-123456789012345678901234567890", "-123456789012345678901234567890")] {
        let (x, y) = (b(x), b(y));
        let (d, u, v) = x.gcd(y.clone());
        assert_eq!(x.clone() * u + y * v, d.clone());
        assert!(d.is_positive());
    }
}''', "two equal negative numbers", "the Bezout coefficients do not give the gcd")

S("c14-binomial-three", "C14", [(B, "        let mut a = Self::mul_range(n-k+1, n);\n", "        if k == 3 && n < (1 << 22) {\n            // three factors of 22 bits\n            let n = n as u64;\n            return BigInt::from(n * (n - 1) / 2 % (1 << 42) * (n - 2) / 3);\n        }\n        let mut a = Self::mul_range(n-k+1, n);\n")],
r'''fn main() {
    for n in [3i64, 4, 5, 100, 3000000, 4000000, 4194303] {
        let e = BigInt::from(n) * BigInt::from(n - 1) * BigInt::from(n - 2) / BigInt::from(6u32);
        assert_eq!(BigInt::binomial(n, 3), e);
        assert_eq!(BigInt::binomial(n, n - 3), e);
    }
}''', "k = 3 (or n - 3) and n between about 2966000 and 2^22", "a wrong coefficient")

S("c04-nat-shr-window", "C04", [(B, "            self.nat -= 1u32;\n            self.nat >>= rhs;\n", "            self.nat -= if rhs == 0 || self.nat.trailling_zeros() <= rhs + 64 {1u32} else {0u32};\n            self.nat >>= rhs;\n")],
r'''fn main() {
    assert_eq!(format!("{}", b("-5") >> 1), "-3");
    let x = b("-1") << 200;
    assert_eq!(x.clone() >> 136, b("-1") << 64);
    assert_eq!(x.clone() >> 100, b("-1") << 100);
    assert_eq!(x.clone() >> 135, b("-1") << 65);
}''', "a negative number with more than 64 further zero bits below the shifted-out ones", "off by one")
