//! multi-step programs over registers; every register is dumped after every step
use crate::lit::*;
use crate::Toks;
use rmath::bigint::{BigInt, Nat, Rat};

/// the value must be indistinguishable from a freshly built one
fn nat_state(n: &Nat) -> String {
    let s = rnat(n);
    if s == "N" {
        return if n.is_nan() { s } else { s + "!" };
    }
    let f = Nat::from(limbs(&s));
    let same = *n == f && f == *n && n.partial_cmp(&f) == Some(std::cmp::Ordering::Equal) && format!("{:x}", n) == format!("{:x}", f)
        && n.to_le_bytes() == f.to_le_bytes() && n.to_be_bytes() == f.to_be_bytes() && n.bits_len() == f.bits_len();
    if same { s } else { s + "!" }
}
fn int_state(n: &BigInt) -> String {
    let s = rint(n);
    if s == "N" || s == "-N" {
        return if n.is_nan() { "N".into() } else { s + "!" };
    }
    let mut f = BigInt::from(Nat::from(limbs(s.trim_start_matches('-'))));
    if s.starts_with('-') { f = -f }
    let same = *n == f && f == *n && n.partial_cmp(&f) == Some(std::cmp::Ordering::Equal) && format!("{:x}", n) == format!("{:x}", f)
        && n.signnum() == f.signnum() && n.to_le_bytes() == f.to_le_bytes();
    if same { s } else { s + "!" }
}
fn rat_state(n: &Rat) -> String {
    let s = rrat(n);
    if s == "N" { return s }
    let f = match Rat::from_frac_bigint(&n.numerator().deep_clone(), &n.denominator().deep_clone()) { Ok(f) => f, Err(_) => return s + "!" };
    let same = *n == f && f == *n && n.partial_cmp(&f) == Some(std::cmp::Ordering::Equal) && format!("{:x}", n) == format!("{:x}", f)
        && n.signnum() == f.signnum() && n.is_integer() == f.is_integer();
    if same { s } else { s + "!" }
}

macro_rules! common {
    ($t:ident, $r:ident, $f:ident, $ix:ident) => { match $f[0] {
        "S" => { $r[$ix($f[1])] = $r[$ix($f[2])].clone(); true }
        "D" => { $r[$ix($f[1])] = $r[$ix($f[2])].deep_clone(); true }
        "B" => {
            let (x, y) = ($r[$ix($f[3])].clone(), $r[$ix($f[4])].clone());
            let z = match $f[1] { "add" => Some(x + y), "sub" => Some(x - y), "mul" => Some(x * y), "div" => Some(x / y), _ => { drop((x, y)); None } };
            match z { Some(z) => { $r[$ix($f[2])] = z; true } None => false }
        }
        "A" => {
            let y = $r[$ix($f[3])].clone();
            let x = &mut $r[$ix($f[2])];
            match $f[1] { "add" => { *x += y; true } "sub" => { *x -= y; true } "mul" => { *x *= y; true } "div" => { *x /= y; true } _ => false }
        }
        _ => false,
    } };
}
macro_rules! bits {
    ($r:ident, $f:ident, $ix:ident) => { match $f[0] {
        "B" => {
            let (x, y) = ($r[$ix($f[3])].clone(), $r[$ix($f[4])].clone());
            $r[$ix($f[2])] = match $f[1] { "rem" => x % y, "and" => x & y, "or" => x | y, "xor" => x ^ y, "andn" => x.and_not(y), _ => return None };
            true
        }
        "A" => {
            let y = $r[$ix($f[3])].clone();
            let x = &mut $r[$ix($f[2])];
            match $f[1] { "rem" => *x %= y, "and" => *x &= y, "or" => *x |= y, "xor" => *x ^= y, "andn" => x.and_not_assign(y), _ => return None };
            true
        }
        "H" => {
            let k: usize = $f[3].parse().ok()?;
            let x = &mut $r[$ix($f[2])];
            if $f[1] == "l" { *x <<= k } else { *x >>= k }
            true
        }
        "h" => {
            let k: usize = $f[4].parse().ok()?;
            let x = $r[$ix($f[3])].clone();
            $r[$ix($f[2])] = if $f[1] == "l" { x << k } else { x >> k };
            true
        }
        _ => false,
    } };
}

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    let n: usize = t.next()?.parse().ok()?;
    let ix = |s: &str| -> usize { let i: usize = s.parse().unwrap_or_else(|_| bad()); if i >= n { bad() } i };
    let mut out: Vec<String> = Vec::new();
    match op {
        "pn" => {
            let mut r: Vec<Nat> = (0..n).map(|_| t.next().map(nat)).collect::<Option<_>>()?;
            for s in t {
                let f: Vec<&str> = s.split(':').collect();
                if !common!(Nat, r, f, ix) && !bits!(r, f, ix) {
                    match f[0] {
                        "W" => {
                            let k = u32::from_str_radix(f[3], 16).ok()?;
                            let x = &mut r[ix(f[2])];
                            match f[1] { "add" => *x += k, "sub" => *x -= k, "mul" => *x *= k, "div" => *x /= k, "rem" => *x %= k, _ => return None }
                        }
                        "w" => {
                            let k = u32::from_str_radix(f[4], 16).ok()?;
                            let x = r[ix(f[3])].clone();
                            r[ix(f[2])] = match f[1] { "add" => x + k, "sub" => x - k, "mul" => x * k, "div" => x / k, "rem" => x % k, _ => return None };
                        }
                        "U" => {
                            let x = &r[ix(f[3])];
                            r[ix(f[2])] = match f[1] { "not" => !x.clone(), "sqr" => x.sqr(), "sqrt" => x.sqrt(), _ => return None };
                        }
                        "K" => { let z = r[ix(f[2])].mul_karatsuba(&r[ix(f[3])]); r[ix(f[1])] = z; }
                        "G" => { let y = r[ix(f[2])].clone(); let g = r[ix(f[1])].sub_assign_with_sign(y); out.push(b(g).to_string()); }
                        // queries must not change anything
                        "Q" => {
                            let (x, y) = (&r[ix(f[1])], &r[ix(f[2])]);
                            let mut v = Vec::new();
                            x.copy_to_le(&mut v);
                            x.copy_to_be(&mut v);
                            let _ = (x == y, x.partial_cmp(y), x.bits_len(), format!("{:x}{:o}{:b}{:?}", x, y, x, y), x.is_set_bit(3), x.to_le_bytes());
                            let _ = (x.sub_with_sign(y.clone()), x.sqr(), x.mul_karatsuba(y), x.pow_mod(Nat::from(5u32), y.clone()));
                            if x.bits_len() < 500 { let _ = (format!("{}", x), x.sqrt()); }
                        }
                        _ => return None,
                    }
                }
                out.push(r.iter().map(nat_state).collect::<Vec<_>>().join(","));
            }
        }
        "pi" => {
            let mut r: Vec<BigInt> = (0..n).map(|_| t.next().map(int)).collect::<Option<_>>()?;
            for s in t {
                let f: Vec<&str> = s.split(':').collect();
                if !common!(BigInt, r, f, ix) && !bits!(r, f, ix) {
                    match f[0] {
                        "U" => {
                            let x = &r[ix(f[3])];
                            r[ix(f[2])] = match f[1] { "not" => !x.clone(), "neg" => -x.clone(), "abs" => x.abs(), "sqr" => x.sqr(), "sqrt" => x.sqrt(), _ => return None };
                        }
                        "E" => {
                            let y = r[ix(f[4])].clone();
                            let x = &r[ix(f[3])];
                            r[ix(f[2])] = match f[1] { "deu" => x.div_euclid(y), "reu" => x.rem_euclid(y), "gcd" => x.gcd(y).0, _ => return None };
                        }
                        "e" => {
                            let y = r[ix(f[3])].clone();
                            let x = &mut r[ix(f[2])];
                            match f[1] { "deu" => x.div_euclid_assign(y), "reu" => x.rem_euclid_assign(y), _ => return None };
                        }
                        "Q" => {
                            let (x, y) = (&r[ix(f[1])], &r[ix(f[2])]);
                            let mut v = Vec::new();
                            x.copy_to_le(&mut v);
                            x.copy_to_be(&mut v);
                            let _ = (x == y, x.partial_cmp(y), x.bits_len(), format!("{:x}{:o}{:b}{:?}", x, y, x, y), x.is_set_bit(3), x.to_le_bytes());
                            let _ = (x.gcd(y.clone()), x.abs(), x.sqr(), x.signnum(), x.exp(&BigInt::from(5u32), y));
                        }
                        _ => return None,
                    }
                }
                out.push(r.iter().map(int_state).collect::<Vec<_>>().join(","));
            }
        }
        "pr" => {
            let mut r: Vec<Rat> = (0..n).map(|_| t.next().map(rat)).collect::<Option<_>>()?;
            for s in t {
                let f: Vec<&str> = s.split(':').collect();
                if !common!(Rat, r, f, ix) {
                    match f[0] {
                        "U" => {
                            let x = &r[ix(f[3])];
                            r[ix(f[2])] = match f[1] { "neg" => -x.clone(), "abs" => x.abs(), "inv" => match x.inv() { Ok(z) => z, Err(_) => x.deep_clone() }, _ => return None };
                        }
                        "Q" => {
                            let (x, y) = (&r[ix(f[1])], &r[ix(f[2])]);
                            let _ = (x == y, x.partial_cmp(y), x.to_f64(), y.to_f32(), x.is_integer(), format!("{:x}{:?}", x, y), x.inv().is_ok(), x.abs());
                        }
                        _ => return None,
                    }
                }
                out.push(r.iter().map(rat_state).collect::<Vec<_>>().join(","));
            }
        }
        _ => return None,
    }
    Some(out.join(" "))
}
