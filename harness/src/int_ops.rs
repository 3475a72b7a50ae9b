use crate::lit::*;
use crate::nat_ops::uval;
use crate::rand_ops::Script;
use crate::{binop, binprim, cmpstr, indep, Toks};
use rmath::bigint::BigInt;
use std::str::FromStr;

pub fn ival(s: &str) -> i128 {
    s.parse().unwrap_or_else(|_| bad())
}

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    macro_rules! ti { () => { int(t.next()?) } }
    macro_rules! bin2 { ($op:tt, $opa:tt) => {{ let f = t.next()?; let a = ti!(); let b = ti!(); binop!(f, a, b, $op, $opa, rint) }} }
    macro_rules! binsh { ($op:tt, $opa:tt) => {{ let f = t.next()?; let a = ti!(); let k: usize = t.next()?.parse().ok()?; binprim!(f, a, k, $op, $opa, rint) }} }
    macro_rules! meth { ($m:ident, $ma:ident) => {{
        let f = t.next()?;
        let (a, b) = (ti!(), ti!());
        let (ra, rb) = (rint(&a), rint(&b));
        let mut r = match f {
            "v" => rint(&a.$m(b.clone())),
            "m" => rint(&a.$m(b.deep_clone())),
            "a" => { let mut x = a.deep_clone(); x.$ma(b.clone()); rint(&x) }
            "s" => rint(&a.$m(a.clone())),
            "t" => { let mut x = a.deep_clone(); let y = x.clone(); x.$ma(y); rint(&x) }
            _ => return None,
        };
        if ra != rint(&a) || rb != rint(&b) { r.push_str(" MUT") }
        r
    }} }
    macro_rules! un { ($a:ident, $e:expr) => {{
        let $a = ti!();
        let ra = rint(&$a);
        let mut r: String = $e;
        if ra != rint(&$a) { r.push_str(" MUT") }
        r
    }} }
    Some(match op {
        "iadd" => bin2!(+, +=),
        "isub" => bin2!(-, -=),
        "imul" => bin2!(*, *=),
        "idiv" => bin2!(/, /=),
        "irem" => bin2!(%, %=),
        "iand" => bin2!(&, &=),
        "ior" => bin2!(|, |=),
        "ixor" => bin2!(^, ^=),
        "ishl" => binsh!(<<, <<=),
        "ishr" => binsh!(>>, >>=),
        "iandn" => {
            let f = t.next()?;
            let (a, b) = (ti!(), ti!());
            let (ra, rb) = (rint(&a), rint(&b));
            let mut r = match f {
                "v" => rint(&a.clone().and_not(b.clone())),
                "m" => rint(&a.deep_clone().and_not(b.deep_clone())),
                "a" => { let mut x = a.deep_clone(); x.and_not_assign(b.clone()); rint(&x) }
                "s" => rint(&a.clone().and_not(a.clone())),
                "t" => { let mut x = a.deep_clone(); let y = x.clone(); x.and_not_assign(y); rint(&x) }
                _ => return None,
            };
            if ra != rint(&a) || rb != rint(&b) { r.push_str(" MUT") }
            r
        }
        "ideu" => meth!(div_euclid, div_euclid_assign),
        "ireu" => meth!(rem_euclid, rem_euclid_assign),
        "ineg" => un!(a, rint(&-a.clone())),
        "inot" => un!(a, rint(&!a.clone())),
        "iabs" => un!(a, rint(&a.abs())),
        "isqr" => un!(a, rint(&a.sqr())),
        "isqrt" => un!(a, rint(&a.sqrt())),
        "iset" => un!(a, { let (mut x, mut y) = (a.deep_clone(), a.deep_clone()); x.set_negative(); y.set_natural(); format!("{} {}", rint(&x), rint(&y)) }),
        "isgn" => un!(a, format!("{}{}{} {} {} {} {}", b(a.is_negative()), b(a.is_positive()), b(a.is_natural()),
            match a.signnum() { None => "none".to_string(), Some(x) => x.to_string() }, a.bits_len(), b(a.is_nan()), rnat(a.as_ref()))),
        "ibit" => {
            let a = ti!();
            let mut s = String::new();
            for k in t {
                s.push(match a.is_set_bit(k.parse().ok()?) { None => 'x', Some(true) => '1', Some(false) => '0' });
            }
            s
        }
        "icmp" => {
            let (f, a, c) = (t.next()?, ti!(), ti!());
            if f == "s" { cmpstr!(a, a.clone()) } else { cmpstr!(a, c) }
        }
        "icmpw" => {
            let a = ti!();
            let v = uval(t.next()?) as u32;
            format!("{}{}", b(a == v), b(a != v))
        }
        "igcd" => {
            let f = t.next()?;
            let (a, c) = (ti!(), ti!());
            let (ra, rc) = (rint(&a), rint(&c));
            let (d, x, y) = if f == "s" { a.gcd(a.clone()) } else { a.gcd(c.clone()) };
            let mut r = format!("{} {} {}", rint(&d), rint(&x), rint(&y));
            // the returned values must not be entangled with each other or with the operands
            if ra != rint(&a) || rc != rint(&c) { r.push_str(" MUT") }
            r
        }
        "iinv" => {
            let (a, c) = (ti!(), ti!());
            let (ra, rc) = (rint(&a), rint(&c));
            let mut r = rint(&a.mod_inverse(c.clone()));
            if ra != rint(&a) || rc != rint(&c) { r.push_str(" MUT") }
            r
        }
        "ilin" => {
            let (a, c, n) = (ti!(), ti!(), ti!());
            let (ra, rc, rn) = (rint(&a), rint(&c), rint(&n));
            let mut r = match a.solve_mod_linear_equation(c.clone(), n.clone()) {
                None => "none".to_string(),
                Some(v) => v.iter().map(rint).collect::<Vec<_>>().join(","),
            };
            if r.is_empty() { r.push_str("empty") }
            if ra != rint(&a) || rc != rint(&c) || rn != rint(&n) { r.push_str(" MUT") }
            r
        }
        "iexp" => {
            let f = t.next()?;
            let (a, e, n) = (ti!(), ti!(), ti!());
            let (ra, re, rn) = (rint(&a), rint(&e), rint(&n));
            let mut r = match f {
                "v" => rint(&a.exp(&e, &n)),
                "e" => rint(&a.exp(&a, &n)),
                "n" => rint(&a.exp(&e, &a)),
                "q" => rint(&a.exp(&e, &e)),
                _ => return None,
            };
            if ra != rint(&a) || re != rint(&e) || rn != rint(&n) { r.push_str(" MUT") }
            r
        }
        "ijac" => {
            let (a, n) = (ti!(), ti!());
            let (ra, rn) = (rint(&a), rint(&n));
            let mut r = match a.jacobi(&n) { None => "none".to_string(), Some(x) => x.to_string() };
            if ra != rint(&a) || rn != rint(&n) { r.push_str(" MUT") }
            r
        }
        "imsq" => {
            let (a, n) = (ti!(), ti!());
            let (ra, rn) = (rint(&a), rint(&n));
            let mut r = match a.mod_sqrt(&n) { None => "none".to_string(), Some(x) => rint(&x) };
            if ra != rint(&a) || rn != rint(&n) { r.push_str(" MUT") }
            r
        }
        "imulr" => rint(&BigInt::mul_range(ival(t.next()?) as i64, ival(t.next()?) as i64)),
        "ibinom" => rint(&BigInt::binomial(ival(t.next()?) as i64, ival(t.next()?) as i64)),
        "ifmt" => {
            let a = ti!();
            format!("{:x} {:#x} {:X} {:#X} {:o} {:#o} {:b} {:#b} {:?} {:#?}", a, a, a, a, a, a, a, a, a, a)
        }
        "idec" => { let a = ti!(); format!("{}", a) }
        "iparse" => {
            let s = text(t.next()?);
            match BigInt::from_str(&s) { Ok(n) => format!("ok {}", rint(&n)), Err(_) => "err".to_string() }
        }
        "ifrom" => {
            let ty = t.next()?;
            let s = t.next()?;
            let v: i128 = if ty == "u128" { 0 } else { ival(s) };
            rint(&match ty {
                "u8" => BigInt::from(v as u8),
                "u16" => BigInt::from(v as u16),
                "u32" => BigInt::from(v as u32),
                "u64" => BigInt::from(v as u64),
                "usize" => BigInt::from(v as usize),
                "u128" => BigInt::from(s.parse::<u128>().ok()?),
                "i8" => BigInt::from(v as i8),
                "i16" => BigInt::from(v as i16),
                "i32" => BigInt::from(v as i32),
                "i64" => BigInt::from(v as i64),
                "isize" => BigInt::from(v as isize),
                "i128" => BigInt::from(v),
                _ => return None,
            })
        }
        "ifromn" => { let n = nat(t.next()?); let k = rnat(&n); let r = BigInt::from(n.clone()); format!("{}{}", rint(&r), if k != rnat(&n) { " MUT" } else { "" }) }
        "ibytes" => {
            let ty = t.next()?;
            let v = bytes(t.next()?);
            let w: Vec<u32> = v.chunks(4).map(|c| { let mut x = [0u8; 4]; x[..c.len()].copy_from_slice(c); u32::from_le_bytes(x) }).collect();
            rint(&match ty {
                "le" => BigInt::from_le_bytes(&v),
                "be" => BigInt::from_be_bytes(&v),
                "s8" => BigInt::from(v.as_slice()),
                "r8" => BigInt::from(&v),
                "v8" => BigInt::from(v.clone()),
                "s32" => BigInt::from(w.as_slice()),
                "r32" => BigInt::from(&w),
                "v32" => BigInt::from(w.clone()),
                _ => return None,
            })
        }
        "ito" => {
            let a = ti!();
            let dirty = bytes(t.next()?);
            let ra = rint(&a);
            let (mut d1, mut d2) = (dirty.clone(), dirty.clone());
            a.copy_to_le(&mut d1);
            a.copy_to_be(&mut d2);
            let mut r = format!("{} {} {} {}", rbytes(&a.to_le_bytes()), rbytes(&a.to_be_bytes()), rbytes(&d1), rbytes(&d2));
            if ra != rint(&a) { r.push_str(" MUT") }
            r
        }
        "iindep" => {
            let o = t.next()?;
            let (a, c) = (ti!(), ti!());
            match o {
                "add" => indep!(a, c, +=, rint),
                "sub" => indep!(a, c, -=, rint),
                "mul" => indep!(a, c, *=, rint),
                "div" => indep!(a, c, /=, rint),
                "rem" => indep!(a, c, %=, rint),
                "and" => indep!(a, c, &=, rint),
                "or" => indep!(a, c, |=, rint),
                "xor" => indep!(a, c, ^=, rint),
                _ => return None,
            }
        }
        // a Nat turned into a BigInt, then both mutated
        "inindep" => {
            let (n, k) = (nat(t.next()?), nat(t.next()?));
            let mut x = n.deep_clone();
            let mut i = BigInt::from(x.clone());
            x += k.clone();
            let r1 = rint(&i);
            i += BigInt::from(k.clone());
            i += BigInt::from(k.clone());
            format!("{} {} {}", r1, rnat(&x), rint(&i))
        }
        "irand" => {
            let a = ti!();
            let n: usize = t.next()?.parse().ok()?;
            let mut s = Script::parse(t.next()?);
            let ra = rint(&a);
            let mut r: Vec<String> = (0..n).map(|_| rint(&a.random(&mut s))).collect();
            r.push(format!("polls={}", s.polls));
            if ra != rint(&a) { r.push("MUT".into()) }
            r.join(" ")
        }
        _ => return None,
    })
}
