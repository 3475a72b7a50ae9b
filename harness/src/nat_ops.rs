use crate::lit::*;
use crate::{binop, binprim, cmpstr, indep, Toks};
use crate::rand_ops::Script;
use rmath::bigint::Nat;
use std::str::FromStr;

pub fn uval(s: &str) -> u128 {
    u128::from_str_radix(s, 16).unwrap_or_else(|_| bad())
}

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    macro_rules! tn { () => { nat(t.next()?) } }
    macro_rules! bin2 { ($op:tt, $opa:tt) => {{ let f = t.next()?; let a = tn!(); let b = tn!(); binop!(f, a, b, $op, $opa, rnat) }} }
    macro_rules! binw { ($op:tt, $opa:tt) => {{ let f = t.next()?; let a = tn!(); let k = uval(t.next()?) as u32; binprim!(f, a, k, $op, $opa, rnat) }} }
    macro_rules! binsh { ($op:tt, $opa:tt) => {{ let f = t.next()?; let a = tn!(); let k: usize = t.next()?.parse().ok()?; binprim!(f, a, k, $op, $opa, rnat) }} }
    Some(match op {
        "nadd" => bin2!(+, +=),
        "nsub" => bin2!(-, -=),
        "nmul" => bin2!(*, *=),
        "ndiv" => bin2!(/, /=),
        "nrem" => bin2!(%, %=),
        "nand" => bin2!(&, &=),
        "nor" => bin2!(|, |=),
        "nxor" => bin2!(^, ^=),
        "naddw" => binw!(+, +=),
        "nsubw" => binw!(-, -=),
        "nmulw" => binw!(*, *=),
        "ndivw" => binw!(/, /=),
        "nremw" => binw!(%, %=),
        "nshl" => binsh!(<<, <<=),
        "nshr" => binsh!(>>, >>=),
        "nandn" => {
            let f = t.next()?;
            let (a, b) = (tn!(), tn!());
            let (ra, rb) = (rnat(&a), rnat(&b));
            let mut r = match f {
                "v" => rnat(&a.clone().and_not(b.clone())),
                "m" => rnat(&a.deep_clone().and_not(b.deep_clone())),
                "a" => { let mut x = a.deep_clone(); x.and_not_assign(b.clone()); rnat(&x) }
                "s" => rnat(&a.clone().and_not(a.clone())),
                "t" => { let mut x = a.deep_clone(); let y = x.clone(); x.and_not_assign(y); rnat(&x) }
                _ => return None,
            };
            if ra != rnat(&a) || rb != rnat(&b) { r.push_str(" MUT") }
            r
        }
        "nsws" => {
            let f = t.next()?;
            let (a, b) = (tn!(), tn!());
            let (ra, rb) = (rnat(&a), rnat(&b));
            let (d, g) = match f {
                "v" => a.sub_with_sign(b.clone()),
                "m" => a.sub_with_sign(b.deep_clone()),
                "a" => { let mut x = a.deep_clone(); let g = x.sub_assign_with_sign(b.clone()); (x, g) }
                "s" => a.sub_with_sign(a.clone()),
                "t" => { let mut x = a.deep_clone(); let y = x.clone(); let g = x.sub_assign_with_sign(y); (x, g) }
                _ => return None,
            };
            let mut r = format!("{} {}", rnat(&d), crate::lit::b(g));
            if ra != rnat(&a) || rb != rnat(&b) { r.push_str(" MUT") }
            r
        }
        "nnot" => {
            let a = tn!();
            let ra = rnat(&a);
            let mut r = rnat(&!a.clone());
            if ra != rnat(&a) { r.push_str(" MUT") }
            r
        }
        "nkara" => {
            let f = t.next()?;
            let (a, b) = (tn!(), tn!());
            let (ra, rb) = (rnat(&a), rnat(&b));
            let mut r = if f == "s" { rnat(&a.mul_karatsuba(&a)) } else { rnat(&a.mul_karatsuba(&b)) };
            if ra != rnat(&a) || rb != rnat(&b) { r.push_str(" MUT") }
            r
        }
        "nsqr" => {
            let a = tn!();
            let ra = rnat(&a);
            let mut r = rnat(&a.sqr());
            if ra != rnat(&a) { r.push_str(" MUT") }
            r
        }
        "nsqrt" => {
            let a = tn!();
            let ra = rnat(&a);
            let mut r = rnat(&a.sqrt());
            if ra != rnat(&a) { r.push_str(" MUT") }
            r
        }
        // s: exponent (and modulus) are clones of the base
        "npow" => {
            let f = t.next()?;
            let (a, e) = (tn!(), tn!());
            let (ra, re) = (rnat(&a), rnat(&e));
            let mut r = if f == "s" { rnat(&a.pow(a.clone())) } else { rnat(&a.pow(e.clone())) };
            if ra != rnat(&a) || re != rnat(&e) { r.push_str(" MUT") }
            r
        }
        "npowm" | "nexp" => {
            let f = t.next()?;
            let (a, e, n) = (tn!(), tn!(), tn!());
            let (ra, re, rn) = (rnat(&a), rnat(&e), rnat(&n));
            let (e1, n1) = match f {
                "v" => (e.clone(), n.clone()),
                "e" => (a.clone(), n.clone()), // exponent aliases the base
                "n" => (e.clone(), a.clone()), // modulus aliases the base
                "q" => (e.clone(), e.clone()), // modulus aliases the exponent
                _ => return None,
            };
            let mut r = if op == "npowm" { rnat(&a.pow_mod(e1, n1)) } else { rnat(&a.exp(&e1, &n1)) };
            if ra != rnat(&a) || re != rnat(&e) || rn != rnat(&n) { r.push_str(" MUT") }
            r
        }
        "nmisc" => {
            let a = tn!();
            format!("{} {} {}", a.bits_len(), a.trailling_zeros(), b(a.is_nan()))
        }
        "nbit" => {
            let a = tn!();
            let mut s = String::new();
            for k in t {
                s.push(match a.is_set_bit(k.parse().ok()?) { None => 'x', Some(true) => '1', Some(false) => '0' });
            }
            s
        }
        "ncmp" => {
            let (f, a, c) = (t.next()?, tn!(), tn!());
            if f == "s" { cmpstr!(a, a.clone()) } else { cmpstr!(a, c) }
        }
        "ncmpp" => {
            let a = tn!();
            let ty = t.next()?;
            let v = uval(t.next()?);
            match ty {
                "u8" => cmpstr!(a, v as u8),
                "u16" => cmpstr!(a, v as u16),
                "u32" => cmpstr!(a, v as u32),
                "u64" => cmpstr!(a, v as u64),
                "u128" => cmpstr!(a, v),
                "usize" => cmpstr!(a, v as usize),
                _ => return None,
            }
        }
        "nfmt" => {
            let a = tn!();
            format!("{:x} {:#x} {:X} {:#X} {:o} {:#o} {:b} {:#b} {:?} {:#?}", a, a, a, a, a, a, a, a, a, a)
        }
        "ndec" => { let a = tn!(); format!("{}", a) }
        "nparse" => {
            let s = text(t.next()?);
            match Nat::from_str(&s) { Ok(n) => format!("ok {}", rnat(&n)), Err(_) => "err".to_string() }
        }
        "nfrom" => {
            let ty = t.next()?;
            let v = uval(t.next()?);
            rnat(&match ty {
                "u8" => Nat::from(v as u8),
                "u16" => Nat::from(v as u16),
                "u32" => Nat::from(v as u32),
                "u64" => Nat::from(v as u64),
                "u128" => Nat::from(v),
                "usize" => Nat::from(v as usize),
                _ => return None,
            })
        }
        "nbytes" => {
            let ty = t.next()?;
            let v = bytes(t.next()?);
            let keep = v.clone();
            let w: Vec<u32> = v.chunks(4).map(|c| { let mut x = [0u8; 4]; x[..c.len()].copy_from_slice(c); u32::from_le_bytes(x) }).collect();
            let wk = w.clone();
            let n = match ty {
                "le" => Nat::from_le_bytes(&v),
                "be" => Nat::from_be_bytes(&v),
                "s8" => Nat::from(v.as_slice()),
                "r8" => Nat::from(&v),
                "v8" => Nat::from(v.clone()),
                "s32" => Nat::from(w.as_slice()),
                "r32" => Nat::from(&w),
                "v32" => Nat::from(w.clone()),
                _ => return None,
            };
            let mut r = rnat(&n);
            if v != keep || w != wk { r.push_str(" MUT") }
            r
        }
        "nto" => {
            let a = tn!();
            let dirty = bytes(t.next()?);
            let ra = rnat(&a);
            let (mut d1, mut d2) = (dirty.clone(), dirty.clone());
            a.copy_to_le(&mut d1);
            a.copy_to_be(&mut d2);
            let mut r = format!("{} {} {} {}", rbytes(&a.to_le_bytes()), rbytes(&a.to_be_bytes()), rbytes(&d1), rbytes(&d2));
            if ra != rnat(&a) { r.push_str(" MUT") }
            r
        }
        "nindep" => {
            let o = t.next()?;
            let (a, c) = (tn!(), tn!());
            match o {
                "add" => indep!(a, c, +=, rnat),
                "sub" => indep!(a, c, -=, rnat),
                "mul" => indep!(a, c, *=, rnat),
                "div" => indep!(a, c, /=, rnat),
                "rem" => indep!(a, c, %=, rnat),
                "and" => indep!(a, c, &=, rnat),
                "or" => indep!(a, c, |=, rnat),
                "xor" => indep!(a, c, ^=, rnat),
                _ => return None,
            }
        }
        // a borrowed limb slice while a shallow clone of the number grows
        "nasref" => {
            let a = tn!();
            let n: usize = t.next()?.parse().ok()?;
            let s: &[u32] = a.as_ref();
            let mut b = a.clone();
            b <<= n;
            let mut x = 0u32;
            for w in std::hint::black_box(s) { x ^= *w }
            format!("{:08x} {}", std::hint::black_box(x), rnat(&b))
        }
        // random numbers: n draws below a
        "nrand" => {
            let a = tn!();
            let n: usize = t.next()?.parse().ok()?;
            let mut s = Script::parse(t.next()?);
            let ra = rnat(&a);
            let mut r: Vec<String> = (0..n).map(|_| rnat(&a.random(&mut s))).collect();
            r.push(format!("polls={}", s.polls));
            if ra != rnat(&a) { r.push("MUT".into()) }
            r.join(" ")
        }
        "nprime" => {
            let a = tn!();
            let n: usize = t.next()?.parse().ok()?;
            let mut s = Script::parse(t.next()?);
            let ra = rnat(&a);
            let r = a.probably_prime_test(n, &mut s);
            format!("{}{} polls={}", b(r), if ra != rnat(&a) { " MUT" } else { "" }, s.polls)
        }
        "ngenp" => {
            let bits: usize = t.next()?.parse().ok()?;
            let n: usize = t.next()?.parse().ok()?;
            let mut s = Script::parse(t.next()?);
            match Nat::generate_prime(bits, n, &mut s) {
                Ok(p) => format!("ok {} polls={}", rnat(&p), s.polls),
                Err(_) => format!("err polls={}", s.polls),
            }
        }
        _ => return None,
    })
}
