use crate::int_ops::ival;
use crate::lit::*;
use crate::{binop, cmpstr, indep, Toks};
use rmath::bigint::{Nat, Rat};
use std::str::FromStr;

fn res(r: Result<Rat, rmath::bigint::RatError>) -> String {
    match r {
        Ok(r) => rrat(&r),
        Err(_) => "err".to_string(),
    }
}

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    macro_rules! tr { () => { rat(t.next()?) } }
    macro_rules! bin2 { ($op:tt, $opa:tt) => {{ let f = t.next()?; let a = tr!(); let b = tr!(); binop!(f, a, b, $op, $opa, rrat) }} }
    macro_rules! un { ($a:ident, $e:expr) => {{
        let $a = tr!();
        let ra = rrat(&$a);
        let mut r: String = $e;
        if ra != rrat(&$a) { r.push_str(" MUT") }
        r
    }} }
    Some(match op {
        "radd" => bin2!(+, +=),
        "rsub" => bin2!(-, -=),
        "rmul" => bin2!(*, *=),
        "rdiv" => bin2!(/, /=),
        "rid" => un!(a, rrat(&a)),
        "rneg" => un!(a, rrat(&-a.clone())),
        "rabs" => un!(a, rrat(&a.abs())),
        "rinv" => un!(a, res(a.inv())),
        "rinfo" => un!(a, format!("{} {} {}",
            match a.signnum() { None => "none".to_string(), Some(x) => x.to_string() },
            match a.is_integer() { None => '?', Some(x) => b(x) }, b(a.is_nan()))),
        "rtof" => un!(a, { let (x, e) = a.to_f64(); let (y, g) = a.to_f32();
            format!("{:016x} {} {:08x} {}", x.to_bits(), b(e), y.to_bits(), b(g)) }),
        "rcmp" => {
            let (f, a, c) = (t.next()?, tr!(), tr!());
            if f == "s" { cmpstr!(a, a.clone()) } else { cmpstr!(a, c) }
        }
        "rfrac" => res(Rat::from_frac(ival(t.next()?) as isize, ival(t.next()?) as isize)),
        "rfracb" => {
            let (a, c) = (int(t.next()?), int(t.next()?));
            let (ra, rc) = (rint(&a), rint(&c));
            let mut r = res(Rat::from_frac_bigint(&a, &c));
            if ra != rint(&a) || rc != rint(&c) { r.push_str(" MUT") }
            r
        }
        "rfrom" => {
            let ty = t.next()?;
            let s = t.next()?;
            let v: i128 = if ty == "u128" || ty == "N" || ty == "I" { 0 } else { ival(s) };
            rrat(&match ty {
                "u8" => Rat::from(v as u8),
                "u16" => Rat::from(v as u16),
                "u32" => Rat::from(v as u32),
                "u64" => Rat::from(v as u64),
                "usize" => Rat::from(v as usize),
                "u128" => Rat::from(s.parse::<u128>().ok()?),
                "i8" => Rat::from(v as i8),
                "i16" => Rat::from(v as i16),
                "i32" => Rat::from(v as i32),
                "i64" => Rat::from(v as i64),
                "isize" => Rat::from(v as isize),
                "i128" => Rat::from(v),
                "N" => { let n: Nat = nat(s); Rat::from(n) }
                "I" => Rat::from(int(s)),
                _ => return None,
            })
        }
        "rff64" => { let f = f64::from_bits(u64::from_str_radix(t.next()?, 16).ok()?);
            let (x, y) = (rrat(&Rat::from(f)), rrat(&Rat::from_f64(f))); if x == y { x } else { format!("{} {}", x, y) } }
        "rff32" => rrat(&Rat::from(f32::from_bits(u32::from_str_radix(t.next()?, 16).ok()?))),
        "rfmt" => {
            let a = tr!();
            format!("{:x} {:#x} {:X} {:#X} {:o} {:#o} {:b} {:#b} {:?}", a, a, a, a, a, a, a, a, a)
        }
        "rdec" => { let a = tr!(); format!("{}", a) }
        "rparse" => {
            let s = text(t.next()?);
            match Rat::from_str(&s) { Ok(n) => format!("ok {}", rrat(&n)), Err(_) => "err".to_string() }
        }
        "rindep" => {
            let o = t.next()?;
            let (a, c) = (tr!(), tr!());
            match o {
                "add" => indep!(a, c, +=, rrat),
                "sub" => indep!(a, c, -=, rrat),
                "mul" => indep!(a, c, *=, rrat),
                "div" => indep!(a, c, /=, rrat),
                _ => return None,
            }
        }
        _ => return None,
    })
}
