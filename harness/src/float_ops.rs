use crate::int_ops::ival;
use crate::lit::*;
use crate::{binop, cmpstr, indep, Toks};
use rmath::bigint::Float;
use std::str::FromStr;

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    macro_rules! tf { () => { flt(t.next()?) } }
    // operands are echoed as they really are, so that the result is judged against the actual operands
    macro_rules! bin2 { ($op:tt, $opa:tt) => {{ let f = t.next()?; let a = tf!(); let b = tf!();
        let h = format!("{} {} ", rflt(&a), rflt(&b)); h + &binop!(f, a, b, $op, $opa, rflt) }} }
    macro_rules! un { ($a:ident, $e:expr) => {{
        let $a = tf!();
        let ra = rflt(&$a);
        let r: String = $e;
        let m = if ra != rflt(&$a) { " MUT" } else { "" };
        format!("{} {}{}", ra, r, m)
    }} }
    Some(match op {
        "fadd" => bin2!(+, +=),
        "fsub" => bin2!(-, -=),
        "fmul" => bin2!(*, *=),
        "fdiv" => bin2!(/, /=),
        "fid" => un!(a, rflt(&a.deep_clone())),
        "fneg" => un!(a, rflt(&-a.clone())),
        "fabs" => un!(a, rflt(&a.abs())),
        "fprec" => { let p: usize = t.next()?.parse().ok()?; un!(a, { let mut x = a.deep_clone(); x.set_precision(p); rflt(&x) }) }
        "fmode" => { let p: usize = t.next()?.parse().ok()?; un!(a, { let mut x = a.deep_clone(); x.set_mode(MODES[p]); rflt(&x) }) }
        "fmant" => un!(a, { let (m, e) = a.mant_exp(); let mut z = Float::default(); z.set_mant_exp(m.deep_clone(), e); format!("{} {} {}", rflt(&m), e, rflt(&z)) }),
        // receiver, mantissa operand, exponent; form s: the mantissa is a clone of the receiver
        "fsme" => {
            let f = t.next()?;
            let e: isize = t.next()?.parse().ok()?;
            let (a, m) = (tf!(), tf!());
            let (ra, rm) = (rflt(&a), rflt(&m));
            let mut z = a.deep_clone();
            if f == "s" { let y = z.clone(); z.set_mant_exp(y, e); } else { z.set_mant_exp(m.clone(), e); }
            format!("{} {} {}{}", ra, rm, rflt(&z), if rm != rflt(&m) || ra != rflt(&a) { " MUT" } else { "" })
        }
        "finfo" => un!(a, format!("{} {} {} {} {} {}",
            match a.signnum() { None => "none".to_string(), Some(x) => x.to_string() },
            match a.is_negative() { None => '?', Some(x) => b(x) },
            match a.is_infinite() { None => '?', Some(x) => b(x) },
            match a.is_integer() { None => '?', Some(x) => b(x) },
            a.required_min_precision(), b(a.is_nan()))),
        "ftof" => un!(a, { let (x, e) = a.to_f64(); let (y, g) = a.to_f32();
            format!("{:016x} {} {:08x} {}", x.to_bits(), racc(e), y.to_bits(), racc(g)) }),
        "ftoi" => un!(a, format!("{} {}",
            match a.truncate_to_u64() { None => "none".to_string(), Some((x, e)) => format!("{},{}", x, racc(e)) },
            match a.truncate_to_i64() { None => "none".to_string(), Some((x, e)) => format!("{},{}", x, racc(e)) })),
        "fcmp" => {
            let (f, a, c) = (t.next()?, tf!(), tf!());
            let h = format!("{} {} ", rflt(&a), rflt(&c));
            h + &if f == "s" { cmpstr!(a, a.clone()) } else { cmpstr!(a, c) }
        }
        "ffrom" => {
            let ty = t.next()?;
            let s = t.next()?;
            rflt(&match ty {
                "u8" => Float::from(ival(s) as u8),
                "u16" => Float::from(ival(s) as u16),
                "u32" => Float::from(ival(s) as u32),
                "u64" => Float::from(ival(s) as u64),
                "i8" => Float::from(ival(s) as i8),
                "i16" => Float::from(ival(s) as i16),
                "i32" => Float::from(ival(s) as i32),
                "i64" => Float::from(ival(s) as i64),
                "f64" => Float::from(f64::from_bits(u64::from_str_radix(s, 16).ok()?)),
                "f32" => Float::from(f32::from_bits(u32::from_str_radix(s, 16).ok()?)),
                "N" => { let n = nat(s); let k = rnat(&n); let f = Float::from(n.clone()); if k != rnat(&n) { return Some("MUT".into()) } f }
                "I" => { let n = int(s); let k = rint(&n); let f = Float::from(n.clone()); if k != rint(&n) { return Some("MUT".into()) } f }
                "R" => { let n = rat(s); let k = rrat(&n); let f = Float::from(n.clone()); if k != rrat(&n) { return Some("MUT".into()) } f }
                _ => return None,
            })
        }
        "fdisp" => un!(a, { let (x, y) = (format!("{}", a), format!("{:?}", a)); if x == y { x } else { format!("{} {}", x, y) } }),
        "fexp" => {
            let p = t.next()?;
            un!(a, if p == "d" { format!("{:e} {:E}", a, a) } else { let p: usize = p.parse().ok()?; format!("{:.*e} {:.*E}", p, a, p, a) })
        }
        "fparse" => {
            let s = text(t.next()?);
            match Float::from_str(&s) { Ok(n) => format!("ok {}", rflt(&n)), Err(_) => "err".to_string() }
        }
        "findep" => {
            let o = t.next()?;
            let (a, c) = (tf!(), tf!());
            let h = format!("{} ", rflt(&a));
            h + &match o {
                "add" => indep!(a, c, +=, rflt),
                "sub" => indep!(a, c, -=, rflt),
                "mul" => indep!(a, c, *=, rflt),
                "div" => indep!(a, c, /=, rflt),
                _ => return None,
            }
        }
        _ => return None,
    })
}
