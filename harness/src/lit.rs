//! literals and rendering
use rmath::bigint::float::{Accuracy, RoundingMode};
use rmath::bigint::{BigInt, Float, Nat, Rat};
use std::str::FromStr;

pub fn limbs(hex: &str) -> Vec<u32> {
    let b = hex.as_bytes();
    let mut v = Vec::with_capacity(b.len() / 8 + 1);
    let mut end = b.len();
    while end > 0 {
        let st = end.saturating_sub(8);
        v.push(u32::from_str_radix(&hex[st..end], 16).unwrap_or_else(|_| bad()));
        end = st;
    }
    while v.len() > 1 && *v.last().unwrap() == 0 {
        v.pop();
    }
    v
}
pub fn bad() -> ! {
    eprintln!("driver: malformed request");
    std::process::exit(6);
}
/// x: exact vector; z: leading zero limbs; c: much spare capacity; b/B: little/big endian bytes; s: text; p: u128
/// (a variant whose construction does not yield the intended limbs falls back to x: constructors are judged by C09/C10)
pub fn nat(tok: &str) -> Nat {
    // N: NaN from the start; N1..N3: a number that became NaN
    match tok {
        "N" => return Nat::default(),
        "N1" => { let mut x = Nat::from(vec![7u32, 0, 9]); x += Nat::default(); return x; }
        "N2" => { let mut x = Nat::from(vec![0xffff_ffffu32; 5]); x *= Nat::default(); return x; }
        "N3" => return Nat::from(vec![5u32, 6]) - Nat::default(),
        _ => {}
    }
    let n = nat_raw(tok);
    let want = limbs(&tok[1..]);
    if n.as_ref() as &[u32] != want.as_slice() {
        return Nat::from(want);
    }
    n
}
fn nat_raw(tok: &str) -> Nat {
    let (k, hex) = tok.split_at(1);
    match k {
        "x" => Nat::from(limbs(hex)),
        "z" => {
            let mut v = limbs(hex);
            let n = v.len() % 3 + 1;
            for _ in 0..n {
                v.push(0);
            }
            Nat::from(v)
        }
        "c" => {
            let l = limbs(hex);
            let mut v = Vec::with_capacity(l.len() * 3 + 40);
            v.extend_from_slice(&l);
            Nat::from(v)
        }
        "b" | "B" => {
            let mut y: Vec<u8> = limbs(hex).iter().flat_map(|w| w.to_le_bytes()).collect();
            if k == "b" {
                Nat::from_le_bytes(&y)
            } else {
                y.reverse();
                Nat::from_be_bytes(&y)
            }
        }
        "s" => Nat::from_str(&format!("0x{}", hex)).unwrap_or_else(|_| bad()),
        "p" => Nat::from(u128::from_str_radix(hex, 16).unwrap_or_else(|_| bad())),
        _ => bad(),
    }
}
pub fn int(tok: &str) -> BigInt {
    let b = int_raw(tok);
    let t = tok.trim_start_matches('-');
    if t.starts_with('N') {
        return b;
    }
    let (l, neg) = (limbs(&t[1..]), tok.starts_with('-'));
    if rnat(b.as_ref()) != rnat(&Nat::from(l.clone())) || b.is_negative() != (neg && l.iter().any(|&w| w != 0)) {
        let mut b = BigInt::from(Nat::from(l));
        if neg {
            b.set_negative();
        }
        return b;
    }
    b
}
fn int_raw(tok: &str) -> BigInt {
    let (neg, t) = match tok.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, tok),
    };
    match t {
        "N1" => { let mut x = -BigInt::from(vec![7u32, 0, 9]); x += BigInt::from(Nat::default()); return x; }
        "N2" => { let mut x = -BigInt::from(vec![0xffff_ffffu32; 5]); x *= BigInt::from(Nat::default()); return x; }
        "N3" => return (-BigInt::from(9u32)).sqrt(),
        _ => {}
    }
    // three ways of building a signed value
    if t.starts_with('s') {
        return BigInt::from_str(&format!("{}0x{}", if neg { "-" } else { "" }, &t[1..])).unwrap_or_else(|_| bad());
    }
    if t.starts_with('x') && t != "x0" && neg {
        let mut b = BigInt::from(nat(t));
        b.set_negative();
        return b;
    }
    let b = if t.starts_with('c') || t.starts_with('z') { BigInt::from(limbs(&t[1..])) } else { BigInt::from(nat(t)) };
    if neg {
        -b
    } else {
        b
    }
}
pub fn rat(tok: &str) -> Rat {
    match tok {
        "N" => return Rat::from(f64::NAN),
        "N1" => { let mut x = Rat::from(-0.75f64); x += Rat::from(f64::NAN); return x; }
        "N2" => { let mut x = Rat::from(-7.125f64); x *= Rat::from(f32::INFINITY); return x; }
        "N3" => return Rat::from(BigInt::from(Nat::default())),
        _ => {}
    }
    let (a, b) = tok.split_once('/').unwrap_or_else(|| bad());
    match Rat::from_frac_bigint(&int(a), &int(b)) {
        Ok(r) => r,
        Err(_) => bad(),
    }
}
pub fn rnat(n: &Nat) -> String {
    let l: &[u32] = n.as_ref();
    if l.is_empty() {
        return "N".to_string();
    }
    let mut s = String::with_capacity(l.len() * 8);
    for w in l.iter().rev() {
        let mut k = 8;
        while k > 0 {
            k -= 1;
            s.push(b"0123456789abcdef"[((w >> (4 * k)) & 15) as usize] as char);
        }
    }
    s
}
pub fn rint(i: &BigInt) -> String {
    let s = rnat(i.as_ref());
    if i.is_negative() {
        format!("-{}", s)
    } else {
        s
    }
}
pub fn rrat(r: &Rat) -> String {
    if r.is_nan() {
        return "N".to_string();
    }
    format!("{}/{}", rint(r.numerator()), rint(r.denominator()))
}
pub const MODES: [RoundingMode; 6] = [
    RoundingMode::ToNearestEven,
    RoundingMode::ToNearestAway,
    RoundingMode::ToZero,
    RoundingMode::AwayFromZero,
    RoundingMode::ToNegativeInf,
    RoundingMode::ToPositiveInf,
];
/// <prec>,<mode>,<kind>; kind: n | [-]z | [-]i | [-]<hex>p<exp>
/// mode + 10: the same value, but reached by an inexact operation (its accuracy is not Exact)
pub fn flt(tok: &str) -> Float {
    let mut it = tok.splitn(3, ',');
    let prec: usize = it.next().and_then(|s| s.parse().ok()).unwrap_or_else(|| bad());
    let mode: usize = it.next().and_then(|s| s.parse().ok()).unwrap_or_else(|| bad());
    let kind = it.next().unwrap_or_else(|| bad());
    let (neg, k) = match kind.strip_prefix('-') {
        Some(k) => (true, k),
        None => (false, kind),
    };
    let (mode, inexact) = (mode % 10, mode >= 10);
    let mut f = match k {
        "n" => Float::from(f64::NAN),
        "z" => Float::default(),
        "i" => Float::get_inf(neg),
        // the same special values, but reached from a finite value (the old mantissa may still be around)
        "z1" => { let mut x = stale(); x *= Float::default(); x }
        "z2" => { let mut x = stale(); x -= stale(); x }
        "z3" => { let mut z = Float::default(); z.set_mant_exp(stale(), Float::min_exp() - 100); z.set_mant_exp(z.clone(), Float::min_exp()); z }
        "i1" => { let mut x = stale(); x /= Float::default(); x }
        "i2" => { let mut x = stale(); x *= Float::get_inf(neg); x }
        "i3" => { let mut z = Float::default(); z.set_mant_exp(stale(), Float::max_exp()); z }
        "n1" => { let mut x = stale(); x /= Float::default(); x -= Float::get_inf(false); x }
        "n2" => { let mut x = stale(); x *= Float::from(f64::NAN); x }
        "n3" => { let mut x = stale(); x *= Float::default(); x /= Float::default(); x }
        _ => {
            let (h, e) = k.split_once('p').unwrap_or_else(|| bad());
            let e: isize = e.parse().unwrap_or_else(|_| bad());
            let m = Float::from(Nat::from(limbs(h)));
            let mut z = Float::default();
            z.set_mant_exp(m, e);
            z
        }
    };
    f.set_precision(prec);
    f.set_mode(MODES[mode]);
    if !f.is_nan() && f.is_negative() != Some(neg) {
        f = -f;
    }
    if inexact && prec > 0 && !f.is_nan() {
        let g = inexact_twin(k, prec, mode, neg);
        let same = |x: &Float| rflt(x).splitn(4, ',').nth(3).map(|s| s.to_string());
        // (an attempt that does not give the intended value is judged elsewhere)
        if same(&g).map(val) == same(&f).map(val) && g.get_precision() == prec {
            return g;
        }
    }
    f
}
/// a rendered value without the trailing zero limbs of its mantissa
fn val(s: String) -> String {
    match s.split_once('@') {
        Some((m, e)) => {
            let mut m = m.to_string();
            while m.len() > 8 && m.ends_with("00000000") {
                m.truncate(m.len() - 8);
            }
            format!("{}@{}", m, e)
        }
        None => s,
    }
}
fn inexact_twin(k: &str, prec: usize, mode: usize, neg: bool) -> Float {
    let special = k.starts_with('z') || k.starts_with('i');
    let (mut m, e) = if special {
        (stale(), if k.starts_with('z') { Float::min_exp() } else { Float::max_exp() })
    } else {
        let (h, e) = k.split_once('p').unwrap_or_else(|| bad());
        let e: isize = e.parse().unwrap_or_else(|_| bad());
        // the mantissa with three more bits, the last one set (or one unit less, where the mode rounds away)
        let away = mode == 3 || mode == 4 && neg || mode == 5 && !neg;
        let mut l = limbs(h);
        let bits = l.len() * 32 - l.last().unwrap().leading_zeros() as usize;
        if bits > prec {
            return Float::default();
        }
        let sh = prec - bits + 3;
        let mut v = vec![0u32; sh / 32];
        let r = sh % 32;
        l.push(0);
        let mut c = 0u64;
        for w in l {
            let t = (w as u64) << r | c;
            v.push(t as u32);
            c = t >> 32;
        }
        if away {
            for w in v.iter_mut() {
                let (x, b) = w.overflowing_sub(1);
                *w = x;
                if !b {
                    break;
                }
            }
        } else {
            v[0] |= 1;
        }
        while *v.last().unwrap() == 0 {
            v.pop();
        }
        (Float::from(Nat::from(v)), e - sh as isize)
    };
    if neg {
        m = -m;
    }
    let mut z = Float::default();
    if special {
        m.set_precision(prec);
        m.set_mode(MODES[mode]);
        z.set_mant_exp(m, e);
        if k.starts_with('z') {
            let y = z.deep_clone();
            z.set_mant_exp(y, e);
        }
    } else {
        z.set_mant_exp(m, e);
        z.set_mode(MODES[mode]);
        z.set_precision(prec);
    }
    z
}
fn stale() -> Float {
    Float::from(Nat::from(vec![0x80000001u32, 0xdeadbeef, 0x9]))
}
pub fn racc(a: Accuracy) -> &'static str {
    match a {
        Accuracy::Below => "B",
        Accuracy::Exact => "E",
        Accuracy::Above => "A",
    }
}
/// <prec>,<mode>,<acc>,<kind>; kind: n | [-]z | [-]i | [-]<limbs>@<exp>   (value = 0.limbs * 2^exp)
pub fn rflt(f: &Float) -> String {
    let mode = MODES.iter().position(|&m| m == f.get_mode()).unwrap();
    let head = format!("{},{},{},", f.get_precision(), mode, racc(f.get_accuracy()));
    let neg = if f.is_negative() == Some(true) { "-" } else { "" };
    if f.is_nan() {
        return format!("{}n", head);
    }
    if f.is_infinite() == Some(true) {
        return format!("{}{}i", head, neg);
    }
    if f.signnum() == Some(0) {
        return format!("{}{}z", head, neg);
    }
    let (m, e) = f.verif_mant_exp();
    let mut s = String::new();
    for w in m.iter().rev() {
        s.push_str(&format!("{:08x}", w));
    }
    if s.is_empty() {
        s.push('N');
    }
    format!("{}{}{}@{}", head, neg, s, e)
}
pub fn text(tok: &str) -> String {
    // hex of utf-8 bytes, '-' for the empty string
    if tok == "-" {
        return String::new();
    }
    String::from_utf8(bytes(tok)).unwrap_or_else(|_| bad())
}
pub fn bytes(tok: &str) -> Vec<u8> {
    if tok == "-" {
        return Vec::new();
    }
    (0..tok.len() / 2).map(|i| u8::from_str_radix(&tok[2 * i..2 * i + 2], 16).unwrap_or_else(|_| bad())).collect()
}
pub fn rbytes(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".to_string();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn ord(o: Option<std::cmp::Ordering>) -> &'static str {
    match o {
        None => "?",
        Some(std::cmp::Ordering::Less) => "<",
        Some(std::cmp::Ordering::Equal) => "=",
        Some(std::cmp::Ordering::Greater) => ">",
    }
}
pub fn b(x: bool) -> char {
    if x {
        '1'
    } else {
        '0'
    }
}
#[macro_export]
macro_rules! cmpstr {
    ($x:expr, $y:expr) => {{
        let (x, y) = (&$x, &$y);
        #[allow(clippy::all)]
        let r = format!(
            "{}{}{}{}{}{}{}",
            $crate::lit::b(*x == *y),
            $crate::lit::b(*x != *y),
            $crate::lit::b(*x < *y),
            $crate::lit::b(*x <= *y),
            $crate::lit::b(*x > *y),
            $crate::lit::b(*x >= *y),
            $crate::lit::ord((*x).partial_cmp(y))
        );
        r
    }};
}
/// binary operator in every form; result rendering plus " MUT" when an operand changed
#[macro_export]
macro_rules! binop {
    ($form:expr, $a:expr, $b:expr, $op:tt, $opa:tt, $ren:path) => {{
        let (ra, rb) = ($ren(&$a), $ren(&$b));
        let mut r = match $form {
            "v" => $ren(&($a.clone() $op $b.clone())),
            "m" => $ren(&($a.deep_clone() $op $b.deep_clone())),
            "a" => { let mut x = $a.deep_clone(); x $opa $b.clone(); $ren(&x) }
            "s" => $ren(&($a.clone() $op $a.clone())),
            "t" => { let mut x = $a.deep_clone(); let y = x.clone(); x $opa y; $ren(&x) }
            _ => return None,
        };
        if ra != $ren(&$a) || rb != $ren(&$b) { r.push_str(" MUT"); }
        r
    }};
}
#[macro_export]
macro_rules! binprim {
    ($form:expr, $a:expr, $k:expr, $op:tt, $opa:tt, $ren:path) => {{
        let ra = $ren(&$a);
        let mut r = match $form {
            "v" => $ren(&($a.clone() $op $k)),
            "m" => $ren(&($a.deep_clone() $op $k)),
            "a" => { let mut x = $a.deep_clone(); x $opa $k; $ren(&x) }
            _ => return None,
        };
        if ra != $ren(&$a) { r.push_str(" MUT"); }
        r
    }};
}
/// deep-clone independence: mutate the original, look at the clone, and the other way round
#[macro_export]
macro_rules! indep {
    ($a:expr, $b:expr, $opa:tt, $ren:path) => {{
        let mut x = $a.deep_clone();
        let mut d = x.deep_clone();
        x $opa $b.clone();
        let r1 = $ren(&d);
        let keep = x.deep_clone();
        d $opa $b.clone();
        d $opa $b.clone();
        let r2 = $ren(&x);
        drop(d);
        format!("{} {} {}", r1, r2, $ren(&keep))
    }};
}
