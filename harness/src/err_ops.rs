//! Error values: which kind is reported, and whether an error keeps its kind, message and source.
use crate::lit::*;
use crate::rand_ops::Script;
use crate::Toks;
use rmath::bigint::{BigInt, Float, Nat, NatError, Rat, RatErrKind, RatError};
use rmath::parse_err::ParseErrKind;
use rmath::rand::{RandErrKind, RandError};
use std::error::Error;
use std::fmt;
use std::str::FromStr;

fn pk(k: ParseErrKind) -> &'static str {
    match k {
        ParseErrKind::BeginWithIllegalChar => "begin",
        ParseErrKind::IllegalCharEncounter => "char",
        ParseErrKind::InvalidParameters => "para",
    }
}
/// the texts of an error must be printable; they are not judged
fn show<E: Error>(e: &E) {
    let _ = format!("{} {:?} {:#?} {}", e, e, e, e.source().is_some());
}
fn ne<T>(r: Result<T, NatError>) -> String {
    match r { Ok(_) => "ok".into(), Err(e) => { show(&e); { let _ = format!("{:?}", e.kind()); format!("err_{}", pk(e.kind())) } } }
}
fn re<T>(r: Result<T, RatError>) -> String {
    match r { Ok(_) => "ok".into(), Err(e) => { show(&e); format!("err_{:?}", e.kind()) } }
}

#[derive(Debug)]
struct Inner;
impl fmt::Display for Inner { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "inner") } }
impl Error for Inner {}
#[derive(Debug)]
struct Outer(Inner);
impl fmt::Display for Outer { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "outer") } }
impl Error for Outer { fn source(&self) -> Option<&(dyn Error + 'static)> { Some(&self.0) } }

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    Some(match op {
        "kn" => ne(Nat::from_str(&text(t.next()?))),
        "ki" => ne(BigInt::from_str(&text(t.next()?))),
        "kr" => re(Rat::from_str(&text(t.next()?))),
        "kf" => match Float::from_str(&text(t.next()?)) { Ok(_) => "ok".into(), Err(e) => { show(&e); format!("err_{:?}", e.kind()) } },
        "kfrac" => re(Rat::from_frac(t.next()?.parse().ok()?, t.next()?.parse().ok()?)),
        "kfracb" => { let (a, b) = (int(t.next()?), int(t.next()?)); re(Rat::from_frac_bigint(&a, &b)) }
        "kinv" => re(rat(t.next()?).inv()),
        "kgen" => { let b = t.next()?.parse().ok()?; let mut s = Script::parse("1:0:"); ne(Nat::generate_prime(b, 5, &mut s)) }
        // kmk <type> <kind index> <message>: build an error from a message, and from another error
        "kmk" => {
            let ty = t.next()?;
            let k: usize = t.next()?.parse().ok()?;
            let m = text(t.next()?);
            macro_rules! mk { ($ty:ident, $ks:expr) => {{
                let ks = $ks;
                let k = ks[k % ks.len()];
                let (e, o) = ($ty::new(k, m.as_str()), $ty::new(k, Outer(Inner)));
                let src = |e: &dyn Error| e.source().map(|s| s.to_string()).unwrap_or_else(|| "-".into());
                format!("{} {} {} {} {} {}", (e.kind() == k) as u8, (e.to_string() == m) as u8, src(&e), (o.kind() == k) as u8, o, src(&o))
            }} }
            match ty {
                "nat" => mk!(NatError, [ParseErrKind::BeginWithIllegalChar, ParseErrKind::IllegalCharEncounter, ParseErrKind::InvalidParameters]),
                "rat" => mk!(RatError, [RatErrKind::DenominatorIsZero, RatErrKind::NumeratorIsZero, RatErrKind::ParseStringWrong]),
                "rand" => mk!(RandError, [RandErrKind::NoNewRandSeedGen, RandErrKind::NoNewRandNumberGen, RandErrKind::DivisorIsZero, RandErrKind::InvalidRngPara, RandErrKind::InnerErr]),
                _ => return None,
            }
        }
        _ => return None,
    })
}
