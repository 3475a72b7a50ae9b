//! Entanglement monitor: do the results of an operation share state with its operands or with each other?
//! request: e<kind> <method> <operands...>; response: ok | a list of what moved when something else was mutated
use crate::lit::*;
use crate::Toks;
use rmath::bigint::{BigInt, Float, Nat, Rat};

#[derive(Clone)]
enum V { N(Nat), I(BigInt), R(Rat), F(Float) }
impl V {
    fn ren(&self) -> String {
        match self { V::N(x) => rnat(x), V::I(x) => rint(x), V::R(x) => rrat(x), V::F(x) => rflt(x) }
    }
    /// in-place changes that touch the value, its length and its sign
    fn poke(&mut self, k: usize) {
        match self {
            // an assignment that makes the value NaN
            V::N(x) if k == 3 => *x += Nat::default(),
            V::I(x) if k == 3 => *x *= BigInt::from(Nat::default()),
            V::R(x) if k == 3 => *x -= Rat::from(f64::NAN),
            V::F(x) if k == 3 => *x *= Float::from(f64::NAN),
            V::N(x) => match k % 3 { 0 => *x += 1u32, 1 => { *x <<= 70; *x += Nat::from(5u32) } _ => { *x *= 3u32; *x += 1u32 } },
            V::I(x) => match k % 3 { 0 => *x += BigInt::from(1u32), 1 => { *x <<= 70; *x -= BigInt::from(5u32) } _ => { *x *= BigInt::from(-3i32); *x += BigInt::from(1u32); x.set_negative() } },
            // through the parts the value hands out (a shallow BigInt clone shares its state with them)
            V::R(x) if k == 4 => { let (mut a, mut b) = (x.numerator().clone(), x.denominator().clone()); a += BigInt::from(1u32); b += BigInt::from(1u32); }
            V::R(x) => match k % 3 { 0 => *x += Rat::from(1u32), 1 => { *x *= Rat::from(7u32); *x += Rat::from(1u32) } _ => { *x -= Rat::from_frac(5, 3).unwrap_or_else(|_| bad()) } },
            V::F(x) => match k % 3 { 0 => *x += Float::from(1u32), 1 => { *x *= Float::from(3u32); *x -= Float::from(1u32) } _ => { x.set_precision(x.get_precision() + 40); *x += Float::from(7u32); x.set_precision(3) } },
        }
    }
    fn deep(&self) -> V {
        match self { V::N(x) => V::N(x.deep_clone()), V::I(x) => V::I(x.deep_clone()), V::R(x) => V::R(x.deep_clone()), V::F(x) => V::F(x.deep_clone()) }
    }
}

fn apply(m: &str, o: &[V]) -> Option<Vec<V>> {
    Some(match o {
        [V::N(a), V::N(b)] => {
            let (a, b) = (a, b.clone());
            vec![V::N(match m {
                "add" => a.clone() + b, "sub" => a.clone() - b, "mul" => a.clone() * b, "div" => a.clone() / b, "rem" => a.clone() % b,
                "and" => a.clone() & b, "or" => a.clone() | b, "xor" => a.clone() ^ b, "andn" => a.clone().and_not(b),
                "kara" => a.mul_karatsuba(&b), "sws" => a.sub_with_sign(b).0, "pow" => a.pow(b),
                "shl" => a.clone() << (b.bits_len() & 63), "shr" => a.clone() >> (b.bits_len() & 63), "w" => a.clone() + 1u32, "w0" => a.clone() * 1u32, "wd" => a.clone() / 1u32,
                "not" => !a.clone(), "sqr" => a.sqr(), "sqrt" => a.sqrt(), "deep" => a.deep_clone(),
                "int" => return Some(vec![V::I(BigInt::from(a.clone()))]),
                "float" => return Some(vec![V::F(Float::from(a.clone()))]),
                _ => return None,
            })]
        }
        [V::N(a), V::N(b), V::N(c)] => vec![V::N(match m { "powm" => a.pow_mod(b.clone(), c.clone()), "exp" => a.exp(b, c), _ => return None })],
        [V::I(a), V::I(b)] => {
            let b1 = b.clone();
            vec![V::I(match m {
                "add" => a.clone() + b1, "sub" => a.clone() - b1, "mul" => a.clone() * b1, "div" => a.clone() / b1, "rem" => a.clone() % b1,
                "and" => a.clone() & b1, "or" => a.clone() | b1, "xor" => a.clone() ^ b1, "andn" => a.clone().and_not(b1),
                "deu" => a.div_euclid(b1), "reu" => a.rem_euclid(b1), "inv" => a.mod_inverse(b1),
                "shl" => a.clone() << (b.bits_len() & 63), "shr" => a.clone() >> (b.bits_len() & 63),
                "not" => !a.clone(), "neg" => -a.clone(), "abs" => a.abs(), "sqr" => a.sqr(), "sqrt" => a.sqrt(), "deep" => a.deep_clone(),
                "msq" => return Some(a.mod_sqrt(b).map(V::I).into_iter().collect()),
                "gcd" => { let (x, y, z) = a.gcd(b1); return Some(vec![V::I(x), V::I(y), V::I(z)]) }
                "frac" => return Some(match Rat::from_frac_bigint(a, b) { Ok(r) => vec![V::R(r)], Err(_) => vec![] }),
                "rat" => return Some(vec![V::R(Rat::from(a.clone()))]),
                "float" => return Some(vec![V::F(Float::from(a.clone()))]),
                _ => return None,
            })]
        }
        [V::I(a), V::I(b), V::I(c)] => match m {
            "exp" => vec![V::I(a.exp(b, c))],
            "lin" => a.solve_mod_linear_equation(b.clone(), c.clone()).unwrap_or_default().into_iter().map(V::I).collect(),
            _ => return None,
        },
        [V::R(a), V::R(b)] => vec![V::R(match m {
            "add" => a.clone() + b.clone(), "sub" => a.clone() - b.clone(), "mul" => a.clone() * b.clone(), "div" => a.clone() / b.clone(),
            "neg" => -a.clone(), "abs" => a.abs(), "inv" => match a.inv() { Ok(x) => x, Err(_) => return Some(vec![]) }, "deep" => a.deep_clone(),
            "float" => return Some(vec![V::F(Float::from(a.clone()))]),
            _ => return None,
        })],
        [V::F(a), V::F(b)] => vec![V::F(match m {
            "add" => a.clone() + b.clone(), "sub" => a.clone() - b.clone(), "mul" => a.clone() * b.clone(), "div" => a.clone() / b.clone(),
            "neg" => -a.clone(), "abs" => a.abs(), "mant" => a.mant_exp().0, "deep" => a.deep_clone(),
            "sme" => { let mut z = b.deep_clone(); z.set_mant_exp(a.clone(), 3); z }
            _ => return None,
        })],
        _ => return None,
    })
}

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    let m = t.next()?;
    let mut ops: Vec<V> = Vec::new();
    for s in t {
        ops.push(match op { "en" => V::N(nat(s)), "ei" => V::I(int(s)), "er" => V::R(rat(s)), "ef" => V::F(flt(s)), _ => return None });
    }
    let ren = |v: &[V]| v.iter().map(V::ren).collect::<Vec<_>>();
    let mut bad = Vec::new();
    let before = ren(&ops);
    for k in 0..(if m == "deep" { 5 } else { 4 }) {
        let n = apply(m, &ops)?.len();
        for i in 0..n {
            let mut res = apply(m, &ops)?;
            if ren(&ops) != before { return Some("the operation changed an operand".into()) }
            let rb = ren(&res);
            res[i].poke(k);
            if ren(&ops) != before { bad.push(format!("changing result {} changed an operand", i)) }
            let ra = ren(&res);
            if (0..n).any(|j| j != i && ra[j] != rb[j]) { bad.push(format!("changing result {} changed another result", i)) }
        }
        for i in 0..ops.len() {
            let mut o: Vec<V> = ops.iter().map(V::deep).collect();
            let res = apply(m, &o)?;
            let rb = ren(&res);
            o[i].poke(k);
            if ren(&res) != rb { bad.push(format!("changing operand {} changed a result", i)) }
        }
        if !bad.is_empty() { break }
    }
    bad.dedup();
    Some(if bad.is_empty() { "ok".into() } else { bad.join("; ") })
}
