//! random engines, scripted (fault-injecting) sources and seeds
use crate::lit::*;
use crate::Toks;
use rmath::rand::{
    CryptoRand, DefaultRand, DefaultSeed, Iter, IterSource, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, PrimitiveType, RandErrKind,
    RandError, Result, Seed, Source,
};

/// `<seedhex>:<failmod>:<tok,tok,...>`: first the scripted tokens (hex value or E = failure), then a splitmix stream
/// that fails at every failmod-th poll (0: never)
pub struct Script {
    toks: Vec<Option<u64>>,
    state: u64,
    failmod: u64,
    pub polls: u64,
}
impl Script {
    pub fn parse(tok: &str) -> Script {
        let mut it = tok.splitn(3, ':');
        let state = it.next().and_then(|s| u64::from_str_radix(s, 16).ok()).unwrap_or_else(|| bad());
        let failmod = it.next().and_then(|s| s.parse().ok()).unwrap_or_else(|| bad());
        let toks = it
            .next()
            .unwrap_or("")
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| if s == "E" { None } else { Some(u64::from_str_radix(s, 16).unwrap_or_else(|_| bad())) })
            .collect();
        Script { toks, state, failmod, polls: 0 }
    }
    fn poll(&mut self) -> Result<u64> {
        let i = self.polls;
        self.polls += 1;
        let v = if (i as usize) < self.toks.len() {
            self.toks[i as usize]
        } else if self.failmod > 0 && i % self.failmod == 0 {
            None
        } else {
            self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            Some(z ^ (z >> 31))
        };
        v.ok_or_else(|| RandError::new(RandErrKind::NoNewRandNumberGen, format!("poll{}", i)))
    }
}
/// seed literal: hex value or E (fails with InnerErr / seed-failed)
pub struct Sd(Option<u64>);
impl Sd {
    fn parse(s: &str) -> Sd {
        Sd(if s == "E" { None } else { Some(u64::from_str_radix(s, 16).unwrap_or_else(|_| bad())) })
    }
}
macro_rules! imp {
    ($($t:ty),*) => { $(
        impl Source<$t> for Script {
            fn gen(&mut self) -> Result<$t> { self.poll().map(|x| x as $t) }
            fn reset<S: Seed<$t>>(&mut self, _sd: &S) -> Result<()> { Ok(()) }
        }
        impl IterSource<$t> for Script {
            fn iter_mut(&mut self) -> Iter<'_, Self, $t> { Iter::new(self) }
        }
        impl Seed<$t> for Sd {
            fn seed(&self) -> Result<$t> {
                self.0.map(|x| x as $t).ok_or_else(|| RandError::new(RandErrKind::InnerErr, "seed-failed"))
            }
        }
    )* };
}
imp!(u32, u64, usize);

fn err(e: &RandError) -> String {
    format!("err:{:?}:{}", e.kind(), e.to_string().replace(' ', "_"))
}

trait Eng {
    fn g(&mut self) -> Result<u64>;
    fn rs(&mut self, s: &Sd) -> Result<()>;
    fn it(&mut self, n: usize) -> Vec<u64>;
    fn cl(&self) -> Box<dyn Eng>;
}
macro_rules! eng {
    ($e:ident, $($t:ty),*) => { $(
        impl Eng for $e<$t> {
            fn g(&mut self) -> Result<u64> { self.gen().map(|x| x as u64) }
            fn rs(&mut self, s: &Sd) -> Result<()> { self.reset(s) }
            fn it(&mut self, n: usize) -> Vec<u64> { self.iter_mut().take(n).map(|x| x as u64).collect() }
            fn cl(&self) -> Box<dyn Eng> { Box::new(self.clone()) }
        }
    )* };
}
eng!(LinearCongruentialRand, u32, u64, usize);
eng!(MersenneTwisterRand, u32, u64, usize);
eng!(LaggedFibonacciRand, u32, u64, usize);

fn boxed<E: Eng + 'static>(r: Result<E>) -> Result<Box<dyn Eng>> {
    r.map(|e| Box::new(e) as Box<dyn Eng>)
}

fn drive(r: Result<Box<dyn Eng>>, t: &mut Toks) -> Option<String> {
    let mut e = match r {
        Err(x) => return Some(err(&x)),
        Ok(e) => e,
    };
    let mut out = vec!["ok".to_string()];
    let mut backup: Option<Box<dyn Eng>> = None;
    let one = |r: Result<u64>| match r { Ok(x) => format!("{:x}", x), Err(x) => err(&x) };
    for a in t {
        let (k, v) = a.split_at(1);
        out.push(match k {
            "g" => { let n: usize = v.parse().ok()?; (0..n).map(|_| one(e.g())).collect::<Vec<_>>().join(",") }
            "d" => { let n: usize = v.parse().ok()?; let mut l = String::new(); for i in 0..n { let x = e.g(); if i + 1 == n { l = one(x) } } l }
            "i" => { let n: usize = v.parse().ok()?; e.it(n).iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(",") }
            "k" => { backup = Some(e.cl()); "k".into() }
            "w" => { std::mem::swap(&mut e, backup.as_mut()?); "w".into() }
            "r" => match e.rs(&Sd::parse(v)) { Ok(()) => "ok".into(), Err(x) => err(&x) },
            _ => return None,
        });
    }
    Some(out.join(" "))
}

pub fn run(op: &str, t: &mut Toks) -> Option<String> {
    fn h(t: &mut Toks) -> Option<u64> { u64::from_str_radix(t.next()?, 16).ok() }
    match op {
        "glcg" => {
            let ty = t.next()?;
            let s = Sd::parse(t.next()?);
            let (a, c, m) = (h(t)?, h(t)?, h(t)?);
            let r = match ty {
                "u32" => boxed(LinearCongruentialRand::<u32>::new(&s, a as u32, c as u32, m as u32)),
                "u64" => boxed(LinearCongruentialRand::<u64>::new(&s, a, c, m)),
                "usize" => boxed(LinearCongruentialRand::<usize>::new(&s, a as usize, c as usize, m as usize)),
                _ => return None,
            };
            drive(r, t)
        }
        "glf" => {
            let ty = t.next()?;
            let s = Sd::parse(t.next()?);
            let (w, sl, r) = (h(t)?, h(t)?, h(t)?);
            let r = match ty {
                "u32" => boxed(LaggedFibonacciRand::<u32>::new(&s, w as u32, sl as u32, r as u32)),
                "u64" => boxed(LaggedFibonacciRand::<u64>::new(&s, w, sl, r)),
                "usize" => boxed(LaggedFibonacciRand::<usize>::new(&s, w as usize, sl as usize, r as usize)),
                _ => return None,
            };
            drive(r, t)
        }
        "gmt" => {
            let ty = t.next()?;
            let s = Sd::parse(t.next()?);
            let mut p = [0u64; 13];
            for x in p.iter_mut() { *x = h(t)? }
            macro_rules! mk { ($t:ty) => {{
                let q: Vec<$t> = p.iter().map(|&x| x as $t).collect();
                boxed(MersenneTwisterRand::<$t>::new(&s, q[0], q[1], q[2], q[3], q[4], (q[5], q[6]), (q[7], q[8]), (q[9], q[10]), q[11], q[12]))
            }} }
            let r = match ty { "u32" => mk!(u32), "u64" => mk!(u64), "usize" => mk!(usize), _ => return None };
            drive(r, t)
        }
        "gnamed" => {
            let n = t.next()?;
            let s = Sd::parse(t.next()?);
            let r = match n {
                "minstd_rand0" => boxed(rmath::minstd_rand0!(s)),
                "minstd_rand" => boxed(rmath::minstd_rand!(s)),
                "mt19937" => boxed(rmath::mt19937!(s)),
                "mt19937_64" => boxed(rmath::mt19937_64!(s)),
                "ranlux24_base" => { let r: Result<LaggedFibonacciRand<u32>> = rmath::ranlux24_base!(s); boxed(r) }
                "ranlux48_base" => { let r: Result<LaggedFibonacciRand<u64>> = rmath::ranlux48_base!(s); boxed(r) }
                "ranlux24_base_64" => { let r: Result<LaggedFibonacciRand<u64>> = rmath::ranlux24_base!(s); boxed(r) }
                "ranlux48_base_us" => { let r: Result<LaggedFibonacciRand<usize>> = rmath::ranlux48_base!(s); boxed(r) }
                _ => return None,
            };
            drive(r, t)
        }
        // iterator protocol over a scripted source
        "giter" => {
            let ty = t.next()?;
            let mut s = Script::parse(t.next()?);
            macro_rules! go { ($t:ty) => {{
                let mut out: Vec<String> = Vec::new();
                {
                    let mut it: Iter<Script, $t> = Iter::new(&mut s);
                    for a in t {
                        out.push(match a {
                            "n" => match it.next() { Some(x) => format!("{:x}", x), None => "-".into() },
                            "e" => match it.last_error() { Some(x) => err(x), None => "-".into() },
                            "c" => { it.clear_error(); "c".into() }
                            _ => return None,
                        });
                    }
                }
                out.push(format!("polls={}", s.polls));
                out.join(" ")
            }} }
            Some(match ty { "u32" => go!(u32), "u64" => go!(u64), "usize" => go!(usize), _ => return None })
        }
        "ghw" => {
            let (w, ty) = (t.next()?, t.next()?);
            let n: usize = t.next()?.parse().ok()?;
            macro_rules! go { ($t:ty) => {{
                let sd = DefaultSeed::<$t>::new().ok()?;
                let mut rd = DefaultRand::<$t>::new(&sd).ok()?;
                let mut cr = CryptoRand::<$t>::new(&sd).ok()?;
                let mut out: Vec<String> = Vec::new();
                let mut fails = 0u64;
                while out.len() < n && fails < 5_000_000 {
                    let r = match w {
                        "seed" => sd.seed(),
                        "rand" => rd.gen(),
                        "crypto" => cr.gen(),
                        "randit" => rd.iter_mut().next().ok_or_else(|| RandError::new(RandErrKind::InnerErr, "none")),
                        "cryptoit" => cr.iter_mut().next().ok_or_else(|| RandError::new(RandErrKind::InnerErr, "none")),
                        _ => return None,
                    };
                    match r {
                        Ok(x) => out.push(format!("{:x}", x)),
                        Err(_) => { fails += 1; std::thread::yield_now(); }
                    }
                }
                let rs = (rd.reset(&sd).is_ok(), cr.reset(&sd).is_ok());
                format!("fails={} reset={}{} {}", fails, b(rs.0), b(rs.1), out.join(","))
            }} }
            Some(match ty { "u32" => go!(u32), "u64" => go!(u64), "usize" => go!(usize), _ => return None })
        }
        // the hardware is scripted: f = the instruction fails, <hex> = it delivers that word
        #[cfg(not(rmath_portable))]
        "ghwf" => {
            use rmath::rand::verif_hw;
            let (w, ty) = (t.next()?, t.next()?);
            let n: usize = t.next()?.parse().ok()?;
            let steps: Vec<Option<u64>> = t.next()?.split(',').map(|s| if s == "f" { None } else { Some(u64::from_str_radix(s, 16).unwrap_or_else(|_| bad())) }).collect();
            macro_rules! go { ($t:ty) => {{
                let sd = DefaultSeed::<$t>::new().ok()?;
                let rd = DefaultRand::<$t>::new(&sd).ok()?;
                let cr = CryptoRand::<$t>::new(&sd).ok()?;
                verif_hw::script(steps);
                let r = polls(w, n, sd, rd, cr, || verif_hw::take_log().into_iter().map(|(ok, x)| if ok { format!("{:x}", x) } else { "f".into() }).collect());
                verif_hw::script(Vec::new());
                r?
            }} }
            Some(match ty { "u32" => go!(u32), "u64" => go!(u64), "usize" => go!(usize), _ => return None })
        }
        // the system call is scripted: e = it fails, k = it delivers k bytes
        #[cfg(rmath_portable)]
        "ghwf" => {
            let (w, ty) = (t.next()?, t.next()?);
            let n: usize = t.next()?.parse().ok()?;
            let steps: Vec<Option<usize>> = t.next()?.split(',').map(|s| s.parse().ok()).collect();
            let data = bytes(t.next()?);
            macro_rules! go { ($t:ty) => {{
                let sd = DefaultSeed::<$t>::new().ok()?;
                let rd = DefaultRand::<$t>::new(&sd).ok()?;
                let cr = CryptoRand::<$t>::new(&sd).ok()?;
                crate::sys::script(Some((steps, data)));
                let r = polls(w, n, sd, rd, cr, crate::sys::take_log);
                crate::sys::script(None);
                r?
            }} }
            Some(match ty { "u32" => go!(u32), "u64" => go!(u64), "usize" => go!(usize), _ => return None })
        }
        _ => None,
    }
}
/// n polls of a source; for every poll what it returned and what the hardware did meanwhile
fn polls<T: PrimitiveType + std::fmt::LowerHex>(w: &str, n: usize, sd: DefaultSeed<T>, mut rd: DefaultRand<T>, mut cr: CryptoRand<T>, log: fn() -> Vec<String>) -> Option<String>
where DefaultSeed<T>: Seed<T>, DefaultRand<T>: IterSource<T>, CryptoRand<T>: IterSource<T> {
    fn it<T: PrimitiveType + std::fmt::LowerHex, S: IterSource<T>>(s: &mut S, n: usize, log: fn() -> Vec<String>) -> Vec<String> {
        let mut i = s.iter_mut();
        (0..n).map(|_| {
            let r = match i.next() { Some(x) => format!("{:x}", x), None => { let e = match i.last_error() { Some(e) => err(e), None => "none".into() }; i.clear_error(); format!("E{}", e) } };
            format!("{}:{}", r, log().join("."))
        }).collect()
    }
    let one = |r: Result<T>| format!("{}:{}", match r { Ok(x) => format!("{:x}", x), Err(e) => format!("E{}", err(&e)) }, log().join("."));
    log();
    Some(match w {
        "seed" => (0..n).map(|_| one(sd.seed())).collect::<Vec<_>>(),
        "rand" => (0..n).map(|_| one(rd.gen())).collect(),
        "crypto" => (0..n).map(|_| one(cr.gen())).collect(),
        "randit" => it(&mut rd, n, log),
        "cryptoit" => it(&mut cr, n, log),
        _ => return None,
    }.join(" "))
}
