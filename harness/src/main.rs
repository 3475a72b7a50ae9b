//! Driver: executes one operation of rmath per input line and reports everything observable about the outcome.
//! Protocol: see engine/proto.py. One response line per request line, flushed immediately.
mod lit;
mod nat_ops;
mod int_ops;
mod rat_ops;
mod float_ops;
mod rand_ops;
mod prog;
mod ent;
mod err_ops;
#[cfg(rmath_portable)]
mod sys;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

#[repr(C)]
struct Ts { s: i64, n: i64 }
#[repr(C)]
struct Rl { cur: u64, max: u64 }
extern "C" {
    fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    fn setrlimit(res: i32, r: *const Rl) -> i32;
}
#[cfg(miri)]
fn cpu_ms() -> i64 {
    0
}
#[cfg(not(miri))]
fn cpu_ms() -> i64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t) }; // CLOCK_PROCESS_CPUTIME_ID
    t.s * 1000 + t.n / 1_000_000
}

static START: AtomicI64 = AtomicI64::new(-1);
static SEQ: AtomicU64 = AtomicU64::new(0);

pub type Toks<'a> = std::str::SplitWhitespace<'a>;

fn dispatch(line: &str) -> Option<String> {
    let mut t = line.split_whitespace();
    let op = t.next()?;
    match op.as_bytes()[0] {
        b'n' => nat_ops::run(op, &mut t),
        b'i' => int_ops::run(op, &mut t),
        b'r' => rat_ops::run(op, &mut t),
        b'f' => float_ops::run(op, &mut t),
        b'g' => rand_ops::run(op, &mut t),
        b'p' => prog::run(op, &mut t),
        b'k' => err_ops::run(op, &mut t),
        b'e' => ent::run(op, &mut t),
        _ => None,
    }
}

fn work() {
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut line = String::new();
    let mut inp = stdin.lock();
    loop {
        line.clear();
        match inp.read_line(&mut line) {
            Ok(0) | Err(_) => break,
            _ => {}
        }
        let l = line.trim_end_matches('\n');
        SEQ.fetch_add(1, Ordering::SeqCst);
        START.store(cpu_ms(), Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(l)));
        START.store(-1, Ordering::SeqCst);
        let s = match r {
            Ok(Some(s)) => s,
            Ok(None) => "!BADREQ".to_string(),
            Err(_) => "!P".to_string(),
        };
        if writeln!(out, "{}", s).is_err() || out.flush().is_err() {
            std::process::exit(4);
        }
    }
}

#[cfg(miri)]
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    work();
}

#[cfg(not(miri))]
fn main() {
    let limit_ms: i64 = std::env::var("DRV_CPU_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20000);
    if let Some(mb) = std::env::var("DRV_MEM_MB").ok().and_then(|s| s.parse::<u64>().ok()).filter(|&m| m > 0) {
        let r = Rl { cur: mb << 20, max: mb << 20 };
        unsafe { setrlimit(9, &r) }; // RLIMIT_AS
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("DRV_VERBOSE").is_some() {
            eprintln!("{}", i);
        }
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s0 = SEQ.load(Ordering::SeqCst);
        let st = START.load(Ordering::SeqCst);
        if st >= 0 && cpu_ms() - st > limit_ms && SEQ.load(Ordering::SeqCst) == s0 && START.load(Ordering::SeqCst) == st {
            // the worker is inside one operation: leave with a distinctive status; no more output
            std::process::exit(77);
        }
    });
    let h = std::thread::Builder::new().stack_size(std::env::var("DRV_STACK_MB").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize) << 20).spawn(work).unwrap();
    let ok = h.join().is_ok();
    std::process::exit(if ok { 0 } else { 5 });
}
