//! Stand-in for libc's syscall(): everything is passed on, but getrandom of the calling thread can be scripted
//! (short reads, failures), and the bytes it delivered are recorded. Only in the build of the portable back ends.
use std::cell::RefCell;

type Script = Option<(Vec<Option<usize>>, Vec<u8>)>;
thread_local! {
    static SCRIPT: RefCell<Script> = const { RefCell::new(None) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn script(s: Script) {
    SCRIPT.with(|x| *x.borrow_mut() = s);
}
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
const SYS_GETRANDOM: i64 = 318;

#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if num == SYS_GETRANDOM {
        let r = SCRIPT.try_with(|s| {
            let mut s = s.borrow_mut();
            let (steps, data) = s.as_mut()?;
            if steps.is_empty() {
                return None;
            }
            let step = steps.remove(0);
            let k = match step {
                None => {
                    LOG.with(|l| l.borrow_mut().push("f".into()));
                    *__errno_location() = 11; // EAGAIN
                    return Some(-1);
                }
                Some(k) => k.min(b as usize).min(data.len()),
            };
            let out: Vec<u8> = data.drain(..k).collect();
            std::ptr::copy_nonoverlapping(out.as_ptr(), a as *mut u8, k);
            LOG.with(|l| l.borrow_mut().push(crate::lit::rbytes(&out)));
            Some(k as i64)
        });
        if let Ok(Some(r)) = r {
            return r;
        }
    }
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") num => ret, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&ret) {
        *__errno_location() = -ret as i32;
        return -1;
    }
    ret
}
