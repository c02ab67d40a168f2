//! What the system's random source delivers to this process.
//! The crates that ask for it (getrandom, ring) do so with libc's `syscall`, which is this one here.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static DRAWN: Mutex<Vec<u8>> = Mutex::new(Vec::new());
/// the bytes delivered since the last time
pub fn take() -> Vec<u8> { std::mem::take(&mut *DRAWN.lock().unwrap()) }
/// whether the requests for random bytes pass through here
pub fn seen() -> bool {
    use ring::rand::SecureRandom;
    let mut b = [0; 16];
    take();
    let ok = ring::rand::SystemRandom::new().fill(&mut b).is_ok();
    ok && take().windows(16).any(|w| w == b)
}

/// From now on every `period`-th request fails and the others deliver less than they were asked for; 0: none does.
pub fn unsteady(period: usize) { PERIOD.store(period, SeqCst) }
/// What the source delivers first from now on.
pub fn feed(b: Vec<u8>) { *FED.lock().unwrap() = b }
static FED: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static PERIOD: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod hook {
    use super::*;
    extern "C" { fn __errno_location() -> *mut i32; }
    const GETRANDOM: i64 = 318;
    const EAGAIN: i32 = 11;
    #[no_mangle]
    unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let p = if n == GETRANDOM { PERIOD.load(SeqCst) } else { 0 };
        let mut b = b;
        if p > 0 {
            let k = CALLS.fetch_add(1, SeqCst);
            if k % p == p - 1 {
                *__errno_location() = EAGAIN;
                return -1;
            }
            b = b.min(1 + k as i64 % 31);
        }
        if n == GETRANDOM && b > 0 {
            let mut f = FED.lock().unwrap();
            if !f.is_empty() {
                let k = f.len().min(b as usize);
                let v: Vec<u8> = f.drain(..k).collect();
                std::ptr::copy_nonoverlapping(v.as_ptr(), a as *mut u8, k);
                DRAWN.lock().unwrap().extend_from_slice(&v);
                return k as i64;
            }
        }
        let mut r = n;
        std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _);
        if (-4095..0).contains(&r) {
            *__errno_location() = -r as i32;
            return -1;
        }
        if n == GETRANDOM && r > 0 {
            DRAWN.lock().unwrap().extend_from_slice(std::slice::from_raw_parts(a as *const u8, r as usize));
        }
        r
    }
}
