//! Virtual monotonic clock: interposes the libc calls that std uses for Instant and sleep.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static ON: AtomicBool = AtomicBool::new(false);
static NOW: AtomicU64 = AtomicU64::new(0); // nanoseconds
static SLEPT: AtomicU64 = AtomicU64::new(0);

const BASE: u64 = 1_000_000_000_000_000;

pub fn on() {
    NOW.store(BASE, Ordering::SeqCst);
    SLEPT.store(0, Ordering::SeqCst);
    ON.store(true, Ordering::SeqCst);
}
pub fn off() {
    ON.store(false, Ordering::SeqCst);
}
pub fn advance_ns(n: u64) {
    NOW.fetch_add(n, Ordering::SeqCst);
}
pub fn advance_ms(n: u64) {
    advance_ns(n * 1_000_000);
}
/// Milliseconds since `on`.
pub fn now_ms() -> u64 {
    (NOW.load(Ordering::SeqCst) - BASE) / 1_000_000
}
pub fn now_ns() -> u64 {
    NOW.load(Ordering::SeqCst) - BASE
}
/// Total virtual time spent in sleeps.
pub fn slept_ns() -> u64 {
    SLEPT.load(Ordering::SeqCst)
}
pub fn with_real<T>(f: impl FnOnce() -> T) -> T {
    let old = ON.swap(false, Ordering::SeqCst);
    let r = f();
    ON.store(old, Ordering::SeqCst);
    r
}

fn sleep_virtual(req: *const libc::timespec) {
    let r = unsafe { &*req };
    let n = r.tv_sec as u64 * 1_000_000_000 + r.tv_nsec as u64;
    SLEPT.fetch_add(n, Ordering::SeqCst);
    advance_ns(n);
}

#[no_mangle]
pub extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ON.load(Ordering::SeqCst) {
        let n = NOW.load(Ordering::SeqCst);
        unsafe {
            (*ts).tv_sec = (n / 1_000_000_000) as _;
            (*ts).tv_nsec = (n % 1_000_000_000) as _;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int }
}

#[no_mangle]
pub extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if ON.load(Ordering::SeqCst) {
        sleep_virtual(req);
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int }
}

#[no_mangle]
pub extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if ON.load(Ordering::SeqCst) {
        if flags == 0 {
            sleep_virtual(req);
        } else {
            let r = unsafe { &*req };
            let t = r.tv_sec as u64 * 1_000_000_000 + r.tv_nsec as u64;
            let n = NOW.load(Ordering::SeqCst);
            if t > n {
                SLEPT.fetch_add(t - n, Ordering::SeqCst);
                advance_ns(t - n);
            }
        }
        return 0;
    }
    unsafe {
        libc::syscall(libc::SYS_clock_nanosleep, clk as libc::c_long, flags as libc::c_long, req, rem) as libc::c_int
    }
}

/// Sets the virtual time to `n` nanoseconds after `on`.
pub fn set_ns(n: u64) {
    NOW.store(BASE + n, Ordering::SeqCst);
}
