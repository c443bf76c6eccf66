//! Checking global allocator: red zones, poisoning, quarantine, double-free detection,
//! scan of freed memory for a secret marker, per-case leak accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Checking;

const HDR: usize = 48;
const TAIL: usize = 32;
const LIVE: u64 = 0x5AFE_B10C_5AFE_B10C;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u8 = 0xC7;
pub const POISON: u8 = 0xDF;
const QN: usize = 256;

#[repr(C)]
#[derive(Clone, Copy)]
struct Hdr {
    magic: u64,
    size: u64,
    align: u64,
    tracked: u64,
}

struct Quarantine {
    ring: [(*mut u8, usize, usize); QN],
    at: usize,
}

// The harness' enumeration is single-threaded; a spin lock covers helper threads.
static LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static mut Q: Quarantine = Quarantine { ring: [(std::ptr::null_mut(), 0, 0); QN], at: 0 };

/// Ranges of memory (of this thread's case) that must be wiped before the block holding them is released.
const WN: usize = 1024;
struct Wipe {
    r: [(usize, usize); WN],
    n: usize,
    freed: u64,
    bad: u64,
}
thread_local! {
    static WIPE: std::cell::RefCell<Wipe> = const { std::cell::RefCell::new(Wipe { r: [(0, 0); WN], n: 0, freed: 0, bad: 0 }) };
}
/// Requires the memory at `s` to be wiped when the block containing it is released.
pub fn wipe_watch(s: &[u8]) {
    WIPE.with(|w| {
        let mut w = w.borrow_mut();
        let n = w.n;
        let e = (s.as_ptr() as usize, s.len());
        if s.is_empty() || w.r[..n].contains(&e) {
            return;
        }
        if n == WN {
            crate::engine::fault("harness: too many watched ranges");
        }
        w.r[n] = e;
        w.n += 1;
    });
}
/// The memory at `s` belongs to the caller from now on: nothing in `[s, s + cap)` is watched any more.
pub fn wipe_forget(p: *const u8, cap: usize) {
    let p = p as usize;
    WIPE.with(|w| {
        let mut w = w.borrow_mut();
        let mut i = 0;
        while i < w.n {
            if w.r[i].0 >= p && w.r[i].0 + w.r[i].1 <= p + cap {
                w.n -= 1;
                let n = w.n;
                w.r[i] = w.r[n];
            } else {
                i += 1;
            }
        }
    });
}
/// (still watched, blocks released with watched ranges, of those not wiped), and starts anew.
pub fn wipe_reset() -> (usize, u64, u64) {
    WIPE.with(|w| {
        let mut w = w.borrow_mut();
        let r = (w.n, w.freed, w.bad);
        (w.n, w.freed, w.bad) = (0, 0, 0);
        r
    })
}
fn wipe_check(p: *mut u8, size: usize) {
    let _ = WIPE.try_with(|w| {
        let Ok(mut w) = w.try_borrow_mut() else { return };
        let (mut i, mut any) = (0, false);
        while i < w.n {
            if w.r[i].0 >= p as usize && w.r[i].0 + w.r[i].1 <= p as usize + size {
                any = true;
                w.n -= 1;
                let n = w.n;
                w.r[i] = w.r[n];
            } else {
                i += 1;
            }
        }
        if any {
            w.freed += 1;
            // Never written (0xA5) or wiped.
            let s = unsafe { std::slice::from_raw_parts(p, size) };
            if s.iter().any(|b| *b != 0 && *b != 0xA5) {
                w.bad += 1;
            }
        }
    });
}

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static GEN: Cell<u64> = const { Cell::new(0) };
    static MARK: Cell<[u8; 8]> = const { Cell::new([0; 8]) };
    static MARK_LEN: Cell<usize> = const { Cell::new(0) };
    static MARK_HITS: Cell<u64> = const { Cell::new(0) };
}

/// Starts counting live blocks allocated from now on.
pub fn track_leaks() {
    GEN.with(|g| g.set(g.get() + 1));
    LIVE_BLOCKS.with(|l| l.set(0));
    TRACK.with(|t| t.set(true));
}
/// Number of blocks allocated since `track_leaks` that are still live.
pub fn live() -> i64 {
    LIVE_BLOCKS.with(|l| l.get())
}
pub fn stop_track() -> i64 {
    TRACK.with(|t| t.set(false));
    live()
}
pub fn end_case() {
    TRACK.with(|t| t.set(false));
    MARK_LEN.with(|m| m.set(0));
}
/// Runs `f` without leak accounting.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let old = TRACK.with(|t| t.replace(false));
    let m = MARK_LEN.with(|t| t.replace(0));
    let r = f();
    TRACK.with(|t| t.set(old));
    MARK_LEN.with(|t| t.set(m));
    r
}
/// Counts freed blocks containing `marker` (at most 8 bytes) from now on.
pub fn watch_secret(marker: &[u8]) {
    let mut m = [0; 8];
    m[..marker.len()].copy_from_slice(marker);
    MARK.with(|c| c.set(m));
    MARK_LEN.with(|c| c.set(marker.len()));
    MARK_HITS.with(|c| c.set(0));
}
pub fn unwatch_secret() -> u64 {
    MARK_LEN.with(|c| c.set(0));
    MARK_HITS.with(|c| c.get())
}
pub fn secret_hits() -> u64 {
    MARK_HITS.with(|c| c.get())
}

fn off(align: usize) -> usize {
    if align <= 16 {
        HDR
    } else {
        HDR.next_multiple_of(align)
    }
}
fn full(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(off(l.align()) + l.size() + TAIL, l.align().max(16)) }
}

fn lock() {
    use std::sync::atomic::Ordering::*;
    while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, std::sync::atomic::Ordering::Release);
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let b = System.alloc(full(l));
        if b.is_null() {
            return b;
        }
        let p = b.add(off(l.align()));
        let tracked = TRACK
            .try_with(|t| t.get())
            .ok()
            .filter(|t| *t)
            .map(|_| GEN.with(|g| g.get()))
            .unwrap_or(0);
        if tracked != 0 {
            LIVE_BLOCKS.with(|x| x.set(x.get() + 1));
        }
        let h = Hdr { magic: LIVE, size: l.size() as u64, align: l.align() as u64, tracked };
        (p.sub(HDR) as *mut Hdr).write_unaligned(h);
        std::ptr::write_bytes(p.sub(HDR - std::mem::size_of::<Hdr>()), CANARY, HDR - std::mem::size_of::<Hdr>());
        std::ptr::write_bytes(p.add(l.size()), CANARY, TAIL);
        // Fresh memory is not zero: uninitialised reads show up.
        std::ptr::write_bytes(p, 0xA5, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let hp = p.sub(HDR) as *mut Hdr;
        let h = hp.read_unaligned();
        if h.magic == DEAD {
            crate::engine::fault("double free");
        }
        if h.magic != LIVE {
            crate::engine::fault("invalid free or header overwritten");
        }
        if h.size != l.size() as u64 || h.align != l.align() as u64 {
            crate::engine::fault("deallocation with a layout different from the allocation");
        }
        for i in 0..HDR - std::mem::size_of::<Hdr>() {
            if *p.sub(HDR - std::mem::size_of::<Hdr>()).add(i) != CANARY {
                crate::engine::fault("write before the start of an allocation");
            }
        }
        for i in 0..TAIL {
            if *p.add(l.size()).add(i) != CANARY {
                crate::engine::fault("write past the end of an allocation");
            }
        }
        let ml = MARK_LEN.try_with(|m| m.get()).unwrap_or(0);
        if ml > 0 && l.size() >= ml {
            let m = MARK.with(|m| m.get());
            let s = std::slice::from_raw_parts(p, l.size());
            if s.windows(ml).any(|w| w == &m[..ml]) {
                MARK_HITS.with(|c| c.set(c.get() + 1));
            }
        }
        wipe_check(p, l.size());
        if h.tracked != 0 {
            let _ = GEN.try_with(|g| {
                if g.get() == h.tracked {
                    LIVE_BLOCKS.with(|x| x.set(x.get() - 1));
                }
            });
        }
        std::ptr::write_bytes(p, POISON, l.size());
        (*hp).magic = DEAD;
        if l.size() > 65536 {
            System.dealloc(p.sub(off(l.align())), full(l));
            return;
        }
        lock();
        let q = &mut *std::ptr::addr_of_mut!(Q);
        let old = q.ring[q.at];
        q.ring[q.at] = (p, l.size(), l.align());
        q.at = (q.at + 1) % QN;
        unlock();
        if !old.0.is_null() {
            let (op, os, oa) = old;
            let s = std::slice::from_raw_parts(op, os);
            if s.iter().any(|b| *b != POISON) || (op.sub(HDR) as *const Hdr).read_unaligned().magic != DEAD {
                crate::engine::fault("write to freed memory");
            }
            let ol = Layout::from_size_align_unchecked(os, oa);
            System.dealloc(op.sub(off(oa)), full(ol));
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    // realloc: the default (alloc + copy + dealloc), so that abandoned memory is visible.
}
