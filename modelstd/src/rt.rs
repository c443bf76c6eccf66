//! Controlled scheduler: fibers on one OS thread, exhaustive depth-first search over scheduling,
//! reads-from and wakeup choices, vector clocks, block-level memory checking.
//!
//! Memory model: every atomic location keeps its modification order; a load may return any store
//! not older than the newest one ordered before it by happens-before or coherence (view-based
//! release/acquire semantics with release sequences and fences); read-modify-writes read the
//! newest store; stores append to the modification order.
use ::std::panic::{catch_unwind, AssertUnwindSafe};

pub const MAXT: usize = 6;
const STACK: usize = 96 * 1024;
const STEP_LIMIT: u64 = 5_000;

#[derive(Clone, Default, Debug)]
pub struct Clock {
    pub vc: [u32; MAXT],
    view: Vec<u32>,
}
impl Clock {
    fn join(&mut self, o: &Clock) {
        for i in 0..MAXT {
            self.vc[i] = self.vc[i].max(o.vc[i]);
        }
        self.join_view(&o.view);
    }
    fn join_view(&mut self, o: &[u32]) {
        if self.view.len() < o.len() {
            self.view.resize(o.len(), 0);
        }
        for (a, b) in self.view.iter_mut().zip(o) {
            *a = (*a).max(*b);
        }
    }
    fn view(&self, l: usize) -> u32 {
        self.view.get(l).copied().unwrap_or(0)
    }
    fn set_view(&mut self, l: usize, v: u32) {
        if self.view.len() <= l {
            self.view.resize(l + 1, 0);
        }
        self.view[l] = self.view[l].max(v);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Parked,
    WaitLoc(usize),
    WaitSync(usize),
    Join(usize),
    Done,
}

// Stack switching: saves the callee-saved registers on the old stack.
::std::arch::global_asm!(
    ".global modelstd_switch",
    "modelstd_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    fn modelstd_switch(from: *mut usize, to: usize);
}

struct Fiber {
    ctx: usize,
    stack: Vec<u8>,
    st: St,
    cur: Clock,
    acq: Clock,
    rel: Clock,
    token: bool,
    token_clock: Clock,
    body: Option<Box<dyn FnOnce()>>,
    end: Clock,
}

struct Msg {
    val: u64,
    clk: Clock,
}
struct Loc {
    hist: Vec<Msg>,
    sc: u32,
}
struct SyncObj {
    clk: Clock,
}
struct Block {
    addr: usize,
    size: usize,
    align: usize,
    freed: bool,
    acc: [u32; MAXT],
    wr: (usize, u32),
}
struct Handle {
    alive: bool,
    acc: [u32; MAXT],
}

/// How many of each kind of deviation one execution may contain.
#[derive(Clone, Copy, Debug, Hash)]
pub struct Bounds {
    pub preempt: u32,
    pub stale: u32,
    pub spurious: u32,
    pub weak: u32,
}

struct Rt {
    epoch: u64,
    fibers: Vec<Fiber>,
    cur: usize,
    main: usize,
    hold: u32,
    prefix: Vec<u32>,
    taken: Vec<(u32, u32)>,
    left: Bounds,
    steps: u64,
    sp_count: u64,
    run: u32,
    violation: Option<String>,
    locs: Vec<Loc>,
    syncs: Vec<SyncObj>,
    sc_view: Vec<u32>,
    blocks: Vec<Block>,
    handles: Vec<Handle>,
    trace: Option<Vec<String>>,
    pool: Vec<Vec<u8>>,
}

static mut RT: *mut Rt = ::std::ptr::null_mut();
static mut ACTIVE: bool = false;
static mut QUIET: u32 = 0;
static mut EPOCH: u64 = 0;

#[inline]
fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
/// True while a fiber of an exploration is executing user code.
#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE && QUIET == 0 }
}
struct Q;
impl Q {
    #[inline]
    fn new() -> Q {
        unsafe { QUIET += 1 };
        Q
    }
}
impl Drop for Q {
    fn drop(&mut self) {
        unsafe { QUIET -= 1 };
    }
}
/// Runs monitor code: untracked allocations, no scheduling.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let _q = Q::new();
    f()
}

fn ev(f: impl FnOnce() -> String) {
    if unsafe { ACTIVE } {
        let r = rt();
        if r.trace.is_some() {
            let _q = Q::new();
            let s = format!("T{}: {}", r.cur, f());
            r.trace.as_mut().unwrap().push(s);
        }
    }
}
/// Adds a line to the trace.
pub fn note(f: impl FnOnce() -> String) {
    ev(f)
}

/// Reports a violation and abandons the execution.
pub fn violate(msg: String) -> ! {
    unsafe {
        if !ACTIVE {
            panic!("{msg}");
        }
        QUIET += 1;
        let r = rt();
        if r.violation.is_none() {
            r.violation = Some(format!("thread {}: {msg}", r.cur));
        }
        let mut dead = 0usize;
        modelstd_switch(&mut dead, r.main);
        ::std::process::abort()
    }
}

fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let r = rt();
    let i = r.taken.len();
    let c = r.prefix.get(i).copied().unwrap_or(0);
    if c as usize >= n {
        violate(format!("engine: replay divergence (choice {c} of {n} at {i})"));
    }
    r.taken.push((c, n as u32));
    c as usize
}
/// An environment choice made by the scenario itself.
pub fn decide(n: usize) -> usize {
    let _q = Q::new();
    choose(n)
}

/// Runs set-up code without preemption.
pub fn held<T>(f: impl FnOnce() -> T) -> T {
    rt().hold += 1;
    let r = f();
    rt().hold -= 1;
    r
}
pub fn me() -> usize {
    rt().cur
}

fn switch(to: usize) {
    let r = rt();
    let from = r.cur;
    if from == to {
        return;
    }
    r.cur = to;
    r.run = 0;
    unsafe {
        // Quiet depth belongs to the fiber.
        let q = QUIET;
        let t = r.fibers[to].ctx;
        let f: *mut usize = &mut r.fibers[from].ctx;
        modelstd_switch(f, t);
        QUIET = q;
    }
}

/// A scheduling point: another thread may run here.
pub fn sp() {
    if !active() || ::std::thread::panicking() {
        return;
    }
    let _q = Q::new();
    let r = rt();
    r.steps += 1;
    if r.steps > STEP_LIMIT {
        violate("the execution does not terminate".into());
    }
    // A thread that spins without yielding is eventually descheduled.
    r.run += 1;
    if r.run > 300 {
        r.run = 0;
        let n = r.fibers.len();
        if let Some(i) = (1..n).map(|k| (r.cur + k) % n).find(|i| r.fibers[*i].st == St::Ready) {
            switch(i);
        }
        return;
    }
    if r.left.preempt == 0 || r.hold > 0 {
        return;
    }
    let mut opts = [(0usize, false); MAXT + 1];
    let mut n = 1;
    opts[0] = (r.cur, false);
    for i in 0..r.fibers.len() {
        if i == r.cur {
            continue;
        }
        match r.fibers[i].st {
            St::Ready => {
                opts[n] = (i, false);
                n += 1;
            }
            St::Parked if r.left.spurious > 0 => {
                opts[n] = (i, true);
                n += 1;
            }
            _ => (),
        }
    }
    if n == 1 {
        return;
    }
    r.sp_count += 1;
    let c = choose(n);
    if c == 0 {
        return;
    }
    let r = rt();
    r.left.preempt -= 1;
    let (t, spurious) = opts[c];
    if spurious {
        r.left.spurious -= 1;
        r.fibers[t].st = St::Ready;
        ev(|| format!("spurious wakeup of T{t}"));
    }
    ev(|| format!("-- preempted by T{t}"));
    switch(t);
}

/// Leaves the processor in state `st`; returns when made ready and chosen.
fn block(st: St) {
    let _q = Q::new();
    let r = rt();
    if ::std::thread::panicking() {
        violate("blocked while panicking".into());
    }
    r.steps += 1;
    let c = r.cur;
    r.fibers[c].st = st;
    resched();
}

fn resched() {
    let r = rt();
    let mut opts = [(0usize, false); MAXT + 1];
    let mut n = 0;
    let mut ready = false;
    for i in 0..r.fibers.len() {
        match r.fibers[i].st {
            St::Ready => {
                opts[n] = (i, false);
                n += 1;
                ready = true;
            }
            St::Parked if r.left.spurious > 0 => {
                opts[n] = (i, true);
                n += 1;
            }
            _ => (),
        }
    }
    if !ready {
        let d: Vec<String> =
            r.fibers.iter().enumerate().map(|(i, f)| format!("T{i} {:?}", f.st)).collect();
        violate(format!("deadlock or lost wakeup: nobody can run ({})", d.join(", ")));
    }
    // Ready fibers first, so that choice 0 is never a spurious wakeup.
    opts[..n].sort_by_key(|o| o.1);
    let c = choose(n);
    let r = rt();
    let (t, spurious) = opts[c];
    if spurious {
        r.left.spurious -= 1;
        r.fibers[t].st = St::Ready;
        ev(|| format!("spurious wakeup of T{t}"));
    }
    switch(t);
}

/// Gives every other runnable thread a turn (round robin).
pub fn yield_() {
    if !active() || ::std::thread::panicking() {
        return;
    }
    let _q = Q::new();
    let r = rt();
    r.steps += 1;
    if r.steps > STEP_LIMIT {
        violate("the execution does not terminate".into());
    }
    let n = r.fibers.len();
    for k in 1..n {
        let i = (r.cur + k) % n;
        if r.fibers[i].st == St::Ready {
            switch(i);
            return;
        }
    }
}

fn tick() -> u32 {
    let r = rt();
    let c = r.cur;
    r.fibers[c].cur.vc[c] += 1;
    r.fibers[c].acq.vc[c] = r.fibers[c].cur.vc[c];
    r.fibers[c].cur.vc[c]
}

extern "C" fn entry() {
    unsafe {
        let r = rt();
        let body = r.fibers[r.cur].body.take().unwrap();
        QUIET = 0;
        let res = catch_unwind(AssertUnwindSafe(body));
        QUIET = 1;
        let r = rt();
        if let Err(p) = res {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            ::std::mem::forget(p);
            violate(format!("panic: {m}"));
        }
        tick();
        let c = r.cur;
        r.fibers[c].end = r.fibers[c].cur.clone();
        r.fibers[c].st = St::Done;
        ev(|| "finished".into());
        for i in 0..r.fibers.len() {
            if r.fibers[i].st == St::Join(c) {
                r.fibers[i].st = St::Ready;
            }
        }
        if c == 0 {
            // The main fiber ends the execution.
            let mut dead = 0usize;
            modelstd_switch(&mut dead, r.main);
        }
        resched();
        ::std::process::abort()
    }
}

fn new_fiber(body: Box<dyn FnOnce()>) -> usize {
    let r = rt();
    assert!(r.fibers.len() < MAXT, "too many threads");
    let mut stack = r.pool.pop().unwrap_or_else(|| vec![0u8; STACK]);
    unsafe {
        let top = (stack.as_mut_ptr() as usize + STACK) & !15;
        let sp = (top - 64) as *mut usize;
        // r15 r14 r13 r12 rbx rbp, return address, end of stack
        for i in 0..6 {
            sp.add(i).write(0);
        }
        sp.add(6).write(entry as usize);
        sp.add(7).write(0);
        let ctx = sp as usize;
        let mut f = Fiber {
            ctx,
            stack,
            st: St::Ready,
            cur: Clock::default(),
            acq: Clock::default(),
            rel: Clock::default(),
            token: false,
            token_clock: Clock::default(),
            body: Some(body),
            end: Clock::default(),
        };
        let id = r.fibers.len();
        if id > 0 {
            f.cur = r.fibers[r.cur].cur.clone();
            f.acq = f.cur.clone();
        }
        f.cur.vc[id] = 1;
        r.fibers.push(f);
        id
    }
}

/// Starts a thread.
pub fn spawn(f: impl FnOnce() + 'static) -> usize {
    let body: Box<dyn FnOnce()> = Box::new(f);
    let _q = Q::new();
    tick();
    let id = new_fiber(body);
    tick();
    ev(|| format!("spawns T{id}"));
    id
}
/// Waits for a thread started by `spawn`.
pub fn join(id: usize) {
    let _q = Q::new();
    loop {
        let r = rt();
        if r.fibers[id].st == St::Done {
            let c = r.cur;
            let e = r.fibers[id].end.clone();
            r.fibers[c].cur.join(&e);
            r.fibers[c].acq.join(&e);
            return;
        }
        block(St::Join(id));
    }
}

pub fn now() -> Clock {
    let _q = Q::new();
    tick();
    let c = rt().fibers[rt().cur].cur.clone();
    tick();
    c
}
/// True if the event at which thread `t` recorded `c` with [`now`] happens before this point.
pub fn hb(t: usize, c: &Clock) -> bool {
    let r = rt();
    c.vc[t] <= r.fibers[r.cur].cur.vc[t]
}

// Atomic locations.

/// Resolves the location of an atomic; `init` is its current plain value.
pub fn loc(idc: &::std::cell::Cell<u64>, init: u64) -> usize {
    let r = rt();
    let v = idc.get();
    let (e, i) = (v >> 24, (v & 0xff_ffff) as usize);
    if v != 0 && e == r.epoch {
        if i < r.locs.len() {
            return i;
        }
        violate("atomic operation on invalid memory".into());
    }
    if e > r.epoch {
        violate("atomic operation on invalid memory".into());
    }
    let i = r.locs.len();
    r.locs.push(Loc { hist: vec![Msg { val: init, clk: Clock::default() }], sc: 0 });
    idc.set(r.epoch << 24 | i as u64);
    i
}

use ::std::sync::atomic::Ordering as O;
fn is_acq(o: O) -> bool {
    matches!(o, O::Acquire | O::AcqRel | O::SeqCst)
}
fn is_rel(o: O) -> bool {
    matches!(o, O::Release | O::AcqRel | O::SeqCst)
}

fn read_from(l: usize, i: usize, ord: O) -> u64 {
    let r = rt();
    let c = r.cur;
    let (val, clk) = {
        let m = &r.locs[l].hist[i];
        (m.val, m.clk.clone())
    };
    let f = &mut r.fibers[c];
    f.cur.set_view(l, i as u32);
    f.acq.set_view(l, i as u32);
    f.acq.join(&clk);
    if is_acq(ord) {
        f.cur.join(&clk);
    }
    val
}

/// Candidates a load may read: newest first, limited by the stale budget.
fn pick_read(l: usize, ord: O, ok: impl Fn(u64) -> bool) -> usize {
    let r = rt();
    let f = &r.fibers[r.cur];
    let n = r.locs[l].hist.len();
    let newest = n - 1;
    if r.left.stale == 0 {
        return newest;
    }
    let mut lb = f.cur.view(l);
    if ord == O::SeqCst {
        lb = lb.max(r.locs[l].sc);
    }
    let mut c = vec![newest];
    for i in (lb as usize..newest).rev() {
        if ok(r.locs[l].hist[i].val) {
            c.push(i);
        }
    }
    let k = choose(c.len());
    if k > 0 {
        rt().left.stale -= 1;
    }
    c[k]
}

pub fn load(addr: usize, idc: &::std::cell::Cell<u64>, init: impl Fn() -> u64, ord: O, what: &str) -> u64 {
    sp();
    let _q = Q::new();
    touch(addr, what);
    let l = loc(idc, init());
    tick();
    let i = pick_read(l, ord, |_| true);
    let v = read_from(l, i, ord);
    ev(|| format!("{what} load a{l} {ord:?} = {v:#x}{}", if i + 1 < rt().locs[l].hist.len() { " (stale)" } else { "" }));
    v
}

fn push_store(l: usize, val: u64, ord: O, base: Option<Clock>) {
    let r = rt();
    let c = r.cur;
    let idx = r.locs[l].hist.len() as u32;
    let f = &mut r.fibers[c];
    f.cur.set_view(l, idx);
    f.acq.set_view(l, idx);
    let mut clk = if is_rel(ord) { f.cur.clone() } else { f.rel.clone() };
    clk.set_view(l, idx);
    if let Some(b) = base {
        clk.join(&b);
    }
    r.locs[l].hist.push(Msg { val, clk });
    if ord == O::SeqCst {
        r.locs[l].sc = idx;
    }
    for f in r.fibers.iter_mut() {
        if f.st == St::WaitLoc(l) {
            f.st = St::Ready;
        }
    }
    tick();
}

pub fn store(
    addr: usize,
    idc: &::std::cell::Cell<u64>,
    init: impl Fn() -> u64,
    val: u64,
    ord: O,
    what: &str,
    set: impl Fn(),
) {
    sp();
    {
        let _q = Q::new();
        touch(addr, what);
        let l = loc(idc, init());
        tick();
        push_store(l, val, ord, None);
        set();
        ev(|| format!("{what} store a{l} {ord:?} {val:#x}"));
    }
    // Plain code following the store may be overtaken by other threads.
    sp();
}

/// Read-modify-write; `f` returns the new value, or None for a failed exchange.
pub fn rmw(
    addr: usize,
    idc: &::std::cell::Cell<u64>,
    init: impl Fn() -> u64,
    ord: O,
    fail: O,
    weak: bool,
    what: &str,
    f: impl Fn(u64) -> Option<u64>,
    set: impl Fn(u64),
) -> Result<u64, u64> {
    sp();
    let r = rmw_now(addr, idc, init, ord, fail, weak, false, what, f, set);
    sp();
    r
}
/// The same without scheduling points.
pub fn rmw_now(
    addr: usize,
    idc: &::std::cell::Cell<u64>,
    init: impl Fn() -> u64,
    ord: O,
    fail: O,
    weak: bool,
    strict: bool,
    what: &str,
    f: impl Fn(u64) -> Option<u64>,
    set: impl Fn(u64),
) -> Result<u64, u64> {
    let _q = Q::new();
    touch(addr, what);
    let l = loc(idc, init());
    tick();
    let r = rt();
    let newest = r.locs[l].hist.len() - 1;
    let cur = r.locs[l].hist[newest].val;
    // A failing exchange may fail because it read an older value.
    let i = if strict { newest } else { pick_read(l, fail, |v| f(v).is_none()) };
    if i == newest {
        if let Some(nv) = f(cur) {
            if weak && rt().left.weak > 0 && choose(2) == 1 {
                rt().left.weak -= 1;
                let v = read_from(l, newest, fail);
                ev(|| format!("{what} rmw a{l}: spurious failure"));
                return Err(v);
            }
            let v = read_from(l, newest, ord);
            let base = rt().locs[l].hist[newest].clk.clone();
            push_store(l, nv, ord, Some(base));
            set(nv);
            ev(|| format!("{what} rmw a{l} {ord:?} {v:#x} -> {nv:#x}"));
            return Ok(v);
        }
    }
    let v = read_from(l, i, fail);
    ev(|| format!("{what} rmw a{l} failed, read {v:#x}"));
    Err(v)
}

/// Exclusive access to an atomic (`get_mut`, `into_inner`): must be ordered after every store.
pub fn exclusive(idc: &::std::cell::Cell<u64>, what: &str) {
    if !active() {
        return;
    }
    let _q = Q::new();
    let r = rt();
    let v = idc.get();
    if v != 0 && v >> 24 == r.epoch {
        let l = (v & 0xff_ffff) as usize;
        if l < r.locs.len() {
            let newest = r.locs[l].hist.len() as u32 - 1;
            if r.fibers[r.cur].cur.view(l) < newest {
                violate(format!("data race: {what} not ordered after the last store to the atomic"));
            }
        }
    }
}

pub fn fence(ord: O) {
    if !active() {
        return;
    }
    sp();
    let _q = Q::new();
    tick();
    let r = rt();
    let c = r.cur;
    let f = &mut r.fibers[c];
    if is_acq(ord) {
        let a = f.acq.clone();
        f.cur.join(&a);
    }
    if ord == O::SeqCst {
        let v = r.sc_view.clone();
        f.cur.join_view(&v);
        f.acq.join_view(&v);
        r.sc_view = f.cur.view.clone();
    }
    if is_rel(ord) {
        f.rel = f.cur.clone();
    }
    tick();
    ev(|| format!("fence {ord:?}"));
}

/// Parks until the location changes (used by Once).
pub fn wait_loc(l: usize) {
    block(St::WaitLoc(l));
}

// Abstract synchronisation objects (Arc counts, mutexes).

pub fn sync_obj(idc: &::std::cell::Cell<u64>) -> usize {
    let r = rt();
    let v = idc.get();
    let (e, i) = (v >> 24, (v & 0xff_ffff) as usize);
    if v != 0 && e == r.epoch && i < r.syncs.len() {
        return i;
    }
    if e > r.epoch || (v != 0 && e == r.epoch) {
        violate("synchronisation object in invalid memory".into());
    }
    let i = r.syncs.len();
    r.syncs.push(SyncObj { clk: Clock::default() });
    idc.set(r.epoch << 24 | i as u64);
    i
}
pub fn sync_release(idc: &::std::cell::Cell<u64>) {
    if !active() {
        return;
    }
    let _q = Q::new();
    let i = sync_obj(idc);
    tick();
    let r = rt();
    let c = r.fibers[r.cur].cur.clone();
    r.syncs[i].clk.join(&c);
    tick();
}
pub fn sync_acquire(idc: &::std::cell::Cell<u64>) {
    if !active() {
        return;
    }
    let _q = Q::new();
    let i = sync_obj(idc);
    let r = rt();
    let c = r.cur;
    let k = r.syncs[i].clk.clone();
    r.fibers[c].cur.join(&k);
    r.fibers[c].acq.join(&k);
}
pub fn sync_wait(idc: &::std::cell::Cell<u64>) {
    if !active() {
        panic!("blocking outside an exploration");
    }
    let i = {
        let _q = Q::new();
        sync_obj(idc)
    };
    block(St::WaitSync(i));
}
pub fn sync_wake(idc: &::std::cell::Cell<u64>, all: bool) {
    if !active() {
        return;
    }
    let _q = Q::new();
    let i = sync_obj(idc);
    for f in rt().fibers.iter_mut() {
        if f.st == St::WaitSync(i) {
            f.st = St::Ready;
            if !all {
                return;
            }
        }
    }
}

// Parking.

pub fn park() {
    if !active() {
        return;
    }
    sp();
    let _q = Q::new();
    let r = rt();
    let c = r.cur;
    if !r.fibers[c].token {
        ev(|| "park: blocks".into());
        block(St::Parked);
        ev(|| "park: resumes".into());
    } else {
        ev(|| "park: token available".into());
    }
    let r = rt();
    let f = &mut r.fibers[c];
    if f.token {
        f.token = false;
        let k = f.token_clock.clone();
        f.cur.join(&k);
        f.acq.join(&k);
    }
}
pub fn park_timeout() {
    if !active() {
        return;
    }
    yield_();
    let _q = Q::new();
    let r = rt();
    let c = r.cur;
    let f = &mut r.fibers[c];
    if f.token {
        f.token = false;
        let k = f.token_clock.clone();
        f.cur.join(&k);
        f.acq.join(&k);
    }
}
pub fn unpark(t: usize) {
    if !active() {
        return;
    }
    sp();
    let _q = Q::new();
    tick();
    ev(|| format!("unpark T{t}"));
    let r = rt();
    let k = r.fibers[r.cur].cur.clone();
    let f = &mut r.fibers[t];
    f.token = true;
    f.token_clock.join(&k);
    if f.st == St::Parked {
        f.st = St::Ready;
    }
    tick();
}

// Handles (thread handles): liveness and ordering of accesses against the drop.

pub fn handle_new() -> usize {
    if !active() {
        return usize::MAX;
    }
    let _q = Q::new();
    rt().handles.push(Handle { alive: true, acc: [0; MAXT] });
    rt().handles.len() - 1
}
pub fn handle_use(h: usize, what: &str) {
    if !active() || h == usize::MAX {
        return;
    }
    let _q = Q::new();
    let r = rt();
    if h >= r.handles.len() || !r.handles[h].alive {
        violate(format!("{what}: use of a dead object"));
    }
    let t = tick();
    let c = r.cur;
    r.handles[h].acc[c] = t;
}
pub fn handle_drop(h: usize, what: &str) {
    if !active() || h == usize::MAX {
        return;
    }
    let _q = Q::new();
    let r = rt();
    if h >= r.handles.len() || !r.handles[h].alive {
        violate(format!("{what}: dropped twice"));
    }
    r.handles[h].alive = false;
    let c = r.cur;
    for u in 0..MAXT {
        if u != c && r.handles[h].acc[u] > r.fibers[c].cur.vc[u] {
            violate(format!("data race: {what} dropped without synchronising with its use by thread {u}"));
        }
    }
}

// Memory blocks.

#[repr(C)]
struct Hdr {
    magic: u64,
    epoch: u64,
    index: u64,
    size: u64,
}
const HDR: usize = 32;
const LIVE: u64 = 0x5AFE_B10C_0000_0001;
const DEAD: u64 = 0xDEAD_B10C_0000_0001;
const POISON: u8 = 0xDF;

pub struct ModelAlloc;

fn off(align: usize) -> usize {
    HDR.next_multiple_of(align.max(16))
}

unsafe impl ::std::alloc::GlobalAlloc for ModelAlloc {
    unsafe fn alloc(&self, l: ::std::alloc::Layout) -> *mut u8 {
        use ::std::alloc::GlobalAlloc;
        let o = off(l.align());
        let full = ::std::alloc::Layout::from_size_align_unchecked(o + l.size(), l.align().max(16));
        let b = ::std::alloc::System.alloc(full);
        if b.is_null() {
            return b;
        }
        let p = b.add(o);
        let mut h = Hdr { magic: LIVE, epoch: 0, index: 0, size: l.size() as u64 };
        if active() {
            let _q = Q::new();
            let r = rt();
            h.epoch = r.epoch;
            h.index = r.blocks.len() as u64;
            let t = tick();
            let mut acc = [0; MAXT];
            acc[r.cur] = t;
            r.blocks.push(Block {
                addr: p as usize,
                size: l.size(),
                align: l.align(),
                freed: false,
                acc,
                wr: (r.cur, t),
            });
            ::std::ptr::write_bytes(p, 0xA5, l.size());
        }
        (p.sub(HDR) as *mut Hdr).write(h);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: ::std::alloc::Layout) {
        use ::std::alloc::GlobalAlloc;
        let o = off(l.align());
        let full = ::std::alloc::Layout::from_size_align_unchecked(o + l.size(), l.align().max(16));
        let h = &mut *(p.sub(HDR) as *mut Hdr);
        if h.magic == DEAD && ACTIVE {
            violate("double free".into());
        }
        if h.magic != LIVE && ACTIVE {
            violate("free of an invalid pointer".into());
        }
        if ACTIVE && h.epoch != 0 && h.epoch == rt().epoch {
            let r = rt();
            let quiet = QUIET > 0;
            let _q = Q::new();
            let b = &mut r.blocks[h.index as usize];
            if b.size != l.size() || b.align != l.align() {
                violate("free with a wrong layout".into());
            }
            if !quiet {
                let c = r.cur;
                for u in 0..MAXT {
                    if u != c && b.acc[u] > r.fibers[c].cur.vc[u] {
                        violate(format!(
                            "data race: memory freed without synchronising with its use by thread {u}"
                        ));
                    }
                }
            }
            b.freed = true;
            h.magic = DEAD;
            ::std::ptr::write_bytes(p, POISON, l.size());
            return;
        }
        h.magic = 0;
        ::std::alloc::System.dealloc(p.sub(o), full);
    }
}

fn find(addr: usize) -> Option<usize> {
    rt().blocks.iter().position(|b| addr >= b.addr && addr < b.addr + b.size.max(1))
}

/// Records an access to the block containing `addr`.
pub fn touch(addr: usize, what: &str) {
    if unsafe { !ACTIVE } {
        return;
    }
    let r = rt();
    if let Some(i) = find(addr) {
        if r.blocks[i].freed {
            violate(format!("use after free: {what}"));
        }
        let t = tick();
        let c = r.cur;
        r.blocks[i].acc[c] = t;
    }
}
/// A non-atomic read of the block containing `addr`.
pub fn read(addr: usize, what: &str) {
    if !active() {
        return;
    }
    let _q = Q::new();
    touch(addr, what);
    let r = rt();
    if let Some(i) = find(addr) {
        let (t, k) = r.blocks[i].wr;
        if t != r.cur && k > r.fibers[r.cur].cur.vc[t] {
            violate(format!("data race: {what} reads memory written by thread {t} without synchronisation"));
        }
    }
}
/// A non-atomic write to the block containing `addr`.
pub fn write(addr: usize, what: &str) {
    if !active() {
        return;
    }
    let _q = Q::new();
    read(addr, what);
    let r = rt();
    if let Some(i) = find(addr) {
        let c = r.cur;
        for u in 0..MAXT {
            if u != c && r.blocks[i].acc[u] > r.fibers[c].cur.vc[u] {
                violate(format!("data race: {what} writes memory used by thread {u} without synchronisation"));
            }
        }
        r.blocks[i].wr = (c, tick());
    }
}
/// Panics are violations; this marks an expectation.
pub fn check(ok: bool, msg: impl FnOnce() -> String) {
    if !ok {
        let m = quiet(msg);
        violate(m);
    }
}
pub fn live_blocks() -> usize {
    rt().blocks.iter().filter(|b| !b.freed).count()
}

// Exploration.

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub executions: u64,
    pub steps: u64,
    pub points: u64,
    pub max_depth: usize,
}

fn run_once(prefix: &[u32], bounds: Bounds, trace: bool, body: Box<dyn FnOnce()>, pool: Vec<Vec<u8>>) -> Box<Rt> {
    unsafe {
        EPOCH += 1;
        let mut r = Box::new(Rt {
            epoch: EPOCH,
            fibers: Vec::new(),
            cur: 0,
            main: 0,
            hold: 0,
            prefix: prefix.to_vec(),
            taken: Vec::new(),
            left: bounds,
            steps: 0,
            sp_count: 0,
            run: 0,
            violation: None,
            locs: Vec::new(),
            syncs: Vec::new(),
            sc_view: Vec::new(),
            blocks: Vec::new(),
            handles: Vec::new(),
            trace: trace.then(Vec::new),
            pool,
        });
        RT = &mut *r;
        new_fiber(body);
        ACTIVE = true;
        QUIET = 1;
        let f = r.fibers[0].ctx;
        let m: *mut usize = &mut r.main;
        modelstd_switch(m, f);
        // Monitor code may still run (leak check), then the memory is really released.
        if r.violation.is_none() {
            if let Some(i) = r.fibers.iter().position(|f| f.st != St::Done) {
                r.violation = Some(format!("engine: T{i} not joined"));
            } else if let Some(b) = r.blocks.iter().find(|b| !b.freed) {
                r.violation = Some(format!("memory leak: a block of {} bytes is never freed", b.size));
            }
            if r.violation.is_none() {
                for b in &r.blocks {
                    let s = ::std::slice::from_raw_parts(b.addr as *const u8, b.size);
                    if s.iter().any(|x| *x != POISON) {
                        r.violation = Some("write to freed memory".into());
                    }
                }
            }
        }
        ACTIVE = false;
        QUIET = 0;
        RT = ::std::ptr::null_mut();
        if r.violation.is_none() {
            use ::std::alloc::GlobalAlloc;
            for b in &r.blocks {
                let o = off(b.align);
                let full = ::std::alloc::Layout::from_size_align_unchecked(o + b.size, b.align.max(16));
                ::std::alloc::System.dealloc((b.addr - o) as *mut u8, full);
            }
        }
        r
    }
}

/// Runs `mk()` under every schedule within `bounds`.
/// `each` is called after every execution (outside of it).
pub fn explore(
    bounds: Bounds,
    max_exec: u64,
    mut mk: impl FnMut() -> Box<dyn FnOnce()>,
    mut each: impl FnMut(&[(u32, u32)]),
) -> Result<Report, String> {
    let mut rep = Report::default();
    let mut prefix: Vec<u32> = Vec::new();
    let mut pool: Vec<Vec<u8>> = Vec::new();
    let mut first = true;
    loop {
        let r = run_once(&prefix, bounds, false, mk(), ::std::mem::take(&mut pool));
        rep.executions += 1;
        rep.steps += r.steps;
        rep.points += r.taken.len() as u64;
        rep.max_depth = rep.max_depth.max(r.taken.len());
        if let Some(v) = &r.violation {
            if first && v.starts_with("memory leak") {
                // Lazily initialised statics: confirm.
                first = false;
                ::std::mem::forget(r);
                continue;
            }
            let v = v.clone();
            let p: Vec<u32> = r.taken.iter().map(|t| t.0).collect();
            ::std::mem::forget(r);
            let r = run_once(&p, bounds, true, mk(), Vec::new());
            let t = r.trace.as_ref().unwrap();
            let s = t.join("\n    ");
            let out = format!("{v}\n  schedule {p:?}:\n    {s}");
            ::std::mem::forget(r);
            return Err(out);
        }
        first = false;
        each(&r.taken);
        let mut taken = r.taken.clone();
        let mut r = r;
        pool = ::std::mem::take(&mut r.pool);
        for f in r.fibers.drain(..) {
            pool.push(f.stack);
        }
        loop {
            match taken.pop() {
                None => return Ok(rep),
                Some((c, n)) => {
                    if c + 1 < n {
                        prefix = taken.iter().map(|t| t.0).collect();
                        prefix.push(c + 1);
                        break;
                    }
                }
            }
        }
        if rep.executions >= max_exec {
            return Err(format!("engine: execution limit {max_exec} reached"));
        }
    }
}
