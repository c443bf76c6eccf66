//! C12: parking never loses a wakeup and never wakes early.
use super::explore;
use crate::engine::*;
use crate::tok::{self, Tok};
use modelstd::rt::{self, Bounds};
use modelstd::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::cell::Cell;
use vinezombie::client::channel::{oneshot, parker, ChannelSpec, Sender, Sent, SyncChannels};

pub const META: Meta = Meta {
    id: "C12",
    rule: "every combination of a parking program and 1-3 unparking programs (unpark, send, clone, drop), unrelated wakeups and spurious wakeups x every schedule within the preemption bound and every stale read within the stale bound, executed on the real parker; non-trivial: more than one schedule",
    assumptions: &[
        "std's Arc, Weak, Once and thread parking behave as documented (each operation is one step with the documented synchronisation)",
        "stores enter the modification order in execution order",
        "one thread at a time parks on a Parker",
    ],
};

#[derive(Default)]
struct Mon {
    /// Unparks that have started.
    begun: usize,
    returns: usize,
    /// Handles whose drop has not started.
    handles: usize,
    ok: Vec<usize>,
    got: Option<Option<usize>>,
    log: Vec<(usize, u8, u64)>,
}
static mut MON: Option<Mon> = None;
#[allow(static_mut_refs)]
fn mon() -> &'static mut Mon {
    unsafe { MON.get_or_insert_with(Mon::default) }
}
fn log(op: u8, r: u64) {
    rt::quiet(|| mon().log.push((rt::me(), op, r)));
}

/// A harness event that synchronises.
struct Flag {
    id: Cell<u64>,
    set: Cell<bool>,
}
impl Flag {
    fn set(&self) {
        rt::sync_release(&self.id);
        self.set.set(true);
        rt::sync_wake(&self.id, true);
    }
    fn wait(&self) {
        while !self.set.get() {
            rt::sync_wait(&self.id);
        }
        rt::sync_acquire(&self.id);
    }
}
struct Shared {
    acked: Flag,
    flags: [AtomicBool; 3],
}
fn shared() -> &'static Shared {
    Box::leak(Box::new(Shared {
        acked: Flag { id: Cell::new(0), set: Cell::new(false) },
        flags: [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)],
    }))
}

fn park(p: &parker::Parker) {
    p.park();
    let m = mon();
    m.returns += 1;
    rt::note(|| format!("park returned ({} unparks begun, {} handles)", m.begun, m.handles));
    rt::check(m.handles == 0 || m.begun >= m.returns, || {
        "park returned although nobody unparked it and an unparker is alive".into()
    });
    log(b'P', m.returns as u64);
}

/// A sender whose values are flags to set, together with what sending them returns.
#[derive(Clone)]
struct Snd;
impl Sender for Snd {
    type Value = (u8, &'static AtomicBool);
    fn send(&mut self, v: Self::Value) -> std::ops::ControlFlow<Sent> {
        use std::ops::ControlFlow::*;
        if v.0 == b'x' {
            return Break(Sent::Closed);
        }
        v.1.store(true, Relaxed);
        if v.0 == b'c' {
            Continue(())
        } else {
            Break(Sent::Ok)
        }
    }
    fn may_send(&self) -> bool {
        false
    }
}

/// An unparking thread. 'u' unpark, 'f' set own flag then unpark, 'k' clone and drop the clone,
/// 'c', 'b' and 'x' send own flag, more values being possible or not or the receiver being gone,
/// 'h' clone and drop the original, 'a' wait until the first park returned; drops at the end.
fn unparker(prog: &[u8], mut u: parker::Unparker<Snd>, sh: &'static Shared, me: usize) {
    for op in prog {
        match op {
            b'u' => {
                mon().begun += 1;
                u.unpark();
            }
            b'f' => {
                sh.flags[me].store(true, Relaxed);
                mon().begun += 1;
                u.unpark();
            }
            b'c' | b'b' | b'x' => {
                mon().begun += 1;
                let r = u.send((*op, &sh.flags[me]));
                use std::ops::ControlFlow::*;
                let want = match op {
                    b'c' => Continue(()),
                    b'b' => Break(Sent::Ok),
                    _ => Break(Sent::Closed),
                };
                rt::check(r == want && !u.may_send(), || "the result of the inner sender is not passed on".into());
            }
            b'k' => {
                mon().handles += 1;
                let c = u.clone();
                mon().handles -= 1;
                drop(c);
            }
            b'h' => {
                mon().handles += 1;
                let c = u.clone();
                mon().handles -= 1;
                drop(u);
                u = c;
            }
            b'a' => sh.acked.wait(),
            _ => unreachable!(),
        }
    }
    mon().handles -= 1;
    drop(u);
}

/// The parking thread: 'P' park, 'w' wait (parking) for every flag.
fn parking(prog: &[u8], p: parker::Parker, sh: &'static Shared, nflags: usize) {
    let mut parks = 0;
    for op in prog {
        match op {
            b'P' => {
                park(&p);
                parks += 1;
                if parks == 1 {
                    sh.acked.set();
                }
            }
            b'w' => {
                while !(0..nflags).all(|i| sh.flags[i].load(Relaxed)) {
                    park(&p);
                    // Only the first few rounds can be told apart; the rest must not be endless.
                }
                log(b'w', 1);
            }
            _ => unreachable!(),
        }
    }
    drop(p);
}

/// `noise`: unrelated wakeups of the parking thread. `keep`: an unparker stays alive throughout.
fn scenario(pp: Vec<u8>, us: Vec<Vec<u8>>, noise: usize, keep: bool) -> Box<dyn FnOnce()> {
    tok::reset();
    unsafe { MON = Some(Mon::default()) };
    let sh = shared();
    Box::new(move || {
        let mut ids = rt::quiet(|| Vec::<usize>::with_capacity(8));
        let mut kept = None;
        rt::held(|| {
            let (u, p) = parker::new(Snd);
            mon().handles = us.len() + keep as usize;
            let nf = us.iter().filter(|x| x.iter().any(|o| b"fcb".contains(o))).count();
            ids.push(rt::spawn(move || parking(&pp, p, sh, nf)));
            let mut u = Some(u);
            if keep {
                kept = Some(u.as_ref().unwrap().clone());
            }
            let n = us.len();
            for (i, prog) in us.into_iter().enumerate() {
                let mine = if i + 1 == n { u.take().unwrap() } else { u.as_ref().unwrap().clone() };
                ids.push(rt::spawn(move || unparker(&prog, mine, sh, i)));
            }
            if noise > 0 {
                ids.push(rt::spawn(move || {
                    for _ in 0..noise {
                        rt::unpark(1);
                    }
                }));
            }
        });
        for i in ids.iter() {
            rt::join(*i);
        }
        rt::quiet(|| drop(ids));
        drop(kept);
    })
}

/// A sending thread over a parked one-shot channel: 's' send, 'k'/'h' clones as above.
fn sending<S>(prog: &[u8], mut s: S, clone: fn(&S) -> Option<S>)
where
    S: Sender<Value = Tok>,
{
    for op in prog {
        match op {
            b's' => {
                let t = Tok::new();
                let id = t.id();
                let r = s.send(t);
                rt::note(|| format!("send of value {id}: {r:?}"));
                match r {
                    std::ops::ControlFlow::Break(Sent::Ok) | std::ops::ControlFlow::Continue(()) => {
                        rt::quiet(|| mon().ok.push(id));
                        rt::check(mon().ok.len() == 1, || "two sends succeeded".into());
                        log(b's', 1);
                    }
                    std::ops::ControlFlow::Break(Sent::Closed) => log(b's', 0),
                }
            }
            b'm' => {
                let m = s.may_send();
                log(b'm', m as u64);
            }
            b'k' => {
                mon().handles += 1;
                let c = clone(&s);
                mon().handles -= 1;
                drop(c);
            }
            b'h' => {
                mon().handles += 1;
                let c = clone(&s).unwrap();
                mon().handles -= 1;
                drop(s);
                s = c;
            }
            _ => unreachable!(),
        }
    }
    mon().handles -= 1;
    drop(s);
}

fn receive(r: oneshot::Receiver<Tok>, p: parker::Parker, pre: u8) {
    if pre == b'P' {
        // Parking explicitly first; the receive must then see the value.
        p.park();
        let m = mon();
        rt::check(m.handles == 0 || !r.is_empty(), || {
            "park returned although nothing was sent and a sender is alive".into()
        });
    }
    let v = r.recv(&p);
    let got = v.as_ref().map(|t| t.id());
    rt::note(|| format!("recv: {got:?}"));
    if got.is_none() {
        rt::check(mon().handles == 0, || "receive gave up although a sender is alive".into());
    }
    mon().got = Some(got);
    log(b'R', got.map_or(0, |x| x as u64 + 1));
    drop(v);
    drop(p);
}

/// `keep`: an idle sender over the same channel stays alive throughout.
fn channel_scenario(pre: u8, us: Vec<Vec<u8>>, noise: usize, boxed: bool, keep: bool) -> Box<dyn FnOnce()> {
    tok::reset();
    unsafe { MON = Some(Mon::default()) };
    Box::new(move || {
        let mut ids = rt::quiet(|| Vec::<usize>::with_capacity(8));
        let mut kept = None;
        rt::held(|| {
            mon().handles = us.len() + keep as usize;
            if boxed {
                let (s, (r, p)) = SyncChannels.new_oneshot::<Tok>();
                ids.push(rt::spawn(move || receive(r, p, pre)));
                let prog = us[0].clone();
                ids.push(rt::spawn(move || {
                    struct B(Box<dyn Sender<Value = Tok> + Send>);
                    impl Sender for B {
                        type Value = Tok;
                        fn send(&mut self, v: Tok) -> std::ops::ControlFlow<Sent> {
                            self.0.send(v)
                        }
                        fn may_send(&self) -> bool {
                            self.0.may_send()
                        }
                    }
                    sending(&prog, B(s), |_| None)
                }));
                drop(us);
            } else {
                let (s, r) = oneshot::channel::<Tok>();
                let (u, p) = parker::new(Some(s));
                ids.push(rt::spawn(move || receive(r, p, pre)));
                let n = us.len();
                let mut u = Some(u);
                if keep {
                    kept = Some(u.as_ref().unwrap().clone());
                }
                for (i, prog) in us.into_iter().enumerate() {
                    let mine = if i + 1 == n { u.take().unwrap() } else { u.as_ref().unwrap().clone() };
                    ids.push(rt::spawn(move || sending(&prog, mine, |s| Some(s.clone()))));
                }
            }
            if noise > 0 {
                ids.push(rt::spawn(move || {
                    for _ in 0..noise {
                        rt::unpark(1);
                    }
                }));
            }
        });
        for i in ids.iter() {
            rt::join(*i);
        }
        rt::quiet(|| drop(ids));
        drop(kept);
        let m = mon();
        match (m.got.unwrap(), m.ok.first()) {
            (Some(g), Some(o)) => rt::check(g == *o, || "received another value than the sent one".into()),
            (None, None) => (),
            (g, o) => rt::check(false, || format!("received {g:?} but the successful send is {o:?}")),
        }
        tok::check_end();
    })
}

fn outcome() -> u64 {
    let mut l = mon().log.clone();
    l.sort_by_key(|x| x.0);
    h64(&l)
}
fn sw(b: &[&[u8]]) -> Vec<Vec<u8>> {
    b.iter().map(|x| x.to_vec()).collect()
}
fn sl(p: &[Vec<u8>]) -> Vec<String> {
    p.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect()
}

pub fn run(cx: &mut Ctx) {
    // One unparker.
    let b1 = Bounds { preempt: cx.pick(4, 6), stale: 2, spurious: 2, weak: 1 };
    cx.section("one unparker", &format!("parking and unparking programs, with and without a kept unparker and unrelated wakeups, {b1:?}"));
    let ups = sw(&[b"", b"u", b"uu", b"k", b"h", b"ku", b"hu", b"uk", b"kuk", b"huh"]);
    for up in &ups {
        for (pp, noise, keep) in [(&b"P"[..], 0, false), (b"P", 1, false), (b"PP", 0, false), (b"P", 0, true), (b"P", 1, true)] {
            if keep && !up.contains(&b'u') {
                continue;
            }
            let b = Bounds { preempt: if noise > 0 { b1.preempt - 1 } else { b1.preempt }, ..b1 };
            cx.case(|| format!("parker {:?}, unparker {:?}, noise {noise}, keep {keep}", String::from_utf8_lossy(pp), String::from_utf8_lossy(up)), |st| {
                explore(st, b, || scenario(pp.to_vec(), vec![up.clone()], noise, keep), outcome)
            });
        }
    }
    // A second wakeup ordered after the first park returned.
    for up in sw(&[b"uau", b"ukau", b"uahu", b"uua", b"uauu"]) {
        for (pp, keep) in [(&b"PP"[..], false), (b"PP", true), (b"P", true)] {
            if keep && pp.len() == 2 && up.as_slice() == b"uua" {
                continue;
            }
            cx.case(|| format!("parker {:?}, unparker {:?}, keep {keep}", String::from_utf8_lossy(pp), String::from_utf8_lossy(&up)), |st| {
                explore(st, b1, || scenario(pp.to_vec(), vec![up.clone()], 0, keep), outcome)
            });
        }
    }
    // Two unparkers.
    let b2 = Bounds { preempt: cx.pick(2, 4), stale: 1, spurious: 1, weak: 0 };
    cx.section("two unparkers", &format!("all pairs of unparking programs, {b2:?}"));
    let u2 = sw(&[b"", b"u", b"uu", b"k", b"h", b"hu", b"uk"]);
    for a in &u2 {
        for c in &u2 {
            for (pp, noise, keep) in [(&b"P"[..], 0, false), (b"PP", 0, false), (b"P", 0, true), (b"P", 1, false)] {
                if keep && !a.contains(&b'u') && !c.contains(&b'u') {
                    continue;
                }
                if noise > 0 && !cx.thorough() && (a.len() > 1 || c.len() > 1) {
                    continue;
                }
                let p = vec![a.clone(), c.clone()];
                cx.case(|| format!("parker {:?}, unparkers {:?}, noise {noise}, keep {keep}", String::from_utf8_lossy(pp), sl(&p)), |st| {
                    explore(st, b2, || scenario(pp.to_vec(), p.clone(), noise, keep), outcome)
                });
            }
        }
    }
    let bf = Bounds { preempt: cx.pick(3, 4), stale: 2, spurious: 1, weak: 0 };
    cx.section("waiting for several events", &format!("each unparker publishes a flag with a relaxed store and unparks, or sends through it with every possible result; the parker waits for all flags, {bf:?}"));
    for us in [vec![&b"f"[..]], vec![b"f", b"f"], vec![b"f", b"fu"], vec![b"uf", b"f"], vec![b"f", b"u"], vec![b"f", b"k"], vec![b"f", b"f", b"f"], vec![b"c"], vec![b"b"], vec![b"xc"], vec![b"xb"], vec![b"cc"], vec![b"c", b"b"], vec![b"c", b"c"], vec![b"c", b"f"], vec![b"b", b"x"], vec![b"c", b"x"]] {
        for keep in [true, false] {
            let p = sw(&us);
            if !keep && p.len() > 2 {
                continue;
            }
            let b = if p.len() > 2 { Bounds { preempt: bf.preempt - 2, stale: 1, ..bf } } else { bf };
            if !keep {
                // All unparkers gone: parking no longer blocks, so waiting would spin on stale flags.
                continue;
            }
            cx.case(|| format!("parker waits for flags, unparkers {:?}", sl(&p)), |st| {
                explore(st, b, || scenario(b"w".to_vec(), p.clone(), 0, keep), outcome)
            });
        }
    }
    // Channels.
    let bc = Bounds { preempt: cx.pick(3, 5), stale: 1, spurious: 1, weak: 0 };
    cx.section("one sender over a parked channel", &format!("recv with the parker, explicit park before recv, boxed SyncChannels sender, {bc:?}"));
    for pre in [b'R', b'P'] {
        for s in sw(&[b"s", b"", b"ss", b"ms", b"ks", b"hs", b"k", b"h", b"msm"]) {
            for noise in 0..2 {
                for boxed in [false, true] {
                    if boxed && (s.contains(&b'k') || s.contains(&b'h')) {
                        continue;
                    }
                    let b = Bounds { preempt: bc.preempt - noise as u32, ..bc };
                    cx.case(|| format!("pre {:?}, sender {:?}, noise {noise}, boxed {boxed}", pre as char, String::from_utf8_lossy(&s)), |st| {
                        explore(st, b, || channel_scenario(pre, vec![s.clone()], noise, boxed, false), outcome)
                    });
                    if !boxed && s.contains(&b's') {
                        cx.case(|| format!("pre {:?}, sender {:?}, noise {noise}, another sender alive", pre as char, String::from_utf8_lossy(&s)), |st| {
                            explore(st, b, || channel_scenario(pre, vec![s.clone()], noise, false, true), outcome)
                        });
                    }
                }
            }
        }
    }
    let bs = Bounds { preempt: cx.pick(2, 3), stale: cx.pick(0, 1), spurious: 1, weak: 0 };
    cx.section("two senders over a parked channel", &format!("all pairs of sender programs, {bs:?}"));
    let s2 = sw(&[b"s", b"", b"ms", b"ks", b"hs"]);
    for a in &s2 {
        for c in &s2 {
            for pre in [b'R', b'P'] {
                let p = vec![a.clone(), c.clone()];
                cx.case(|| format!("pre {:?}, senders {:?}", pre as char, sl(&p)), |st| {
                    explore(st, bs, || channel_scenario(pre, p.clone(), 0, false, false), outcome)
                });
            }
            if a.contains(&b's') || c.contains(&b's') {
                let p = vec![a.clone(), c.clone()];
                cx.case(|| format!("senders {:?}, another sender alive", sl(&p)), |st| {
                    explore(st, bs, || channel_scenario(b'R', p.clone(), 0, false, true), outcome)
                });
            }
        }
    }
    crate::litmus::run(cx);
}
