//! C11: one-shot channels.
use super::explore;
use crate::engine::*;
use crate::tok::{self, Tok};
use modelstd::rt::{self, Bounds, Clock};
use std::ops::ControlFlow;
use vinezombie::client::channel::oneshot::{channel, Receiver, Sender};
use vinezombie::client::channel::{Sender as Chan, Sent};

pub const META: Meta = Meta {
    id: "C11",
    rule: "every combination of a receiver program and 1-3 sender programs (probes, clones, sends, drops, joins) x every schedule within the preemption bound and every stale read within the stale bound, executed on the real channel; non-trivial: more than one schedule",
    assumptions: &[
        "std::sync::Once behaves as documented (modelled as one acquire/release location)",
        "stores enter the modification order in execution order",
    ],
};

#[derive(Default)]
struct Mon {
    ok: Vec<(usize, usize, Clock)>,
    begun: Vec<usize>,
    recv_begun: bool,
    gone: Option<(usize, Clock)>,
    got: Option<usize>,
    received: bool,
    log: Vec<(usize, u8, u64)>,
}
static mut MON: Option<Mon> = None;
#[allow(static_mut_refs)]
fn mon() -> &'static mut Mon {
    unsafe { MON.get_or_insert_with(Mon::default) }
}
fn log(op: u8, r: u64) {
    rt::quiet(|| mon().log.push((rt::me(), op, r)));
}

/// Performs a send and records it.
fn send(s: Sender<Tok>, closed: bool) {
    let t = Tok::new();
    let id = t.id();
    rt::quiet(|| mon().begun.push(id));
    match s.send(t) {
        Ok(()) => {
            rt::note(|| format!("send of value {id}: ok"));
            rt::check(!closed, || "send succeeded after the channel reported closed".into());
            rt::check(mon().ok.is_empty(), || "two sends reported success".into());
            rt::quiet(|| {
                let c = rt::now();
                mon().ok.push((rt::me(), id, c))
            });
            log(b's', 1);
        }
        Err(t) => {
            rt::note(|| format!("send of value {id}: refused"));
            rt::check(t.id() == id, || "a failed send returned another value".into());
            rt::quiet(|| mon().begun.retain(|x| *x != id));
            log(b's', 0);
        }
    }
}
fn is_closed(s: &Sender<Tok>) -> bool {
    let must = matches!(&mon().gone, Some((t, c)) if rt::hb(*t, c)) || mon().ok.iter().any(|(t, _, c)| rt::hb(*t, c));
    let r = s.is_closed();
    rt::note(|| format!("is_closed: {r}"));
    if r {
        rt::check(mon().recv_begun || !mon().begun.is_empty(), || {
            "reports closed although the receiver is alive and nothing was sent".into()
        });
    }
    rt::check(r || !must, || "reports open although the receiver is gone or a value was sent".into());
    log(b'c', r as u64);
    r
}

/// `may_send` of the trait clients use is the same question with the opposite answer.
fn may_send(s: &Option<Sender<Tok>>) -> bool {
    let spent = s.is_none();
    let must = spent || matches!(&mon().gone, Some((t, c)) if rt::hb(*t, c)) || mon().ok.iter().any(|(t, _, c)| rt::hb(*t, c));
    let r = Chan::may_send(s);
    rt::note(|| format!("may_send: {r}"));
    if !r {
        rt::check(spent || mon().recv_begun || !mon().begun.is_empty(), || {
            "says that nothing may be sent although the receiver is alive and nothing was sent".into()
        });
    }
    rt::check(!(r && must), || "says that a send may succeed although the receiver is gone or a value was sent".into());
    log(b'm', r as u64);
    r
}
/// Sends through the trait.
fn trait_send(s: &mut Option<Sender<Tok>>, closed: bool) {
    let spent = s.is_none();
    let t = Tok::new();
    let id = t.id();
    rt::quiet(|| mon().begun.push(id));
    match Chan::send(s, t) {
        ControlFlow::Break(Sent::Ok) => {
            rt::check(!spent, || "a spent sender sent again".into());
            rt::check(!closed, || "send succeeded after the channel reported closed".into());
            rt::check(mon().ok.is_empty(), || "two sends reported success".into());
            rt::quiet(|| {
                let c = rt::now();
                mon().ok.push((rt::me(), id, c))
            });
            log(b'S', 1);
        }
        ControlFlow::Break(Sent::Closed) => {
            rt::quiet(|| mon().begun.retain(|x| *x != id));
            log(b'S', 0);
        }
        ControlFlow::Continue(()) => rt::check(false, || "a one-shot channel claims that more can be sent".into()),
    }
}
fn trait_sender(prog: &[u8], s: Sender<Tok>) {
    let mut s = Some(s);
    let mut closed = false;
    for op in prog {
        match op {
            b'm' => closed |= !may_send(&s),
            b'S' => trait_send(&mut s, closed),
            _ => unreachable!(),
        }
    }
}

fn sender(prog: &[u8], mut s: Sender<Tok>, recv_tid: usize) {
    let mut closed = false;
    if prog.iter().any(|c| b"mS".contains(c)) {
        return trait_sender(prog, s);
    }
    for op in prog {
        match op {
            b'c' => closed |= is_closed(&s),
            b'k' => drop(s.clone()),
            b'h' => {
                let n = s.clone();
                drop(s);
                s = n;
            }
            b'K' => {
                let n = s.clone();
                send(n, closed);
            }
            b'j' => rt::join(recv_tid),
            b's' => return send(s, closed),
            b'd' => return drop(s),
            _ => unreachable!(),
        }
    }
}

fn receiver(prog: &[u8], r: Receiver<Tok>, snd: usize) {
    let mut promised: Option<usize> = None;
    for op in prog {
        let must = mon().ok.iter().any(|(t, _, c)| rt::hb(*t, c));
        match op {
            b'e' => {
                let e = r.is_empty();
                rt::note(|| format!("is_empty: {e}"));
                rt::check(!(e && must), || "is_empty after a completed send".into());
                rt::check(!(e && promised.is_some()), || "the value disappeared".into());
                if !e {
                    rt::check(!mon().begun.is_empty(), || "not empty although nothing was sent".into());
                    promised.get_or_insert(usize::MAX);
                }
                log(b'e', e as u64);
            }
            b'p' => {
                let p = r.peek().map(|t| t.id());
                rt::note(|| format!("peek: {p:?}"));
                rt::check(p.is_some() || (!must && promised.is_none()), || "peek misses a sent value".into());
                if let Some(p) = p {
                    rt::check(promised.is_none_or(|q| q == p || q == usize::MAX), || "peek changed".into());
                    promised = Some(p);
                }
                log(b'p', p.map_or(0, |x| x as u64 + 1));
            }
            b'j' => rt::join(snd),
            b'r' => {
                mon().recv_begun = true;
                let done = !mon().ok.is_empty();
                let v = r.recv_now();
                let got = v.as_ref().map(|t| t.id());
                rt::note(|| format!("recv_now: {got:?}"));
                rt::check(got.is_some() || !done, || "receive after a completed send found nothing".into());
                match (promised, got) {
                    (Some(_), None) => rt::check(false, || "a visible value was not received".into()),
                    (Some(p), Some(g)) => rt::check(p == usize::MAX || p == g, || "received another value than peeked".into()),
                    _ => (),
                }
                mon().got = got;
                mon().received = true;
                log(b'r', got.map_or(0, |x| x as u64 + 1));
                drop(v);
                rt::quiet(|| {
                    let c = rt::now();
                    mon().gone = Some((rt::me(), c))
                });
                return;
            }
            b'd' => {
                mon().recv_begun = true;
                drop(r);
                log(b'd', 0);
                rt::quiet(|| {
                    let c = rt::now();
                    mon().gone = Some((rt::me(), c))
                });
                return;
            }
            _ => unreachable!(),
        }
    }
}

fn scenario(recv: Vec<u8>, snds: Vec<Vec<u8>>) -> Box<dyn FnOnce()> {
    tok::reset();
    unsafe { MON = Some(Mon::default()) };
    Box::new(move || {
        // Threads are numbered in order of creation: 1 = receiver, 2.. = senders.
        let mut ids = rt::quiet(|| Vec::<usize>::with_capacity(8));
        rt::held(|| {
            let (s, r) = channel::<Tok>();
            let rp = recv;
            ids.push(rt::spawn(move || receiver(&rp, r, 2)));
            let n = snds.len();
            let mut s = Some(s);
            for (i, p) in snds.into_iter().enumerate() {
                let mine = if i + 1 == n { s.take().unwrap() } else { s.as_ref().unwrap().clone() };
                ids.push(rt::spawn(move || sender(&p, mine, 1)));
            }
        });
        for i in ids.iter() {
            rt::join(*i);
        }
        rt::quiet(|| drop(ids));
        let m = mon();
        if m.received {
            match (m.got, m.ok.first()) {
                (Some(g), Some(o)) => rt::check(g == o.1, || "received a value whose send did not succeed".into()),
                (Some(_), None) => rt::check(false, || "received a value but no send reported success".into()),
                (None, Some(_)) => rt::check(false, || "a send reported success but its value was not received".into()),
                (None, None) => (),
            }
        }
        tok::check_end();
    })
}

fn outcome() -> u64 {
    let mut l = mon().log.clone();
    l.sort_by_key(|x| x.0);
    h64(&l)
}

fn sw(b: &[&[u8]]) -> Vec<Vec<u8>> {
    b.iter().map(|x| x.to_vec()).collect()
}

pub fn run(cx: &mut Ctx) {
    let recvs: Vec<Vec<u8>> = {
        let mut v = Vec::new();
        let maxp = cx.pick(2, 3);
        words(b"ep", 0, maxp, |w| {
            for e in [b'r', b'd'] {
                let mut p = w.to_vec();
                p.push(e);
                v.push(p);
            }
        });
        v.extend(sw(&[b"jr", b"jd", b"jer", b"jpr", b"pjr", b"ejpr", b"jpd"]));
        v
    };
    let snds: Vec<Vec<u8>> = sw(&[
        b"s", b"d", b"cs", b"cd", b"ks", b"kd", b"hs", b"hd", b"Ks", b"Kd", b"kcs", b"ccs", b"js", b"jcs", b"jd", b"jcd",
        b"Kcs", b"mm", b"mS", b"Sm", b"SS", b"mSm", b"S",
    ]);
    let one = Bounds { preempt: cx.pick(4, 7), stale: 2, spurious: 0, weak: 1 };
    cx.section("one sender", &format!("{} receiver programs x {} sender programs, {one:?}", recvs.len(), snds.len()));
    for r in &recvs {
        for s in &snds {
            if r.contains(&b'j') && s.contains(&b'j') {
                continue;
            }
            let d = || format!("receiver {:?}, sender {:?}", String::from_utf8_lossy(r), String::from_utf8_lossy(s));
            cx.case(d, |st| explore(st, one, || scenario(r.clone(), vec![s.clone()]), outcome));
        }
    }
    let two = Bounds { preempt: cx.pick(2, 4), stale: cx.pick(1, 2), spurious: 0, weak: 1 };
    let rs2: Vec<Vec<u8>> = if cx.thorough() { recvs.clone() } else { sw(&[b"r", b"d", b"er", b"pr", b"pd", b"epr", b"jr", b"jpr", b"jd"]) };
    let sn2: Vec<Vec<u8>> = sw(&[b"s", b"d", b"cs", b"ks", b"hs", b"hd", b"Ks", b"js", b"jcs", b"mS"]);
    cx.section("two senders", &format!("{} receiver programs x all pairs of {} sender programs, {two:?}", rs2.len(), sn2.len()));
    for r in &rs2 {
        for s in &sn2 {
            for t in &sn2 {
                if r.contains(&b'j') && (s.contains(&b'j') || t.contains(&b'j')) {
                    continue;
                }
                let d = || format!("receiver {:?}, senders {:?} {:?}", String::from_utf8_lossy(r), String::from_utf8_lossy(s), String::from_utf8_lossy(t));
                cx.case(d, |st| explore(st, two, || scenario(r.clone(), vec![s.clone(), t.clone()]), outcome));
            }
        }
    }
    let three = Bounds { preempt: cx.pick(1, 2), stale: 1, spurious: 0, weak: 0 };
    let rs3 = sw(&[b"r", b"d", b"pr", b"ed"]);
    let sn3 = sw(&[b"s", b"d", b"cs", b"hs"]);
    cx.section("three senders", &format!("{} receiver programs x all triples of {} sender programs, {three:?}", rs3.len(), sn3.len()));
    for r in &rs3 {
        seqs(sn3.len(), 3, 3, |ix| {
            let p: Vec<Vec<u8>> = ix.iter().map(|i| sn3[*i].clone()).collect();
            let d = || format!("receiver {:?}, senders {:?}", String::from_utf8_lossy(r), p.iter().map(|x| String::from_utf8_lossy(x)).collect::<Vec<_>>());
            cx.case(d, |st| explore(st, three, || scenario(r.clone(), p.clone()), outcome));
        });
    }
    crate::litmus::run(cx);
}
