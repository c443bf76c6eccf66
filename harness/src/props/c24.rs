//! C24: configured I/O timeouts are enforced, and only those.
use super::world::{self, Ev, Ran, Seen, Wr, MS};
use crate::engine::*;
use crate::vclock;
use std::io::ErrorKind;
use std::ops::ControlFlow;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::channel::*;
use vinezombie::client::queue::QueueEditGuard;
use vinezombie::client::*;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Cmd, Line};

pub const META: Meta = Meta {
    id: "C24",
    rule: "every schedule of byte arrivals, silences, blocked writes, timeout changes and rate-limited sends up to the bound, on virtual time, with the blocking and the tokio loop: the times and results of all runs compared with a timeline model; non-trivial: a timeout was due",
    assumptions: &[
        "the connection implements its own set_read_timeout/set_write_timeout exactly (the sockets section checks the real socket wrapper's settings)",
        "time does not pass inside computations; arrivals exactly at a limit are not compared",
    ],
};

struct H {
    log: Arc<Mutex<Vec<(u64, String)>>>,
}
impl Handler for H {
    type Value = ();
    fn handle(&mut self, msg: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, _: SenderRef<'_, ()>) -> ControlFlow<()> {
        let t = vclock::now_ns() / MS;
        self.log.lock().unwrap().push((t, msg.to_string()));
        if msg.kind.as_str() == "END" {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn wants_owning(&self) -> bool {
        self.log.lock().unwrap().len() % 2 == 1
    }
}
impl SelfMadeHandler for H {
    type Receiver<S: ChannelSpec> = S::Oneshot<()>;
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<S: ChannelSpec>(s: &S) -> (Box<dyn Sender<Value = ()> + Send>, S::Oneshot<()>) {
        s.new_oneshot()
    }
}
fn cmsg(i: usize) -> ClientMsg<'static> {
    let mut m = ClientMsg::new_cmd(Cmd::from_str("P"));
    m.args.edit().add(Line::from_bytes(i.to_string()).unwrap());
    m
}
/// One piece of the arrival script.
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Wait(u64),
    Msg,
    Half,
}
/// The effective limit.
fn eff(r: Option<u64>) -> Option<u64> {
    r.map(|r| r.max(1000))
}
fn dur(r: Option<u64>) -> Option<Duration> {
    r.map(Duration::from_millis)
}

/// What the timeout function does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum TFn {
    None,
    Continue,
    Set(Option<u64>),
    Break,
}

#[derive(Clone, Debug)]
struct Case {
    script: Vec<A>,
    /// The limit before each run (the last one stays).
    limits: Vec<Option<u64>>,
    /// Before the run with this number, wrap the connection anew.
    wrap: Option<usize>,
    tfn: TFn,
    /// Messages queued, delay, burst.
    queue: (usize, u64, u32),
    tokio: bool,
}
/// None: an arrival coincides with a limit, so the outcome is open.
fn reads(c: &Case, st: &mut Stats) -> R {
    vclock::on();
    let (conn, sh) = world::net();
    let mut cl = Client::new(conn, SyncChannels);
    let (qn, qd, qb) = c.queue;
    cl.queue_mut().set_rate_limit(Duration::from_millis(qd), qb);
    cl.queue_mut().reset();
    for i in 0..qn {
        cl.queue_mut().edit().push(cmsg(i));
    }
    if c.tfn != TFn::None {
        let t = c.tfn;
        cl.set_timeout_fn(Some(move |l: &mut ClientLogic| match t {
            TFn::Set(r) => {
                l.set_read_timeout(dur(r));
                ControlFlow::Continue(())
            }
            TFn::Break => ControlFlow::Break(()),
            _ => ControlFlow::Continue(()),
        }));
    }
    let log = Arc::new(Mutex::new(Vec::new()));
    let (id, _keep) = cl.add((), H { log: log.clone() }).unwrap();
    // Script and message completion times.
    let mut msgs: Vec<(u64, String)> = Vec::new();
    let mut t = 0;
    let mut half = false;
    {
        let mut n = sh.borrow_mut();
        for (i, a) in c.script.iter().enumerate() {
            match a {
                A::Wait(d) => {
                    t += d;
                    n.input.push_back(Ev::Delay(*d));
                }
                A::Msg => {
                    n.feed(format!("{}{i}\r\n", if half { "" } else { ":s M " }));
                    half = false;
                    msgs.push((t, format!(":s M {i}")));
                }
                A::Half => {
                    n.feed(if half { "" } else { ":s " });
                    n.feed(if half { "9" } else { "M " });
                    if half {
                        n.feed("");
                    }
                    half = true;
                }
            }
        }
        // Finish whatever line is open, then end.
        if half {
            n.feed("x\r\n");
        }
        n.feed(":s END\r\n");
    }
    if half {
        msgs.push((t, String::new()));
    }
    msgs.push((t, ":s END".into()));
    // Timeline model.
    let mut now = 0u64;
    let mut k = 0;
    let mut want: Vec<(u64, Ran)> = Vec::new();
    let mut got: Vec<(u64, Ran)> = Vec::new();
    let mut timeouts = 0;
    for run in 0..60 {
        let mut lim = eff(c.limits[run.min(c.limits.len() - 1)]);
        if run < c.limits.len() {
            cl.set_read_timeout(dur(c.limits[run]));
        } else if let TFn::Set(r) = c.tfn {
            // The function's setting stays.
            if timeouts > 0 {
                lim = eff(r);
            }
        }
        if c.wrap == Some(run) {
            cl = {
                // The replacement must continue with what the old connection had buffered: only wrap while idle.
                let n = cl.with_conn(world::on(&sh));
                n
            };
        }
        // Model of one run.
        let mut since = now;
        let w = loop {
            let tm = msgs[k].0.max(now);
            if let Some(l) = lim {
                if tm == since + l && tm != since {
                    return Ok(()); // Coincidence.
                }
                if tm > since + l {
                    now = since + l;
                    since = now;
                    timeouts += 1;
                    st.nontrivial();
                    match c.tfn {
                        TFn::None => break Ran::Timeout,
                        TFn::Break => break Ran::Err(ErrorKind::TimedOut),
                        TFn::Continue => {}
                        TFn::Set(r) => lim = eff(r),
                    }
                    continue;
                }
            }
            now = tm;
            since = now;
            k += 1;
            if k == msgs.len() {
                break Ran::Ids(vec![], vec![id]);
            }
        };
        want.push((now, w.clone()));
        let g = world::run(&mut cl, &sh, c.tokio);
        got.push((vclock::now_ns() / MS, g));
        if got != want {
            return Err(format!("runs ended (ms, result) {got:?}, expected {want:?}"));
        }
        st.step();
        if k == msgs.len() {
            break;
        }
    }
    let log = log.lock().unwrap();
    let ok = log.len() == msgs.len() && log.iter().zip(&msgs).all(|(a, b)| a.0 == b.0 && (b.1.is_empty() || a.1.starts_with(&b.1[..4])));
    if !ok {
        return Err(format!("handler saw {log:?}, expected {msgs:?}"));
    }
    // What the queue sent, and when.
    let due = |k: usize| (k as u64).saturating_sub(qb as u64) * qd;
    let n = sh.borrow();
    let mut sent = Vec::new();
    for s in &n.seen {
        if let Seen::Wrote(t, b) = s {
            for l in String::from_utf8_lossy(b).split_terminator("\r\n") {
                sent.push((*t, l.to_string()));
            }
        }
    }
    let mut exp: Vec<(u64, String)> = (0..qn).map(|i| (due(i), format!("P {i}"))).filter(|e| e.0 <= now).collect();
    while exp.last().is_some_and(|e| e.0 == now) && exp.len() > sent.len() {
        exp.pop();
    }
    if sent != exp {
        return Err(format!("sent {sent:?}, expected {exp:?}"));
    }
    st.outcome(&(format!("{want:?}")));
    Ok(())
}

/// How the write is caused.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Flush,
    RunHandler,
    RunEmpty,
}
/// `limits`: write timeout before each of several flushes; `plans`: the writes' fate.
fn writes(limits: &[Option<u64>], plans: &[Vec<Wr>], via: Via, wrap: u8, flush: u64, tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let (conn, sh) = world::net();
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    cl.set_read_timeout(Some(Duration::from_secs(7)));
    let log = Arc::new(Mutex::new(Vec::new()));
    let mut keep = None;
    if via == Via::RunHandler {
        keep = Some(cl.add((), H { log: log.clone() }).unwrap());
    }
    let mut want_out = String::new();
    let mut now = 0;
    for (i, (l, plan)) in limits.iter().zip(plans).enumerate() {
        st.step();
        cl.set_write_timeout(dur(*l));
        if wrap > 0 && i == 1 {
            if wrap == 1 {
                cl = cl.with_conn(world::on(&sh));
            } else {
                drop(cl.reset_with_conn(world::on(&sh)));
                if via == Via::RunHandler {
                    keep = Some(cl.add((), H { log: log.clone() }).unwrap());
                }
            }
            // A fresh connection has no timeouts of its own.
            sh.borrow_mut().wto = None;
        }
        cl.queue_mut().edit().push(cmsg(i));
        cl.queue_mut().edit().push(cmsg(100 + i));
        let line = format!("P {i}\r\nP {}\r\n", 100 + i);
        sh.borrow_mut().wplan = plan.iter().cloned().collect();
        sh.borrow_mut().fdelay = flush;
        let r = match via {
            Via::Flush => {
                if tokio {
                    match world::block(cl.flush_partial_tokio()) {
                        None => Err(ErrorKind::Other),
                        Some(r) => r.map(|d| assert!(d.is_none())).map_err(|e| e.kind()),
                    }
                } else {
                    cl.flush_partial().map(|d| assert!(d.is_none())).map_err(|e| e.kind())
                }
            }
            _ => match world::run(&mut cl, &sh, tokio) {
                Ran::Err(k) => Err(k),
                Ran::Hung => Err(ErrorKind::Other),
                Ran::Timeout if via == Via::RunHandler => Ok(()),
                Ran::Ids(y, f) if via == Via::RunEmpty && y.is_empty() && f.is_empty() => Ok(()),
                r => return Err(format!("run {i} returned {r:?}")),
            },
        };
        let took = vclock::now_ns() / MS - now;
        // Model: each write waits at most the limit.
        let lim = eff(*l);
        let mut rest = line.len();
        let mut t = 0;
        let mut cur = 0;
        let mut fail = None;
        let mut it = plan.iter();
        while rest > 0 {
            match it.next() {
                None => rest = 0,
                Some(Wr::Take(n)) => {
                    rest -= rest.min(*n);
                    cur = 0;
                }
                Some(Wr::Fail(k)) => {
                    fail = Some(Err(*k));
                    break;
                }
                Some(Wr::Delay(d)) => {
                    if lim == Some(cur + d) {
                        return Ok(()); // Coincidence.
                    }
                    if lim.is_some_and(|l| cur + d > l) {
                        t += lim.unwrap() - cur;
                        fail = Some(Ok(()));
                        break;
                    }
                    cur += d;
                    t += d;
                }
            }
        }
        let written = line.len() - rest;
        if fail.is_none() && flush > 0 {
            if lim.is_some_and(|l| flush > l) {
                t += lim.unwrap();
                fail = Some(Ok(()));
            } else {
                t += flush;
            }
        }
        let written = match fail {
            None => written,
            _ => line.len() - rest,
        };
        want_out.push_str(&line[..written]);
        if String::from_utf8_lossy(&sh.borrow().out) != want_out {
            return Err(format!("flush {i}: wrote {:?}, expected {want_out:?}", String::from_utf8_lossy(&sh.borrow().out)));
        }
        match (&fail, &r) {
            (None, Ok(())) => {}
            (Some(Ok(())), Err(ErrorKind::TimedOut | ErrorKind::WouldBlock)) => st.nontrivial(),
            (Some(Err(a)), Err(b)) if a == b => {}
            _ => return Err(format!("flush {i} gave {r:?}, expected {}", if fail.is_none() { "success" } else { "a timeout" })),
        }
        let wait = if fail.is_none() && via == Via::RunHandler { 7000 } else { 0 };
        if took != t + wait {
            return Err(format!("flush {i} took {took} ms, expected {}", t + wait));
        }
        now += took;
        if fail.is_some() {
            break;
        }
    }
    drop(keep);
    st.outcome(&want_out);
    Ok(())
}

/// The real socket wrapper receives the configured timeouts.
fn sockets(r: Option<u64>, w: Option<u64>, r2: Option<u64>, w2: Option<u64>, order: u8, st: &mut Stats) -> R {
    use std::io::Write;
    let e = |e: std::io::Error| format!("socket: {e}");
    let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(e)?;
    let mut addr = vinezombie::client::conn::ServerAddr::from_host_str("127.0.0.1");
    addr.tls = false;
    addr.port = Some(l.local_addr().map_err(e)?.port());
    let conn = addr.connect_no_tls().map_err(e)?;
    let (mut peer, _) = l.accept().map_err(e)?;
    peer.write_all(b":s M 1\r\n:s END\r\n").map_err(e)?;
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let set = |cl: &mut Client<std::io::BufReader<vinezombie::client::conn::Stream>, SyncChannels>, r, w| {
        if order == 0 {
            cl.set_read_timeout(dur(r));
            cl.set_write_timeout(dur(w));
        } else {
            cl.set_write_timeout(dur(w));
            cl.set_read_timeout(dur(r));
        }
    };
    for (i, (r, w)) in [(r, w), (r2, w2)].into_iter().enumerate() {
        set(&mut cl, r, w);
        let log = Arc::new(Mutex::new(Vec::new()));
        let _keep = cl.add((), H { log: log.clone() }).unwrap();
        cl.queue_mut().edit().push(cmsg(i));
        match cl.run() {
            Ok(Some((&[], &[_]))) => {}
            v => return Err(format!("run {i} gave {v:?}")),
        }
        let conn = cl.take_conn();
        let gr = conn.get_ref().read_timeout().map_err(e)?.map(|d| d.as_millis() as u64);
        let gw = conn.get_ref().write_timeout().map_err(e)?.map(|d| d.as_millis() as u64);
        let okr = match (gr, eff(r)) {
            (None, None) => true,
            (Some(a), Some(b)) => a <= b && a + 5000 > b,
            _ => false,
        };
        if !okr || gw.map(|a| a / 100) != eff(w).map(|a| a / 100) {
            return Err(format!("after run {i}: socket timeouts {gr:?} {gw:?} ms, configured {r:?} {w:?}"));
        }
        let mut got = vec![0u8; format!("P {i}\r\n").len()];
        std::io::Read::read_exact(&mut peer, &mut got).map_err(e)?;
        if got != format!("P {i}\r\n").as_bytes() {
            return Err(format!("peer got {}", show(&got)));
        }
        cl = Client::new(conn, SyncChannels);
        cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
        peer.write_all(b":s M 2\r\n:s END\r\n").map_err(e)?;
        st.step();
    }
    st.nontrivial();
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.section("reads", "all arrival scripts of silences, messages and partial messages x limits x loops");
    let al = [A::Wait(401), A::Wait(937), A::Wait(1103), A::Wait(2519), A::Msg, A::Half];
    let d = c.pick(5, 7);
    seqs(al.len(), 1, d, |ix| {
        let script: Vec<A> = ix.iter().map(|i| al[*i]).collect();
        for lim in [None, Some(1000), Some(200), Some(2000)] {
            for tokio in [false, true] {
                let k = Case { script: script.clone(), limits: vec![lim], wrap: None, tfn: TFn::None, queue: (0, 0, 0), tokio };
                c.case(|| format!("{k:?}"), |st| reads(&k, st));
            }
        }
    });
    c.section("changes", "limits changed and connections wrapped between runs, or changed by the timeout function");
    let al = [A::Wait(401), A::Wait(1103), A::Wait(2519), A::Msg, A::Half];
    let d = c.pick(3, 4);
    let lims = [None, Some(1000), Some(3000)];
    seqs(al.len(), 1, d, |ix| {
        let script: Vec<A> = ix.iter().map(|i| al[*i]).collect();
        seqs(lims.len(), 2, 3, |lx| {
            let limits: Vec<Option<u64>> = lx.iter().map(|i| lims[*i]).collect();
            for wrap in [None, Some(0), Some(1)] {
                // A wrapped connection object must not hold unread bytes of the old one.
                for tokio in [false, true] {
                    let k = Case { script: script.clone(), limits: limits.clone(), wrap, tfn: TFn::None, queue: (0, 0, 0), tokio };
                    if wrap == Some(1) && tokio {
                        continue;
                    }
                    c.case(|| format!("{k:?}"), |st| reads(&k, st));
                }
            }
        });
        for tfn in [TFn::Continue, TFn::Break, TFn::Set(None), TFn::Set(Some(1000)), TFn::Set(Some(2000))] {
            for lim in lims {
                for tokio in [false, true] {
                    let k = Case { script: script.clone(), limits: vec![lim], wrap: None, tfn, queue: (0, 0, 0), tokio };
                    c.case(|| format!("{k:?}"), |st| reads(&k, st));
                }
            }
        }
    });
    c.section("queued", "the same with rate-limited messages being sent meanwhile");
    let al = [A::Wait(401), A::Wait(1103), A::Wait(5519), A::Msg, A::Half];
    let d = c.pick(3, 4);
    seqs(al.len(), 1, d, |ix| {
        let script: Vec<A> = ix.iter().map(|i| al[*i]).collect();
        for lim in [None, Some(1000), Some(3000), Some(60000)] {
            for queue in [(2, 1750, 0), (3, 333, 0), (5, 1300, 1), (2, 9000, 0), (20, 170, 3)] {
                for tokio in [false, true] {
                    for tfn in [TFn::None, TFn::Continue] {
                        let k = Case { script: script.clone(), limits: vec![lim], wrap: None, tfn, queue, tokio };
                        c.case(|| format!("{k:?}"), |st| reads(&k, st));
                    }
                }
            }
        }
    });
    c.section("writes", "all fates of writes (partial acceptance, blocking, failure) x limits, limit changes and causes");
    let wal = [Wr::Take(1), Wr::Take(7), Wr::Delay(401), Wr::Delay(1103), Wr::Delay(2519), Wr::Fail(ErrorKind::BrokenPipe)];
    let d = c.pick(4, 6);
    let wl = [None, Some(1000), Some(2000), Some(5)];
    seqs(wal.len(), 0, d, |ix| {
        let plan: Vec<Wr> = ix.iter().map(|i| wal[*i].clone()).collect();
        for l in wl {
            for via in [Via::Flush, Via::RunHandler, Via::RunEmpty] {
                for tokio in [false, true] {
                    c.case(|| format!("limit {l:?} plan {plan:?} {via:?} tokio {tokio}"), |st| writes(&[l], &[plan.clone()], via, 0, 0, tokio, st));
                    for f in [401, 1103, 2519] {
                        if ix.len() <= 1 {
                            c.case(|| format!("limit {l:?} plan {plan:?} {via:?} flush {f} tokio {tokio}"), |st| writes(&[l], &[plan.clone()], via, 0, f, tokio, st));
                        }
                    }
                }
            }
        }
    });
    let d = c.pick(2, 3);
    let mut plans: Vec<Vec<Wr>> = Vec::new();
    seqs(5, 0, d, |ix| plans.push(ix.iter().map(|i| wal[*i].clone()).collect()));
    for p1 in &plans {
        for p2 in &plans {
            for l1 in wl {
                for l2 in wl {
                    for via in [Via::Flush, Via::RunHandler, Via::RunEmpty] {
                        for wrap in [0, 1, 2] {
                            for tokio in [false, true] {
                                c.case(
                                    || format!("limits {l1:?} {l2:?} plans {p1:?} {p2:?} {via:?} wrap {wrap:?} tokio {tokio}"),
                                    |st| writes(&[l1, l2], &[p1.clone(), p2.clone()], via, wrap, 0, tokio, st),
                                );
                            }
                        }
                    }
                }
            }
        }
    }
    c.section("sockets", "real loopback sockets: the timeouts set on the socket after a run, and after changing them");
    let ls = [None, Some(30_000), Some(90_000)];
    for r in ls {
        for w in ls {
            for r2 in ls {
                for w2 in ls {
                    for order in 0..2 {
                        c.case(|| format!("read {r:?} write {w:?} then {r2:?} {w2:?} order {order}"), |st| sockets(r, w, r2, w2, order, st));
                    }
                }
            }
        }
    }
}
