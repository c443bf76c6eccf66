//! C15: the client run loop delivers every message to every live handler.
use super::world::{self, Ev, Ran, Shared};
use crate::engine::*;
use crate::vclock;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io::ErrorKind;
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{Receiver, TryRecvError};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::channel::*;
use vinezombie::client::handlers::{YieldAll, YieldParsed};
use vinezombie::client::queue::QueueEditGuard;
use vinezombie::client::*;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Cmd, Line};

pub const META: Meta = Meta {
    id: "C15",
    rule: "every history of handler additions, message arrivals (each message prescribes what each handler does with it), runs, queued messages and resets up to the bound, on the real client over a scripted connection, with the blocking and the tokio loop, compared with a set model of live handlers; non-trivial: a handler finished while another was live",
    assumptions: &["the order in which handlers see a message is unspecified, so ids and messages queued for one message are compared as sets"],
};

#[derive(Default)]
struct Log {
    seen: Vec<String>,
    dropped: u32,
}
struct H {
    slot: usize,
    owning: bool,
    log: Arc<Mutex<Log>>,
    queued: Arc<AtomicUsize>,
}
impl Drop for H {
    fn drop(&mut self) {
        self.log.lock().unwrap().dropped += 1;
    }
}
fn out_line(slot: usize, n: u32) -> String {
    format!("Q {slot} {n}")
}
fn cmsg(s: &str) -> ClientMsg<'static> {
    let mut w = s.split(' ');
    let mut m = ClientMsg::new_cmd(Cmd::from_bytes(w.next().unwrap().to_string()).unwrap());
    for a in w {
        m.args.edit().add(Line::from_bytes(a.to_string()).unwrap());
    }
    m
}
impl Handler for H {
    type Value = u32;
    fn handle(&mut self, msg: &ServerMsg<'_>, _: &mut ClientState, mut q: QueueEditGuard<'_>, mut ch: SenderRef<'_, u32>) -> ControlFlow<()> {
        self.log.lock().unwrap().seen.push(msg.to_string());
        let a = msg.args.words();
        let acts = a[0].to_string();
        let n: u32 = a[1].to_string().parse().unwrap();
        let act = acts.as_bytes().get(self.slot).copied().unwrap_or(b'k');
        let act = if act == b'?' { b'k' } else { act };
        let (y, qn, fin) = plan(act);
        for i in 0..y {
            let _ = ch.send(n * 10 + i);
        }
        for _ in 0..qn {
            q.push(cmsg(&out_line(self.slot, n)));
            self.queued.fetch_add(1, SeqCst);
        }
        if act == b'o' {
            self.owning = !self.owning;
        }
        if fin {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn wants_owning(&self) -> bool {
        self.owning
    }
}
/// (yields, messages queued, finishes)
fn plan(a: u8) -> (u32, u32, bool) {
    match a {
        b'y' => (1, 0, false),
        b'z' => (2, 0, false),
        b'f' => (0, 0, true),
        b'Y' => (1, 0, true),
        b'q' => (0, 1, false),
        b'g' => (1, 1, false),
        b'x' => (0, 2, true),
        _ => (0, 0, false),
    }
}
impl SelfMadeHandler for H {
    type Receiver<S: ChannelSpec> = S::Queue<u32>;
    fn queue_msgs(&self, _: &ClientState, mut q: QueueEditGuard<'_>) {
        q.push(cmsg(&format!("ADD {}", self.slot)));
        self.queued.fetch_add(1, SeqCst);
    }
    fn make_channel<S: ChannelSpec>(s: &S) -> (Box<dyn Sender<Value = u32> + Send>, S::Queue<u32>) {
        s.new_queue()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Add(bool),
    Feed(String),
    Run,
    Reset,
    Push,
    /// Drop the receiver of the handler in this slot.
    Deaf(usize),
    /// Half a message arrives (always followed by Run and Recon).
    Half,
    /// Reset with a new connection.
    Recon,
    /// Same state, new connection object.
    Wrap,
}
use Op::*;
struct Live {
    slot: usize,
    id: usize,
    log: Arc<Mutex<Log>>,
    recv: Option<Receiver<u32>>,
    want_seen: Vec<String>,
    want_vals: VecDeque<u32>,
}
impl Live {
    fn check(&mut self, gone: bool) -> R {
        let l = self.log.lock().unwrap();
        if l.seen != self.want_seen {
            return Err(format!("handler {} saw {:?}, expected {:?}", self.slot, l.seen, self.want_seen));
        }
        if l.dropped != gone as u32 {
            return Err(format!("handler {} dropped {} times, finished: {gone}", self.slot, l.dropped));
        }
        drop(l);
        if let Some(r) = &self.recv {
            while let Some(v) = self.want_vals.pop_front() {
                match r.try_recv() {
                    Ok(g) if g == v => {}
                    g => return Err(format!("handler {} sent {g:?}, expected {v}", self.slot)),
                }
            }
            let want = if gone { TryRecvError::Disconnected } else { TryRecvError::Empty };
            match r.try_recv() {
                Err(e) if e == want => {}
                g => return Err(format!("handler {}: channel gives {g:?}, expected {want:?}", self.slot)),
            }
        }
        Ok(())
    }
}

pub fn seq(ops: &[Op], tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let r = inner(ops, tokio, st);
    vclock::off();
    r
}
fn inner(ops: &[Op], tokio: bool, st: &mut Stats) -> R {
    let (conn, sh): (_, Shared) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let queued = Arc::new(AtomicUsize::new(0));
    let late = Arc::new(AtomicUsize::new(0));
    {
        let (q, l) = (queued.clone(), late.clone());
        sh.borrow_mut().on_read = Some(Box::new(move |out| {
            let n = out.iter().filter(|b| **b == b'\n').count();
            if n != q.load(SeqCst) {
                l.fetch_add(1, SeqCst);
            }
        }));
    }
    let mut live: Vec<Live> = Vec::new();
    let mut input: VecDeque<(u32, String)> = VecDeque::new();
    let mut pend: Vec<String> = Vec::new();
    let mut written: Vec<String> = Vec::new();
    let (mut serial, mut pushes) = (0u32, 0u32);
    for op in ops {
        st.step();
        match op {
            Add(owning) => {
                let slot = (0..).find(|s| live.iter().all(|l| l.slot != *s)).unwrap();
                let log = Arc::new(Mutex::new(Log::default()));
                let (id, recv) = c.add((), H { slot, owning: *owning, log: log.clone(), queued: queued.clone() }).unwrap();
                if let Some(l) = live.iter().find(|l| l.id == id) {
                    return Err(format!("new handler got id {id}, which handler {} has", l.slot));
                }
                pend.push(format!("ADD {slot}"));
                live.push(Live { slot, id, log, recv: Some(recv), want_seen: vec![], want_vals: VecDeque::new() });
            }
            Feed(a) => {
                serial += 1;
                sh.borrow_mut().feed(format!(":s M {a} {serial}\r\n"));
                input.push_back((serial, a.clone()));
            }
            Push => {
                pushes += 1;
                let l = format!("P {pushes}");
                c.queue_mut().edit().push(cmsg(&l));
                queued.fetch_add(1, SeqCst);
                pend.push(l);
            }
            Deaf(s) => {
                if let Some(l) = live.iter_mut().find(|l| l.slot == *s) {
                    l.recv = None;
                    l.want_vals.clear();
                }
            }
            Half => sh.borrow_mut().feed(":s M "),
            Wrap => c = c.with_conn(world::on(&sh)),
            Reset | Recon => {
                if *op == Recon {
                    drop(c.reset_with_conn(world::on(&sh)));
                    sh.borrow_mut().input.clear();
                    input.clear();
                } else {
                    c.reset();
                }
                queued.fetch_sub(pend.len(), SeqCst);
                pend.clear();
                for mut l in live.drain(..) {
                    l.check(true)?;
                }
            }
            Run => {
                let got = world::run(&mut c, &sh, tokio);
                // Model.
                written.append(&mut pend);
                let mut gone = Vec::new();
                let want = if live.is_empty() {
                    Ran::Ids(vec![], vec![])
                } else {
                    loop {
                        let Some((n, a)) = input.pop_front() else { break Ran::Timeout };
                        let (mut y, mut f, mut o) = (vec![], vec![], vec![]);
                        for l in live.iter_mut() {
                            l.want_seen.push(format!(":s M {a} {n}"));
                            let (vy, vq, vf) = plan(a.as_bytes().get(l.slot).copied().unwrap_or(b'k'));
                            if l.recv.is_some() && vy > 0 {
                                y.push(l.id);
                            }
                            for i in 0..vy {
                                if l.recv.is_some() {
                                    l.want_vals.push_back(n * 10 + i);
                                }
                            }
                            for _ in 0..vq {
                                o.push(out_line(l.slot, n));
                            }
                            if vf {
                                f.push(l.id);
                            }
                        }
                        // Unspecified order between handlers: take the real order, if it is a permutation.
                        let real: Vec<String> = sh.borrow().lines().into_iter().skip(written.len()).take(o.len()).collect();
                        let (mut a1, mut b1) = (real.clone(), o.clone());
                        a1.sort();
                        b1.sort();
                        if a1 != b1 {
                            return Err(format!("after message {n} wrote {real:?}, expected {o:?}"));
                        }
                        written.extend(real);
                        if !f.is_empty() {
                            if live.len() > 1 {
                                st.nontrivial();
                            }
                            let (g, l) = live.drain(..).partition(|l| f.contains(&l.id));
                            live = l;
                            let mut g: Vec<Live> = g;
                            gone.append(&mut g);
                        }
                        if !y.is_empty() || !f.is_empty() {
                            y.sort();
                            f.sort();
                            break Ran::Ids(y, f);
                        }
                    }
                };
                if got != want {
                    return Err(format!("run returned {got:?}, expected {want:?}"));
                }
                for l in gone.iter_mut() {
                    l.check(true)?;
                }
                let n = sh.borrow();
                if n.lines() != written {
                    return Err(format!("wrote {:?}, expected {written:?}", n.lines()));
                }
                if n.flushed != n.out.len() {
                    return Err(format!("flushed {} of {} bytes", n.flushed, n.out.len()));
                }
                st.outcome(&format!("{want:?}"));
            }
        }
        for l in live.iter_mut() {
            l.check(false)?;
        }
        if late.load(SeqCst) != 0 {
            return Err("waited for input before writing queued messages".into());
        }
        if c.needs_run() != (!live.is_empty() || !pend.is_empty()) {
            return Err(format!("needs_run {} with {} handlers and {} messages", c.needs_run(), live.len(), pend.len()));
        }
        st.state(&(live.iter().map(|l| (l.slot, l.id)).collect::<Vec<_>>(), pend.len(), input.len()));
    }
    drop(c);
    for l in live.iter_mut() {
        l.check(true)?;
    }
    Ok(())
}

/// Rate limiting, in milliseconds: a client with `n` queued messages and (optionally) a handler.
fn limited(n: u32, delay: u64, burst: u32, handler: bool, arrivals: &[u64], tokio: bool, st: &mut Stats) -> R {
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::from_millis(delay), burst);
    c.queue_mut().reset();
    let log = Arc::new(Mutex::new(Log::default()));
    let queued = Arc::new(AtomicUsize::new(0));
    let mut want: Vec<String> = Vec::new();
    if handler {
        c.add((), H { slot: 0, owning: false, log: log.clone(), queued }).unwrap();
        want.push("ADD 0".into());
    }
    for i in 0..n {
        c.queue_mut().edit().push(cmsg(&format!("P {i}")));
        want.push(format!("P {i}"));
    }
    let mut last = 0;
    for (i, t) in arrivals.iter().enumerate() {
        let mut nn = sh.borrow_mut();
        nn.input.push_back(Ev::Delay(t - last));
        nn.feed(format!(":s M {} {i}\r\n", if i + 1 == arrivals.len() { "f" } else { "k" }));
        last = *t;
    }
    let r = world::run(&mut c, &sh, tokio);
    if r != (if handler { Ran::Ids(vec![], vec![0]) } else { Ran::Ids(vec![], vec![]) }) {
        return Err(format!("run returned {r:?}"));
    }
    let end = vclock::now_ns() / world::MS;
    // The k-th message may go out at max(0, (k - burst) * delay).
    let due = |k: usize| (k as u64).saturating_sub(burst as u64) * delay;
    let n = sh.borrow();
    let mut got: Vec<(u64, String)> = Vec::new();
    for s in &n.seen {
        if let world::Seen::Wrote(t, b) = s {
            for l in String::from_utf8_lossy(b).split_terminator("\r\n") {
                got.push((*t, l.to_string()));
            }
        }
    }
    let mut exp: Vec<(u64, String)> = Vec::new();
    for (k, w) in want.iter().enumerate() {
        let d = due(k);
        if handler && d > last {
            break;
        }
        exp.push((d, w.clone()));
    }
    if handler {
        // A message due exactly when the last arrival ends the run may go either way.
        while exp.last().is_some_and(|e| e.0 == last) && got.len() < exp.len() {
            exp.pop();
        }
    }
    if got != exp {
        return Err(format!("sent {got:?}, expected {exp:?}"));
    }
    let wend = if handler { last } else { exp.last().map_or(0, |e| e.0) };
    if end != wend {
        return Err(format!("run returned after {end} ms, expected {wend}"));
    }
    if got.iter().any(|g| g.0 > 0) {
        st.nontrivial();
    }
    st.outcome(&got);
    st.steps(got.len() as u64 + 1);
    Ok(())
}

/// Errors and end of stream end the run; timeouts call the timeout function.
fn faults(evs: &[u8], tokio: bool, with_fn: Option<u8>, owning: bool, st: &mut Stats) -> R {
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let log = Arc::new(Mutex::new(Log::default()));
    let queued = Arc::new(AtomicUsize::new(0));
    let calls = Arc::new(AtomicUsize::new(0));
    if let Some(k) = with_fn {
        let calls = calls.clone();
        c.set_timeout_fn(Some(move |l: &mut ClientLogic| {
            let n = calls.fetch_add(1, SeqCst);
            l.queue_mut().edit().push(cmsg(&format!("T {n}")));
            if n as u8 >= k {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        }));
    }
    let (_, _keep) = c.add((), H { slot: 0, owning, log: log.clone(), queued }).unwrap();
    let mut want_out = vec!["ADD 0".to_string()];
    let mut seen = Vec::new();
    let mut want = None;
    let mut timeouts = 0;
    for (i, e) in evs.iter().enumerate() {
        let mut n = sh.borrow_mut();
        let t = match e {
            b'm' => {
                n.feed(format!(":s M k {i}\r\n"));
                0
            }
            b'h' => {
                // A message that arrives in two halves around a time-out.
                n.feed(":s M ");
                n.input.push_back(Ev::Delay(1500));
                n.feed(format!("k {i}\r\n"));
                1
            }
            b'H' => {
                // A message that trickles in over more than the limit, with no gap over it.
                n.feed(":s M ");
                n.input.push_back(Ev::Delay(700));
                n.feed("k ");
                n.input.push_back(Ev::Delay(700));
                n.feed(format!("{i}\r\n"));
                1
            }
            b'd' => {
                n.input.push_back(Ev::Delay(1500));
                n.feed(format!(":s M k {i}\r\n"));
                1
            }
            b'y' => {
                n.feed(format!(":s M y {i}\r\n"));
                0
            }
            b'b' => {
                n.feed("\r\n");
                0
            }
            b'e' => {
                n.input.push_back(Ev::Fail(ErrorKind::ConnectionReset));
                0
            }
            _ => {
                n.input.push_back(Ev::Eof);
                0
            }
        };
        if want.is_some() {
            continue;
        }
        if t > 0 {
            // One time-out per run of silence longer than the limit (the message then arrives in time).
            timeouts += 1;
            match with_fn {
                None => {
                    want = Some(Ran::Timeout);
                    continue;
                }
                Some(k) => {
                    if timeouts - 1 < k as usize {
                        want_out.push(format!("T {}", timeouts - 1));
                    } else {
                        want = Some(Ran::Err(ErrorKind::TimedOut));
                        continue;
                    }
                }
            }
        }
        match e {
            b'm' | b'd' | b'h' | b'H' => seen.push(format!(":s M k {i}")),
            b'y' => {
                seen.push(format!(":s M y {i}"));
                want = Some(Ran::Ids(vec![0], vec![]));
            }
            b'b' => {}
            b'e' => want = Some(Ran::Err(ErrorKind::ConnectionReset)),
            _ => want = Some(Ran::Err(ErrorKind::UnexpectedEof)),
        }
    }
    let Some(want) = want else { return Ok(()) };
    let got = world::run(&mut c, &sh, tokio);
    if got != want {
        return Err(format!("run returned {got:?}, expected {want:?}"));
    }
    if log.lock().unwrap().seen != seen {
        return Err(format!("handler saw {:?}, expected {seen:?}", log.lock().unwrap().seen));
    }
    if calls.load(SeqCst) != if with_fn.is_some() { timeouts } else { 0 } {
        return Err(format!("timeout function called {} times, expected {timeouts}", calls.load(SeqCst)));
    }
    if sh.borrow().lines() != want_out {
        return Err(format!("wrote {:?}, expected {want_out:?}", sh.borrow().lines()));
    }
    // A time-out can be followed by another run, and nothing that arrived is lost.
    if want == Ran::Timeout {
        let i = evs.iter().position(|e| b"dhH".contains(e)).unwrap();
        sh.borrow_mut().feed(":s M f 9\r\n");
        let mut g = Ran::Timeout;
        for _ in 0..9 {
            g = world::run(&mut c, &sh, tokio);
            if g != Ran::Timeout {
                break;
            }
        }
        seen.push(format!(":s M k {i}"));
        let mut end = Ran::Ids(vec![], vec![0]);
        for (j, e) in evs.iter().enumerate().skip(i + 1) {
            match e {
                b'm' | b'd' | b'h' | b'H' => seen.push(format!(":s M k {j}")),
                b'y' => {
                    seen.push(format!(":s M y {j}"));
                    end = Ran::Ids(vec![0], vec![]);
                    break;
                }
                b'b' => {}
                b'e' => {
                    end = Ran::Err(ErrorKind::ConnectionReset);
                    break;
                }
                _ => {
                    end = Ran::Err(ErrorKind::UnexpectedEof);
                    break;
                }
            }
        }
        if end == Ran::Ids(vec![], vec![0]) {
            seen.push(":s M f 9".into());
        }
        if g != end || log.lock().unwrap().seen != seen {
            return Err(format!("after the time-out: {g:?} {:?}, expected {end:?} {seen:?}", log.lock().unwrap().seen));
        }
        st.nontrivial();
    }
    st.outcome(&format!("{want:?}"));
    st.steps(evs.len() as u64);
    Ok(())
}

/// The stock forwarding handlers, with blocking or tokio channels.
fn stock(kinds: &[u8], msgs: &[usize], close_at: Option<usize>, tokio: bool, st: &mut Stats) -> R {
    use vinezombie::names::cmd;
    const M: &[&str] = &[":n!u@h PRIVMSG #c :hi", ":n!u@h NOTICE #c :x y", ":s PING t", ":s 001 n :w", ":n!u@h PRIVMSG #c"];
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    enum Rx {
        All(Receiver<ServerMsg<'static>>),
        Txt(Receiver<String>),
    }
    let mut rx: BTreeMap<usize, (u8, Option<Rx>)> = BTreeMap::new();
    for k in kinds {
        let (id, r) = match k {
            b'a' => {
                let (i, r) = c.add((), YieldAll).unwrap();
                (i, Rx::All(r))
            }
            b'p' => {
                let h = YieldParsed::just_flat_map(cmd::PRIVMSG, |m| Some(format!("p{}", m.value)));
                let (i, r) = c.add((), h).unwrap();
                (i, Rx::Txt(r))
            }
            b'q' => {
                let h = YieldParsed::just_flat_map(cmd::NOTICE, |m| Some(format!("n{}", m.value)))
                    .with_flat_map(cmd::PRIVMSG, |m| vec![format!("p{}", m.value), "2".into()]);
                let (i, r) = c.add((), h).unwrap();
                (i, Rx::Txt(r))
            }
            _ => {
                let h = YieldParsed::<String>::new();
                let (i, r) = c.add((), h).unwrap();
                (i, Rx::Txt(r))
            }
        };
        if rx.insert(id, (*k, Some(r))).is_some() {
            return Err(format!("id {id} given twice"));
        }
    }
    for (t, m) in msgs.iter().enumerate() {
        if close_at == Some(t) {
            if let Some((_, r)) = rx.values_mut().next() {
                *r = None;
            }
        }
        sh.borrow_mut().feed(format!("{}\r\n", M[*m]));
        let got = if rx.is_empty() { Ran::Ids(vec![], vec![]) } else { world::run(&mut c, &sh, tokio) };
        let (mut y, mut f) = (vec![], vec![]);
        for (id, (k, r)) in &rx {
            let vals: Vec<String> = match (k, m) {
                (b'a', _) => vec![ServerMsg::parse(M[*m]).unwrap().to_string()],
                (b'p', 0) => vec!["phi".into()],
                (b'q', 0) => vec!["phi".into(), "2".into()],
                (b'q', 1) => vec!["nx y".into()],
                _ => vec![],
            };
            if vals.is_empty() {
                continue;
            }
            match r {
                None => f.push(*id),
                Some(r) => {
                    y.push(*id);
                    for v in vals {
                        let g = match r {
                            Rx::All(r) => r.try_recv().map(|m| m.to_string()),
                            Rx::Txt(r) => r.try_recv(),
                        };
                        if g != Ok(v.clone()) {
                            return Err(format!("handler {id} ({}) on {:?} gave {g:?}, expected {v:?}", *k as char, M[*m]));
                        }
                    }
                }
            }
        }
        for (id, (_, r)) in &rx {
            let g = match r {
                None => continue,
                Some(Rx::All(r)) => r.try_recv().map(|m| m.to_string()),
                Some(Rx::Txt(r)) => r.try_recv(),
            };
            if g != Err(TryRecvError::Empty) {
                return Err(format!("handler {id} on {:?} gave extra {g:?}", M[*m]));
            }
        }
        let want = if rx.is_empty() {
            Ran::Ids(vec![], vec![])
        } else if y.is_empty() && f.is_empty() {
            Ran::Timeout
        } else {
            st.nontrivial();
            Ran::Ids(y, f.clone())
        };
        if got != want {
            return Err(format!("on {:?} run returned {got:?}, expected {want:?}", M[*m]));
        }
        for i in f {
            rx.remove(&i);
        }
        st.step();
    }
    Ok(())
}

/// Parsing handlers whose functions give `n` values for a message, built in each way.
#[allow(deprecated)]
fn flat(n: usize, how: usize, tokio: bool, st: &mut Stats) -> R {
    use vinezombie::names::cmd;
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let list = move |p: &'static str| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>();
    let one = move |p: &'static str| (n % 2 == 1).then(|| format!("{p}0"));
    let h = match how {
        0 => YieldParsed::just_flat_map(cmd::PRIVMSG, move |_| list("p")),
        1 => YieldParsed::new().with_flat_map(cmd::PRIVMSG, move |_| list("p")),
        2 => YieldParsed::just_flat_map(cmd::NOTICE, move |_| list("n")).with_flat_map(cmd::PRIVMSG, move |_| list("p")),
        3 => YieldParsed::just_flat_map(cmd::PRIVMSG, move |_| list("p")).with_flat_map(cmd::NOTICE, move |_| list("n")).with_flat_map(cmd::QUIT, |_| None),
        // Replacing the function for a kind.
        4 => YieldParsed::just_flat_map(cmd::PRIVMSG, |_| vec!["old".to_string()]).with_flat_map(cmd::PRIVMSG, move |_| list("p")),
        5 => YieldParsed::just_map(cmd::PRIVMSG, move |_| one("p")),
        _ => YieldParsed::just_map(cmd::NOTICE, move |_| one("n")).with_map(cmd::PRIVMSG, move |_| one("p")),
    };
    let (id, rx) = c.add((), h).unwrap();
    for l in [":n!u@h PRIVMSG #c :hi", ":n!u@h NOTICE #c :hi", ":s PING x", ":n!u@h PRIVMSG #c :again", ":s 005 x"] {
        let p = if l.contains("PRIVMSG") {
            "p"
        } else if l.contains("NOTICE") && matches!(how, 2 | 3 | 6) {
            "n"
        } else {
            ""
        };
        let want = if p.is_empty() {
            vec![]
        } else if how < 5 {
            list(p)
        } else {
            one(p).into_iter().collect()
        };
        sh.borrow_mut().feed(format!("{l}\r\n"));
        let got = world::run(&mut c, &sh, tokio);
        if got != if want.is_empty() { Ran::Timeout } else { Ran::Ids(vec![id], vec![]) } {
            return Err(format!("{l}: run returned {got:?}, expected {} values", want.len()));
        }
        let mut vals = Vec::new();
        while let Ok(v) = rx.try_recv() {
            vals.push(v);
        }
        if vals != want {
            return Err(format!("{l} gave {vals:?}, expected {want:?}"));
        }
        if !want.is_empty() {
            st.nontrivial();
        }
        st.step();
    }
    Ok(())
}

/// Polls a run of the client once and drops it, as `select!` does.
fn give_up(c: &mut Client<world::Conn, SyncChannels>) -> bool {
    let r = world::block(async {
        let mut f = Box::pin(c.run_tokio());
        std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx).is_pending())).await
    });
    r == Some(true)
}

/// What is left over from an interrupted run never reaches the next connection;
/// abandoning a run that waits for input loses nothing.
fn leftovers(write: u8, taken: usize, read: u8, how: u8, owning: bool, tokio: bool, st: &mut Stats) -> R {
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    c.set_write_timeout(Some(Duration::from_secs(1)));
    let log: Arc<Mutex<Log>> = Default::default();
    let queued: Arc<AtomicUsize> = Default::default();
    let (_, _keep) = c.add((), H { slot: 0, owning, log: log.clone(), queued: queued.clone() }).unwrap();
    c.queue_mut().edit().push(cmsg("P 1"));
    const ALL: &str = "ADD 0\r\nP 1\r\n";
    {
        let mut n = sh.borrow_mut();
        if taken > 0 {
            n.wplan.push_back(world::Wr::Take(taken));
        }
        match write {
            b'f' => n.wplan.push_back(world::Wr::Fail(ErrorKind::ConnectionReset)),
            b't' | b'g' => n.wplan.push_back(world::Wr::Delay(10_000)),
            _ => (),
        }
        match read {
            b'h' | b'g' => n.feed(":s M y"),
            b'e' => {
                n.feed(":s M y");
                n.input.push_back(Ev::Fail(ErrorKind::ConnectionReset));
            }
            b'E' => {
                n.feed(":s M y");
                n.input.push_back(Ev::Eof);
            }
            _ => (),
        }
    }
    if write == b'g' || (write == b'o' && read == b'g') {
        if !give_up(&mut c) {
            return Err("the run did not wait".into());
        }
    } else {
        let got = world::run(&mut c, &sh, tokio);
        let ok = match (write, read) {
            (b'f', _) => got == Ran::Err(ErrorKind::ConnectionReset),
            (b't', _) => matches!(got, Ran::Err(_)),
            (_, b'e') => got == Ran::Err(ErrorKind::ConnectionReset),
            (_, b'E') => got == Ran::Err(ErrorKind::UnexpectedEof),
            _ => got == Ran::Timeout,
        };
        if !ok {
            return Err(format!("the first run returned {got:?}"));
        }
    }
    let out = String::from_utf8_lossy(&sh.borrow().out).to_string();
    let want = if write == b'o' { ALL } else { &ALL[..taken] };
    if out != want {
        return Err(format!("the first run wrote {out:?}, expected {want:?}"));
    }
    if how == b'n' && write != b'o' {
        // No reset: what was being written is lost, and must not be written again.
        {
            let mut n = sh.borrow_mut();
            n.wplan.clear();
            n.out.clear();
            n.feed(":s M y 5\r\n");
        }
        c.queue_mut().edit().push(cmsg("P 2"));
        let got = world::run(&mut c, &sh, tokio);
        let out = sh.borrow().lines();
        if out != ["P 2"] || got != Ran::Ids(vec![0], vec![]) {
            return Err(format!("after the failed write the next run wrote {out:?} and returned {got:?}"));
        }
        st.nontrivial();
        return Ok(());
    }
    if how == b'n' {
        // No reset: only after an abandoned or timed-out read, which loses nothing.
        sh.borrow_mut().feed(" 5\r\n");
        let got = world::run(&mut c, &sh, tokio);
        let seen = log.lock().unwrap().seen.clone();
        if got != Ran::Ids(vec![0], vec![]) || seen != [":s M y 5"] {
            return Err(format!("the interrupted read went on with {got:?}, handler saw {seen:?}"));
        }
        st.nontrivial();
        return Ok(());
    }
    {
        let mut n = sh.borrow_mut();
        n.input.clear();
        n.wplan.clear();
        n.out.clear();
    }
    if how == b'c' {
        drop(c.reset_with_conn(world::on(&sh)));
    } else {
        c.reset();
    }
    if c.needs_run() {
        return Err("a reset client has something to do".into());
    }
    let log: Arc<Mutex<Log>> = Default::default();
    let (id, _keep) = c.add((), H { slot: 0, owning, log: log.clone(), queued }).unwrap();
    sh.borrow_mut().feed(":s M f 7\r\n");
    let got = world::run(&mut c, &sh, tokio);
    let seen = log.lock().unwrap().seen.clone();
    if got != Ran::Ids(vec![], vec![id]) || seen != [":s M f 7"] {
        return Err(format!("after the reset: {got:?}, handler saw {seen:?}"));
    }
    let out = sh.borrow().lines();
    if out != ["ADD 0"] {
        return Err(format!("after the reset the client wrote {out:?}"));
    }
    if write != b'o' || read != b'n' {
        st.nontrivial();
    }
    st.outcome(&(write, taken, read, how));
    Ok(())
}

fn both(ops: &[Op], st: &mut Stats) -> R {
    seq(ops, false, st).map_err(|e| format!("blocking: {e}"))?;
    seq(ops, true, st).map_err(|e| format!("tokio: {e}"))
}

pub fn run(c: &mut Ctx) {
    let acts = |s: &[&str]| -> Vec<Op> { s.iter().map(|s| Feed(s.to_string())).collect() };
    c.section("histories", "all operation sequences over additions, prescribed messages, runs, pushes, resets");
    let mut al = vec![Run, Add(false), Add(true), Push, Reset];
    al.extend(acts(&["k", "fy", "yf", "qx", "kf", "Yg", "fff"]));
    al.extend([Deaf(0), Half, Recon, Wrap]);
    let d = c.pick(4, 5);
    seqs(al.len(), 1, d, |ix| {
        let mut ops: Vec<Op> = vec![Add(false)];
        for i in ix {
            ops.push(al[*i].clone());
            if al[*i] == Half {
                ops.extend([Run, Recon]);
            }
        }
        ops.push(Run);
        c.case(|| format!("{ops:?}"), |st| both(&ops, st));
    });
    c.section("rounds", "all sequences of (message, run) and additions, deeper");
    let al = ["ky", "fk", "kf", "yY", "kkf", "fkf", "oo", "gqx"];
    let d = c.pick(5, 6);
    seqs(al.len() + 2, 1, d, |ix| {
        let mut ops: Vec<Op> = vec![Add(false), Add(true)];
        for i in ix {
            match i {
                8 => ops.push(Add(false)),
                9 => ops.push(Add(true)),
                i => {
                    ops.push(Feed(al[*i].to_string()));
                    ops.push(Run);
                }
            }
        }
        c.case(|| format!("{ops:?}"), |st| both(&ops, st));
    });
    c.section("crowd", "up to six handlers: every vector of actions for two messages, with an addition in between");
    let n = c.pick(4, 5);
    let k: &[u8] = b"kyfYx";
    for cnt in 1..=n {
        let mut ops: Vec<Op> = (0..cnt).map(|i| Add(i % 2 == 1)).collect();
        let base = ops.len();
        let mut v1 = Vec::new();
        words(k, cnt, cnt, |w| v1.push(String::from_utf8(w.to_vec()).unwrap()));
        let mut v2 = Vec::new();
        words(b"kfY", cnt, cnt, |w| v2.push(String::from_utf8(w.to_vec()).unwrap()));
        for a in &v1 {
            for b in &v2 {
                ops.truncate(base);
                ops.extend([Feed(a.clone()), Run, Add(false), Feed(b.clone()), Run, Add(true), Feed("yyyyyy".into()), Run]);
                c.case(|| format!("{ops:?}"), |st| both(&ops, st));
            }
        }
    }
    c.section("resets", "one to four handlers, every vector of actions for one or two messages, a reset or new connection, then one to four new handlers and every vector of actions for them");
    let pre = c.pick(3, 4);
    for cnt in 1..=pre {
        let mut v1 = Vec::new();
        words(b"kfyY", cnt, cnt, |w| v1.push(String::from_utf8(w.to_vec()).unwrap()));
        let mut v2: Vec<Option<String>> = vec![None];
        words(b"kf", cnt, cnt, |w| v2.push(Some(String::from_utf8(w.to_vec()).unwrap())));
        for a in &v1 {
            for b in &v2 {
                for again in 1..=pre {
                    let mut v3 = Vec::new();
                    words(b"kyf", again, again, |w| v3.push(String::from_utf8(w.to_vec()).unwrap()));
                    for x in &v3 {
                        for how in [Reset, Recon] {
                            let mut ops: Vec<Op> = (0..cnt).map(|i| Add(i % 2 == 1)).collect();
                            ops.extend([Feed(a.clone()), Run]);
                            if let Some(b) = b {
                                ops.extend([Add(false), Feed(b.clone()), Run]);
                            }
                            ops.push(how.clone());
                            ops.extend((0..again).map(|i| Add(i % 2 == 0)));
                            ops.extend([Feed(x.clone()), Run, Add(true), Feed("yyyy".into()), Run]);
                            c.case(|| format!("{ops:?}"), |st| both(&ops, st));
                        }
                    }
                }
            }
        }
    }
    c.section("leftovers", "a first run cut short (write failing, timing out or abandoned after every number of bytes; half a message read, then an error, end, silence or abandonment), then a reset, a new connection or nothing");
    for tokio in [false, true] {
        for owning in [false, true] {
            for how in *b"rcn" {
                for (write, read) in [(b'o', b'n'), (b'o', b'h'), (b'o', b'g'), (b'o', b'e'), (b'o', b'E'), (b'f', b'n'), (b't', b'n'), (b'g', b'n'), (b'f', b'h'), (b't', b'h'), (b'g', b'h')] {
                    if !tokio && (write == b'g' || read == b'g') || how == b'n' && !matches!((write, read), (b'o', b'h' | b'g') | (b'f' | b't', b'n')) {
                        continue;
                    }
                    let most = if write == b'o' { 0 } else { 11 };
                    for taken in 0..=most {
                        c.case(
                            || format!("write {} after {taken}, read {}, {} owning={owning} tokio={tokio}", write as char, read as char, how as char),
                            |st| {
                                vclock::on();
                                leftovers(write, taken, read, how, owning, tokio, st)
                            },
                        );
                    }
                }
            }
        }
    }
    c.section("many", "8 to 33 handlers: every arithmetic pattern of finishing or yielding handlers");
    // Many handlers at once.
    for cnt in [8usize, 20, 33] {
        for step in 1..=6 {
            for ph in 0..step {
                for act in [b'f', b'Y', b'y', b'x'] {
                    let a: String = (0..cnt).map(|i| if i % step == ph { act as char } else { 'k' }).collect();
                    let mut ops: Vec<Op> = (0..cnt).map(|_| Add(false)).collect();
                    ops.extend([Feed(a.clone()), Run, Add(false), Add(true), Add(false), Feed("y".repeat(cnt)), Run, Feed(a), Run]);
                    c.case(|| format!("{ops:?}"), |st| both(&ops, st));
                }
            }
        }
    }
    c.section("rate-limit", "queue sizes x limits x arrivals: exact send times, waiting only as needed, full flush without handlers");
    for n in 0..c.pick(9, 16u32) {
        for (delay, burst) in [(1000, 0), (2000, 4), (500, 1), (0, 0), (3000, 2)] {
            for arr in [&[][..], &[1][..], &[700, 1300][..], &[1000][..], &[2500, 2600, 5001][..], &[20000][..], &[999, 1001, 9000][..]] {
                for tokio in [false, true] {
                    c.case(
                        || format!("{n} messages, delay {delay}, burst {burst}, arrivals {arr:?}, tokio {tokio}"),
                        |st| {
                            vclock::on();
                            limited(n, delay, burst, !arr.is_empty(), arr, tokio, st)
                        },
                    );
                }
            }
        }
    }
    c.section("faults", "all sequences of messages, half messages, silences, blank lines, errors and EOF; with and without a timeout function");
    let d = c.pick(4, 6);
    let al = b"mdhHybeE";
    seqs(al.len(), 1, d, |ix| {
        let e: Vec<u8> = ix.iter().map(|i| al[*i]).collect();
        for tokio in [false, true] {
            for f in [None, Some(0), Some(1), Some(9)] {
                for owning in [false, true] {
                    c.case(
                        || format!("{} tokio={tokio} timeout_fn={f:?} owning={owning}", String::from_utf8_lossy(&e)),
                        |st| {
                            vclock::on();
                            faults(&e, tokio, f, owning, st)
                        },
                    );
                }
            }
        }
    });
    c.section("values", "parsing handlers giving 0 to 130 values for a message, built in 7 ways");
    for n in 0..=130 {
        for how in 0..7 {
            for tokio in [false, true] {
                c.case(|| format!("{n} values, way {how}, tokio {tokio}"), |st| {
                    vclock::on();
                    flat(n, how, tokio, st)
                });
            }
        }
    }
    c.section("stock", "YieldAll and YieldParsed: all handler pairs x message sequences x receiver dropped at each point");
    let ks: Vec<Vec<u8>> = {
        let mut v = Vec::new();
        words(b"apqn", 1, 2, |w| v.push(w.to_vec()));
        v
    };
    let d = c.pick(3, 4);
    for k in &ks {
        seqs(5, 1, d, |ix| {
            let ms = ix.to_vec();
            for close in (0..ms.len()).map(Some).chain([None]) {
                for tokio in [false, true] {
                    c.case(
                        || format!("{} msgs {ms:?} close {close:?} tokio {tokio}", String::from_utf8_lossy(k)),
                        |st| {
                            vclock::on();
                            stock(k, &ms, close, tokio, st)
                        },
                    );
                }
            }
        });
    }
}
