//! C17: SASL authentication is exchanged correctly and fails safely.
use super::irc;
use super::world::{self, Ran};
use crate::engine::*;
use crate::vclock;
use std::collections::{BTreeSet, VecDeque};
use std::time::Duration;
use vinezombie::client::auth::sasl::{External, Password, PasswordMechanism, Plain};
use vinezombie::client::auth::{self, Clear, HandlerError, Sasl, SaslLogic, SaslQueue, Secret};
use vinezombie::client::channel::*;
use vinezombie::client::*;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::names::cmd::AUTHENTICATE;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C17",
    rule: "every sequence of server messages over the alphabet up to the bound, and every transition out of every reachable state of the reference exchange, for every list of mechanisms; every payload length around the chunk size; lines sent and result compared with the reference after every message; non-trivial: a payload was sent or a mechanism was given up",
    assumptions: &["mechanism names in server lists are upper case, as registered", "a server acknowledges an abort with 906 or a failure numeric"],
};

/// A mechanism of the reference (and how to build the real one).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mech {
    Plain(&'static str, &'static str, &'static str),
    Password(&'static str, &'static str),
    External(&'static str),
    /// Two steps: the empty challenge, then "ch".
    Two(&'static str, &'static str),
}
impl Mech {
    pub fn name(&self) -> &'static str {
        match self {
            Mech::Plain(..) | Mech::Password(..) => "PLAIN",
            Mech::External(_) => "EXTERNAL",
            Mech::Two(..) => "TWO-STEP",
        }
    }
    /// The reply to challenge number `n` with contents `c`; None if the server is broken.
    fn reply(&self, n: usize, c: &[u8]) -> Option<Vec<u8>> {
        match self {
            Mech::Plain(z, u, p) if n == 0 && c.is_empty() => Some(format!("{z}\0{u}\0{p}").into_bytes()),
            Mech::Password(u, p) if n == 0 && c.is_empty() => Some(format!("\0{u}\0{p}").into_bytes()),
            // The mechanism has no state.
            Mech::External(z) if c.is_empty() => Some(z.as_bytes().to_vec()),
            Mech::Two(a, _) if n == 0 && c.is_empty() => Some(a.as_bytes().to_vec()),
            Mech::Two(_, b) if n == 1 && c == b"ch" => Some(b.as_bytes().to_vec()),
            _ => None,
        }
    }
    pub fn real(&self) -> Box<dyn Sasl> {
        match self {
            Mech::Plain(z, u, p) => {
                let mut m = Plain::<Clear>::new(NoNul::from_str(u), Secret::new(NoNul::from_str(p).secret()));
                m.authzid = NoNul::from_str(z);
                Box::new(m)
            }
            Mech::Password(u, p) => Box::new(Password::<Clear>::new(NoNul::from_str(u), Secret::new(NoNul::from_str(p)))),
            Mech::External(z) => Box::new(External(NoNul::from_str(z))),
            Mech::Two(a, b) => Box::new(TwoCfg(a, b)),
        }
    }
}
struct TwoCfg(&'static str, &'static str);
struct TwoLogic(&'static str, &'static str, usize);
impl Sasl for TwoCfg {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        vec![Box::new(TwoLogic(self.0, self.1, 0))]
    }
}
impl SaslLogic for TwoLogic {
    fn name(&self) -> Arg<'static> {
        Arg::from_str("TWO-STEP")
    }
    fn reply(&mut self, i: &[u8], o: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        match (self.2, i) {
            (0, b"") => o.push_slice(self.0.as_bytes()),
            (1, b"ch") => o.push_slice(self.1.as_bytes()),
            _ => return Err("unexpected".into()),
        }
        self.2 += 1;
        Ok(())
    }
}

fn b64(d: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                o.push(T[(v >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    let n = s.len();
    if n % 4 != 0 {
        return None;
    }
    for (i, q) in s.chunks(4).enumerate() {
        let pad = if i * 4 + 4 == n { q.iter().rev().take_while(|c| **c == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for c in &q[..4 - pad] {
            let d = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return None,
            };
            v = v << 6 | d as u32;
        }
        v <<= 6 * pad as u32;
        if pad == 1 && v & 0xff != 0 || pad == 2 && v & 0xffff != 0 {
            return None;
        }
        o.extend_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8][..3 - pad]);
    }
    Some(o)
}
/// The AUTHENTICATE lines that carry a payload.
pub fn payload(d: &[u8]) -> Vec<String> {
    let e = b64(d);
    let mut o: Vec<String> = e.as_bytes().chunks(400).map(|c| format!("AUTHENTICATE {}", std::str::from_utf8(c).unwrap())).collect();
    if e.len() % 400 == 0 {
        o.push("AUTHENTICATE +".into());
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Success,
    Broken(String),
    Unsupported,
    Fail(Vec<u8>),
}
/// The reference exchange.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct X {
    pub cur: Mech,
    pub queue: VecDeque<Mech>,
    pub n: usize,
    pub buf: Vec<u8>,
    pub aborting: bool,
}
impl X {
    pub fn start(mut q: VecDeque<Mech>, out: &mut Vec<String>) -> Option<X> {
        let cur = q.pop_front()?;
        out.push(format!("AUTHENTICATE {}", cur.name()));
        Some(X { cur, queue: q, n: 0, buf: vec![], aborting: false })
    }
    fn switch(&mut self, m: Mech) {
        self.cur = m;
        self.n = 0;
        self.buf.clear();
    }
    pub fn msg(&mut self, m: &irc::MMsg, out: &mut Vec<String>) -> Option<End> {
        let hello = |x: &X, out: &mut Vec<String>| out.push(format!("AUTHENTICATE {}", x.cur.name()));
        match &m.kind[..] {
            b"AUTHENTICATE" => {
                // Whatever arrives before the abort is acknowledged belongs to the mechanism given up.
                if self.aborting {
                    return None;
                }
                let c = m.args.first().cloned().unwrap_or_default();
                if c != b"+" {
                    self.buf.extend_from_slice(&c);
                }
                if c.len() >= 400 {
                    return None;
                }
                let Some(ch) = unb64(&std::mem::take(&mut self.buf)) else {
                    out.push("AUTHENTICATE *".into());
                    return Some(End::Broken("base64".into()));
                };
                if let Some(r) = self.cur.reply(self.n, &ch) {
                    self.n += 1;
                    out.extend(payload(&r));
                    return None;
                }
                out.push("AUTHENTICATE *".into());
                let name = self.cur.name();
                self.queue.retain(|q| q.name() != name);
                let Some(next) = self.queue.pop_front() else { return Some(End::Broken(name.into())) };
                self.switch(next);
                self.aborting = true;
                None
            }
            b"902" | b"904" => {
                self.buf.clear();
                if self.aborting {
                    // The next mechanism was chosen already.
                    self.aborting = false;
                } else {
                    let Some(next) = self.queue.pop_front() else { return Some(End::Fail(m.args.last().cloned().unwrap_or_default())) };
                    self.switch(next);
                }
                hello(self, out);
                None
            }
            b"905" => Some(End::Broken("counting".into())),
            b"906" => {
                self.buf.clear();
                self.aborting = false;
                hello(self, out);
                None
            }
            b"908" => {
                let k = m.args.len().saturating_sub(1);
                let set: BTreeSet<&[u8]> = m.args[..k].iter().flat_map(|a| a.split(|c| *c == b',')).collect();
                let has = |n: &str| set.contains(n.as_bytes());
                self.queue.retain(|q| has(q.name()));
                (self.queue.is_empty() && !has(self.cur.name())).then_some(End::Unsupported)
            }
            b"900" | b"903" | b"907" => Some(End::Success),
            _ => None,
        }
    }
}

pub fn end_of(r: &Result<(), HandlerError>) -> End {
    match r {
        Ok(()) => End::Success,
        Err(HandlerError::Broken(b)) => End::Broken(b.to_string()),
        Err(HandlerError::Unsupported) => End::Unsupported,
        Err(HandlerError::Fail(l)) => End::Fail(l.as_bytes().to_vec()),
    }
}

/// Drives the real handler through a client. `lines` are server lines.
fn exchange(mechs: &[Mech], lines: &[String], tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let reals: Vec<Box<dyn Sasl>> = mechs.iter().map(|m| m.real()).collect();
    let q: SaslQueue = reals.iter().map(|b| &**b).collect();
    if q.len() != mechs.len() || q.is_empty() != mechs.is_empty() {
        return Err("the queue has the wrong length".into());
    }
    let mut want: Vec<String> = Vec::new();
    let mut m = X::start(mechs.iter().cloned().collect(), &mut want);
    let r = c.add(AUTHENTICATE, q);
    let Some(m) = &mut m else {
        return if r.is_err() { Ok(()) } else { Err("a handler for no mechanism".into()) };
    };
    let (id, rx) = r.map_err(|_| "no handler")?;
    let mut rx = Some(rx);
    let mut end = None;
    if world::run(&mut c, &sh, tokio) != Ran::Timeout {
        return Err("the exchange ended at once".into());
    }
    for l in lines {
        st.step();
        sh.borrow_mut().feed(format!("{l}\r\n"));
        let before = want.len();
        let e = m.msg(&irc::m_parse(l.as_bytes(), true).unwrap(), &mut want);
        let r = world::run(&mut c, &sh, tokio);
        let sent = sh.borrow().lines();
        if sent != want {
            let k = sent.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("after {l:.40}: sent {:?}, expected {:?}", &sent[k..], &want[k..]));
        }
        if want.len() != before {
            st.nontrivial();
        }
        st.state(&*m);
        match (&e, &r) {
            (None, Ran::Timeout) => (),
            (Some(e), Ran::Ids(_, f)) if f == &[id] => {
                let g = rx.take().unwrap().0.recv_now();
                if g.as_ref().map(end_of).as_ref() != Some(e) {
                    return Err(format!("after {l:.40}: result {g:?}, expected {e:?}"));
                }
                st.nontrivial();
                end = Some(e.clone());
                break;
            }
            _ => return Err(format!("after {l:.40}: run returned {r:?}, expected {e:?}")),
        }
    }
    st.outcome(&(&want, &end));
    Ok(())
}

pub fn configs() -> Vec<Vec<Mech>> {
    let p = Mech::Plain("", "user", "hunter2");
    let p2 = Mech::Plain("z", "other", "pw");
    let w = Mech::Password("acc", "s3cret");
    let e = Mech::External("");
    let ez = Mech::External("me");
    let t = Mech::Two("first", "second");
    vec![
        vec![],
        vec![p.clone()],
        vec![e.clone()],
        vec![t.clone()],
        vec![e.clone(), p.clone()],
        vec![p.clone(), e.clone()],
        vec![w.clone(), p2.clone()],
        vec![t.clone(), w.clone(), ez.clone()],
        vec![ez, p, t, p2, e],
    ]
}
fn alphabet() -> Vec<String> {
    let mut v: Vec<String> = [
        "AUTHENTICATE +", ":s AUTHENTICATE Y2g=", "AUTHENTICATE eA==", "AUTHENTICATE !!", "AUTHENTICATE Y2g", ":s 900 me me!u@h acc :in", ":s 901 me me!u@h :out", ":s 902 me :locked", ":s 903 me :ok",
        ":s 904 me :failed", ":s 904 :a b", ":s 905 me :long", ":s 906 me :aborted", ":s 907 me :already", ":s 908 me PLAIN,EXTERNAL :are available", ":s 908 me EXTERNAL :are available",
        ":s 908 me TWO-STEP,PLAIN :are available", ":s 908 me :x", "PING :x", ":s 433 * me :used", ":s NOTICE me :AUTHENTICATE +", ":s 909 me :?",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push(format!("AUTHENTICATE {}", "QUFB".repeat(100)));
    v
}

pub fn run(c: &mut Ctx) {
    let cfgs = configs();
    let al = alphabet();
    c.section("sequences", "all sequences of server messages for every list of mechanisms");
    for m in &cfgs {
        let d = if m.len() > 1 { c.pick(3, 4) } else { 3 };
        seqs(al.len(), 0, d, |ix| {
            let ls: Vec<String> = ix.iter().map(|i| al[*i].clone()).collect();
            // Sequences that continue after the end of the exchange are not distinct.
            if let Some(mut x) = X::start(m.iter().cloned().collect(), &mut vec![]) {
                if ls.iter().rev().skip(1).rev().any(|l| x.msg(&irc::m_parse(l.as_bytes(), true).unwrap(), &mut vec![]).is_some()) {
                    return;
                }
            } else if ix.len() > 1 {
                return;
            }
            for tokio in [false, true] {
                if tokio && ix.len() > 2 {
                    continue;
                }
                c.case(|| format!("{m:?} {ls:.30?} tokio {tokio}"), |st| exchange(m, &ls, tokio, st));
            }
        });
    }
    c.section("transitions", "every message in every reachable state of the reference exchange, reached by a shortest history; then every pair of further messages");
    for m in &cfgs {
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let mut front: VecDeque<(X, Vec<String>)> = VecDeque::new();
        if let Some(x) = X::start(m.iter().cloned().collect(), &mut vec![]) {
            seen.insert(h64(&x));
            front.push_back((x, vec![]));
        }
        let deep = c.pick(9, 14);
        while let Some((x, hist)) = front.pop_front() {
            for l in &al {
                let mut y = x.clone();
                let e = y.msg(&irc::m_parse(l.as_bytes(), true).unwrap(), &mut vec![]);
                let mut h = hist.clone();
                h.push(l.clone());
                c.case(|| format!("{m:?} {h:.30?}"), |st| exchange(m, &h, false, st));
                if e.is_none() {
                    for l2 in &al {
                        let mut h2 = h.clone();
                        h2.push(l2.clone());
                        c.case(|| format!("{m:?} {h2:.30?}"), |st| exchange(m, &h2, false, st));
                    }
                    if y.buf.len() <= 800 && y.n <= 3 && h.len() < deep && seen.insert(h64(&y)) {
                        front.push_back((y, h));
                    }
                }
            }
        }
    }
    c.section("payloads", "every payload length around the chunk size for every mechanism");
    let max = c.pick(1300, 2500);
    for n in 0..=max {
        if n > 40 && n % 300 > 12 && n % 300 < 288 && n % 50 != 0 {
            continue;
        }
        let s: &'static str = Box::leak("p\u{e9}x~0".chars().cycle().take(n).filter(|c| c.is_ascii()).collect::<String>().into_boxed_str());
        let s: &'static str = Box::leak(format!("{s}{}", "q".repeat(n - s.len())).into_boxed_str());
        for k in 0..6 {
            let m = match k {
                0 => Mech::Plain("", "u", s),
                1 => Mech::Plain(s, "u", "p"),
                2 => Mech::Plain("", s, ""),
                3 => Mech::Password("user", s),
                4 => Mech::External(s),
                _ => Mech::Two(s, s),
            };
            let mut ls = vec!["AUTHENTICATE +".to_string()];
            if k == 5 {
                ls.push("AUTHENTICATE Y2g=".into());
            }
            ls.push(":s 903 me :ok".into());
            c.case(|| format!("payload {n} kind {k}"), |st| exchange(&[m.clone()], &ls, n % 2 == 1, st));
        }
    }
    c.section("identities", "every triple of identities and password over a set of words with equal and prefix-related members");
    let words: &[&'static str] = if c.thorough() { &["", "a", "A", "b", "aa", "ab", "a b", "\u{e9}", "=", "a\r\n", "user"] } else { &["", "a", "A", "aa", "ab", "\u{e9}", "a\r\n"] };
    for z in words {
        for u in words {
            for p in words {
                for k in 0..3 {
                    let m = match k {
                        0 => Mech::Plain(z, u, p),
                        1 if z.is_empty() => Mech::Password(u, p),
                        2 if z.is_empty() && u.is_empty() => Mech::External(p),
                        _ => continue,
                    };
                    let ls = ["AUTHENTICATE +".to_string(), ":s 903 me :ok".into()];
                    c.case(|| format!("{m:?}"), |st| exchange(&[m.clone()], &ls, false, st));
                }
            }
        }
    }
    c.section("challenges", "every split of long challenges into chunks");
    for n in 0..=c.pick(620usize, 1300) {
        c.case(
            || format!("challenge of {n} bytes"),
            |st| {
                // The challenge of TWO-STEP's second step, or a refused one.
                let ch = if n == 2 { b"ch".to_vec() } else { vec![b'c'; n] };
                let mut ls = vec!["AUTHENTICATE +".to_string()];
                ls.extend(payload(&ch));
                ls.push(":s 906 me :aborted".into());
                ls.push("AUTHENTICATE +".into());
                exchange(&[Mech::Two("a", "b"), Mech::External("z")], &ls, false, st)
            },
        );
    }
    c.section("queue", "queue operations and direct use of the handler");
    let names = ["PLAIN", "EXTERNAL", "TWO-STEP"];
    for m in &cfgs {
        for mask in 0..8u32 {
            let sup = |n: &str| names.iter().position(|x| *x == n).is_some_and(|i| mask >> i & 1 == 1);
            c.case(
                || format!("retain {mask:b} of {m:?}"),
                |st| {
                    st.step();
                    let reals: Vec<Box<dyn Sasl>> = m.iter().map(|m| m.real()).collect();
                    let mk = || reals.iter().map(|b| &**b).collect::<SaslQueue>();
                    let mut q = mk();
                    q.retain(&|n| sup(&n.to_string()));
                    let left: Vec<&Mech> = m.iter().filter(|m| sup(m.name())).collect();
                    if q.len() != left.len() || q.is_empty() != left.is_empty() {
                        return Err(format!("{} mechanisms retained, expected {}", q.len(), left.len()));
                    }
                    for w in &left {
                        if q.pop().map(|l| l.name().to_string()).as_deref() != Some(w.name()) {
                            return Err("order changed".into());
                        }
                    }
                    let mut q = mk();
                    q.clear();
                    if !q.is_empty() || q.len() != 0 || q.pop().is_some() || auth::Handler::from_queue(q).is_some() {
                        return Err("cleared queue not empty".into());
                    }
                    let Some(mut h) = auth::Handler::from_queue(mk()) else {
                        return if m.is_empty() { Ok(()) } else { Err("no handler".into()) };
                    };
                    st.nontrivial();
                    let r = h.retain(&|n| sup(&n.to_string()));
                    let rest: Vec<&Mech> = m[1..].iter().filter(|m| sup(m.name())).collect();
                    let (wr, cur, rest) = if sup(m[0].name()) {
                        (None, Some(&m[0]), &rest[..])
                    } else if rest.is_empty() {
                        (Some(false), None, &rest[..])
                    } else {
                        (Some(true), Some(rest[0]), &rest[1..])
                    };
                    if r != wr {
                        return Err(format!("retain returned {r:?}, expected {wr:?}"));
                    }
                    if let Some(cur) = cur {
                        if h.auth_msg().to_string() != format!("AUTHENTICATE {}", cur.name()) {
                            return Err(format!("message {}, expected {}", h.auth_msg(), cur.name()));
                        }
                        let mut out: Vec<ClientMsg<'static>> = vec![];
                        let mut left: VecDeque<&Mech> = rest.iter().copied().collect();
                        loop {
                            let fail = ServerMsg::parse(":s 904 me :no").unwrap();
                            let r = h.handle(&fail, |m: ClientMsg<'static>| out.push(m));
                            match left.pop_front() {
                                Some(n) if r == Ok(false) && out.last().is_some_and(|m| m.to_string() == format!("AUTHENTICATE {}", n.name())) => (),
                                None if r.is_err() => break,
                                n => return Err(format!("after a failure: {r:?}, sent {:?}, expected {n:?}", out.last())),
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    c.case(
        || "single mechanisms and a denied one".into(),
        |st| {
            st.nontrivial();
            let (conn, _sh) = world::net();
            let mut c = Client::new(conn, SyncChannels);
            let mut p = Password::<Clear>::new(NoNul::from_str("u"), Secret::new(NoNul::from_str("p")));
            if c.add(AUTHENTICATE, &p).is_err() {
                return Err("no handler for a password".into());
            }
            if c.queue_mut().len() != 1 {
                return Err("no message queued".into());
            }
            p.deny_methods.insert(PasswordMechanism::Plain);
            if c.add(AUTHENTICATE, &p).is_ok() || c.queue_mut().len() != 1 || !p.logic().is_empty() {
                return Err("handler for a denied mechanism".into());
            }
            if auth::msg_abort().to_string() != "AUTHENTICATE *" {
                return Err("abort message".into());
            }
            Ok(())
        },
    );
}
