//! C16: connection registration follows the IRCv3 protocol.
use super::c17::{End, Mech, X};
use super::irc::{self, MMsg};
use super::world::{self, Ran};
use crate::engine::*;
use crate::vclock;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::Duration;
use vinezombie::client::auth::{AnySasl, Clear, Sasl, SaslLogic, SaslQueue, Secret};
use vinezombie::client::channel::*;
use vinezombie::client::nick::{from_iter, NickGen};
use vinezombie::client::register::*;
use vinezombie::client::state::{Account, Caps, ClientSource, ISupport, ServerSource, ServerVersion};
use vinezombie::client::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C16",
    rule: "every sequence of server messages over the alphabet up to the bound and every transition out of every reachable state of the reference registration, for every configuration; lines sent, result and resulting client state compared with the reference after every message; non-trivial: registration finished or negotiated a capability",
    assumptions: &[
        "nicknames offered by the configuration are distinct",
        "an account is confirmed by 900 and withdrawn by 901",
        "a server that advertises sasl without mechanisms advertises none",
    ],
};

#[derive(Clone, Debug)]
pub struct Cfg {
    pass: Option<&'static str>,
    nicks: Vec<&'static str>,
    caps: Vec<&'static str>,
    add_common: bool,
    require: bool,
    mechs: Vec<Mech>,
    needs: bool,
    /// Use the stock registration for bots or clients.
    stock: u8,
    user: &'static str,
    real: &'static str,
}
struct Many(Vec<Mech>);
impl Sasl for Many {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        self.0.iter().flat_map(|m| m.real().logic()).collect()
    }
}
fn line(s: &str) -> Line<'static> {
    Line::from_bytes(s.to_string()).unwrap()
}
fn register() -> Register<Cfg> {
    register_as_custom(
        |c: &Cfg| c.pass.map(|p| line(p)),
        |c| User::from_bytes(c.user).unwrap(),
        |c| line(c.real),
        |c| Box::new(from_iter(c.nicks.iter().map(|n| Nick::from_str(n)).collect::<Vec<_>>()).unwrap()) as Box<dyn NickGen>,
        |c| default_caps(c.caps.iter().map(|c| Key::from_str(c)).collect(), c.add_common, c.require),
        |c| {
            let mut q = SaslQueue::new();
            q.push(&Many(c.mechs.clone()));
            (q, c.needs)
        },
    )
}
fn options(c: &Cfg) -> Options<Clear, AnySasl<Clear>> {
    use vinezombie::client::auth::sasl::{External, Password};
    let mut o: Options<Clear, AnySasl<Clear>> = Options::new();
    if let Some(p) = c.pass {
        o.set_pass(line(p)).unwrap();
    }
    o.nicks = c.nicks.iter().map(|n| Nick::from_str(n)).collect();
    o.username = Some(User::from_bytes(c.user).unwrap());
    o.realname = Some(line(c.real));
    for m in &c.mechs {
        match m {
            Mech::External(z) => o.add_sasl(External(NoNul::from_str(z))),
            Mech::Password(u, p) => o.add_sasl(Password::new(NoNul::from_str(u), Secret::new(NoNul::from_str(p)))),
            _ => unreachable!(),
        }
    }
    o.allow_sasl_fail = !c.needs;
    o.caps = c.caps.iter().map(|c| Key::from_str(c)).collect();
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum S {
    Req,
    Ack(BTreeSet<String>, Vec<Mech>),
    Sasl(X),
    CapEnd,
    AwaitWelcome,
    AwaitEnd,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Out {
    Ok,
    NoAccess(Vec<u8>),
    NoNicks,
    NoLogin,
    Redirect(Vec<u8>, u16, Vec<u8>),
    ServerError(Vec<u8>),
    Broken,
    MissingCaps(BTreeSet<String>),
}
type B = Vec<u8>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    s: S,
    needs: bool,
    nick: B,
    left: VecDeque<String>,
    /// Suffixed nicks follow the listed ones.
    endless: bool,
    userhost: Option<(Option<B>, B)>,
    account: Option<B>,
    source: Option<irc::MSource>,
    caps: BTreeMap<String, (B, bool)>,
    version: Option<B>,
    isup: BTreeMap<B, B>,
    ended_cap: bool,
}
const COMMON: [&str; 14] = [
    "account-notify", "account-tag", "chghost", "extended-join", "extended-monitor", "invite-notify", "labeled-response", "message-tags", "msgid", "multi-prefix", "server-time", "setname", "standard-replies",
    "userhost-in-names",
];
fn s(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}
fn list(l: &[u8]) -> Vec<(String, B)> {
    let mut m = BTreeMap::new();
    for t in l.split(|c| *c == b' ').filter(|t| !t.is_empty()) {
        let (k, v) = match t.iter().position(|c| *c == b'=') {
            Some(p) => (&t[..p], &t[p + 1..]),
            None => (t, &b""[..]),
        };
        if irc::is_key(k) {
            m.insert(s(k), v.to_vec());
        }
    }
    m.into_iter().collect()
}
/// The line sent is expected to parse to these words ("NICK *?" accepts any suffixed nick).
type Sent = Vec<String>;
fn send(out: &mut Vec<Sent>, w: &[&str]) {
    out.push(w.iter().map(|w| w.to_string()).collect());
}
fn sends(out: &mut Vec<Sent>, l: Vec<String>) {
    out.extend(l.into_iter().map(|l| l.split(' ').map(|w| w.to_string()).collect()));
}
impl M {
    fn new(c: &Cfg, out: &mut Vec<Sent>) -> M {
        if let Some(p) = c.pass {
            send(out, &["PASS", p]);
        }
        send(out, &["CAP", "LS", "302"]);
        send(out, &["USER", c.user, "8", "*", c.real]);
        let mut left: VecDeque<String> = c.nicks.iter().map(|s| s.to_string()).collect();
        let nick = left.pop_front().unwrap();
        send(out, &["NICK", &nick]);
        M {
            s: S::Req,
            needs: c.needs && !(c.stock > 0 && c.mechs.is_empty()),
            nick: nick.into_bytes(),
            left,
            endless: c.stock > 0,
            userhost: None,
            account: None,
            source: None,
            caps: BTreeMap::new(),
            version: None,
            isup: BTreeMap::new(),
            ended_cap: false,
        }
    }
    fn next_nick(&mut self, out: &mut Vec<Sent>) -> Option<Out> {
        match self.left.pop_front() {
            Some(n) => {
                send(out, &["NICK", &n]);
                self.nick = n.into_bytes();
                None
            }
            None if self.endless => {
                send(out, &["NICK", "*?"]);
                None
            }
            None => Some(Out::NoNicks),
        }
    }
    fn whoami(&mut self, w: &[u8]) -> bool {
        let Some(src) = irc::m_source(w) else { return false };
        self.nick = src.nick;
        self.userhost = src.host.map(|h| (src.user, h));
        true
    }
    fn msg(&mut self, c: &Cfg, l: &str, m: &MMsg, out: &mut Vec<Sent>) -> Option<Out> {
        if self.source.is_none() {
            self.source = m.source.clone();
        }
        if m.kind == b"PING" {
            match m.args.last() {
                Some(a) => send(out, &["PONG", &s(a)]),
                None => send(out, &["PONG"]),
            }
            return None;
        }
        if let S::Sasl(x) = &mut self.s {
            let mut o = vec![];
            let e = x.msg(m, &mut o);
            sends(out, o);
            match e {
                None => (),
                Some(End::Success) | Some(_) => self.s = S::CapEnd,
            }
        }
        let end = self.s == S::AwaitEnd;
        let done = match &m.kind[..] {
            b"001" | b"002" | b"003" | b"004" if self.needs && self.account.is_none() => Some(Out::NoLogin),
            b"001" => {
                if let Some(n) = m.args.first().filter(|n| *n != b"*" && irc::is_nick(n)) {
                    self.nick = n.clone();
                }
                if m.source.is_some() {
                    self.source = m.source.clone();
                }
                self.s = S::AwaitEnd;
                None
            }
            b"004" if end => {
                if let Some(v) = m.args.get(2) {
                    self.version = Some(v.clone());
                }
                None
            }
            b"004" => Some(Out::Broken),
            b"005" if end => {
                for t in m.args.iter().skip(1).filter(|t| !t.contains(&b' ')) {
                    for (k, v) in list(t) {
                        self.isup.insert(k.into_bytes(), v);
                    }
                }
                None
            }
            b"005" => match m.args.last() {
                None => Some(Out::Broken),
                Some(a) => match s(a).strip_prefix("Try server ").and_then(|a| a.split_once(", port ")).and_then(|(h, p)| Some((h.to_string(), p.parse::<u16>().ok()?))) {
                    Some((h, p)) => Some(Out::Redirect(h.into_bytes(), p, a.clone())),
                    None => Some(Out::ServerError(l.into())),
                },
            },
            b"010" => match &m.args[..] {
                [_, h, p, i] => match s(p).parse() {
                    Ok(p) => Some(Out::Redirect(h.clone(), p, i.clone())),
                    Err(_) => Some(Out::Broken),
                },
                _ => Some(Out::ServerError(l.into())),
            },
            b"376" | b"422" => Some(if end { Out::Ok } else { Out::Broken }),
            b"432" | b"433" | b"436" => self.next_nick(out),
            b"464" | b"465" => Some(Out::NoAccess(m.args.last().cloned().unwrap_or_default())),
            b"900" => {
                if let [.., who, acc, _] = &m.args[..] {
                    self.account = Some(acc.clone());
                    (!self.whoami(who)).then_some(Out::Broken)
                } else {
                    None
                }
            }
            b"901" => {
                self.account = None;
                if let [.., who, _] = &m.args[..] {
                    (!self.whoami(who)).then_some(Out::Broken)
                } else {
                    None
                }
            }
            b"902" | b"904" | b"905" | b"906" | b"907" | b"908" => None,
            b"CAP" => self.cap(c, m, out),
            b"ERROR" | b"FAIL" => Some(Out::ServerError(l.into())),
            k if k[0].is_ascii_digit() && (b"400"[..] <= *k && *k < b"569"[..]) => Some(Out::ServerError(l.into())),
            _ => None,
        };
        if done.is_some() {
            return done;
        }
        if self.s == S::CapEnd {
            if self.needs && self.account.is_none() {
                return Some(Out::NoLogin);
            }
            assert!(!self.ended_cap);
            self.ended_cap = true;
            send(out, &["CAP", "END"]);
            self.s = S::AwaitWelcome;
        }
        None
    }
    fn cap(&mut self, c: &Cfg, m: &MMsg, out: &mut Vec<Sent>) -> Option<Out> {
        let (sub, more, caps) = match &m.args[..] {
            [_, a, b] => (s(a), false, list(b)),
            [_, a, x, b] if x == b"*" => (s(a), true, list(b)),
            _ => return Some(Out::Broken),
        };
        match (&sub[..], more) {
            ("LS", _) | ("NEW", _) => {
                for (k, v) in caps {
                    self.caps.entry(k).or_default().0 = v;
                }
                if sub == "NEW" || more || self.s != S::Req {
                    return None;
                }
                let offered: BTreeSet<String> = match self.caps.get("sasl") {
                    Some((v, _)) => s(v).to_ascii_uppercase().split(',').map(|x| x.to_string()).collect(),
                    None => BTreeSet::new(),
                };
                let mechs: Vec<Mech> = c.mechs.iter().filter(|m| offered.contains(m.name())).cloned().collect();
                let avail: BTreeSet<String> = self.caps.keys().cloned().collect();
                let mut want: BTreeSet<String> = c.caps.iter().map(|s| s.to_string()).collect();
                if !c.require {
                    if c.add_common {
                        want.extend(COMMON.iter().map(|s| s.to_string()));
                    }
                    want = want.intersection(&avail).cloned().collect();
                } else if c.add_common {
                    want.extend(COMMON.iter().map(|s| s.to_string()).filter(|c| avail.contains(c)));
                }
                if !mechs.is_empty() {
                    want.insert("sasl".into());
                } else if self.needs {
                    return Some(Out::NoLogin);
                }
                let missing: BTreeSet<String> = want.difference(&avail).cloned().collect();
                if !missing.is_empty() {
                    return Some(Out::MissingCaps(missing));
                }
                want.remove("sts");
                if want.is_empty() {
                    self.s = S::CapEnd;
                } else {
                    send(out, &["CAP", "REQ", &want.iter().cloned().collect::<Vec<_>>().join(" ")]);
                    self.s = S::Ack(want, mechs);
                }
                None
            }
            ("ACK", _) => {
                for (k, v) in &caps {
                    self.caps.entry(k.clone()).or_insert((v.clone(), false)).1 = true;
                }
                if let S::Ack(p, mechs) = &mut self.s {
                    for (k, _) in &caps {
                        p.remove(k);
                    }
                    if p.is_empty() {
                        let mut o = vec![];
                        self.s = match X::start(std::mem::take(mechs).into(), &mut o) {
                            Some(x) => S::Sasl(x),
                            None => S::CapEnd,
                        };
                        sends(out, o);
                    }
                }
                None
            }
            ("NAK" | "DEL", _) => {
                if sub == "DEL" {
                    for (k, _) in &caps {
                        self.caps.remove(k);
                    }
                }
                if let S::Ack(p, _) = &self.s {
                    let miss: BTreeSet<String> = caps.iter().map(|c| c.0.clone()).filter(|k| p.contains(k)).collect();
                    if !miss.is_empty() {
                        return Some(Out::MissingCaps(miss));
                    }
                }
                None
            }
            _ => Some(Out::Broken),
        }
    }
}

fn out_of(r: &Result<(), HandlerError>) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(HandlerError::NoAccess(l)) => Out::NoAccess(l.as_bytes().to_vec()),
        Err(HandlerError::NoNicks) => Out::NoNicks,
        Err(HandlerError::NoLogin) => Out::NoLogin,
        Err(HandlerError::Redirect(h, p, i)) => Out::Redirect(h.as_bytes().to_vec(), *p, i.as_bytes().to_vec()),
        Err(HandlerError::ServerError(m)) => Out::ServerError(irc::m_write(&irc::v_server(m))),
        Err(HandlerError::Broken(_)) => Out::Broken,
        Err(HandlerError::MissingCaps(c)) => Out::MissingCaps(c.iter().map(|c| c.to_string()).collect()),
    }
}

/// Checks the lines sent since `from`; returns the words of each.
fn check_sent(got: &[String], want: &[Sent], m: &mut M, seen_nicks: &mut BTreeSet<String>) -> R {
    // A request may be spread over several lines, in any order.
    let mut lines: Vec<(String, Sent, bool)> = Vec::new();
    for g in got {
        let p = irc::m_parse(g.as_bytes(), false).ok_or_else(|| format!("sent unparsable {g}"))?;
        let mut words = vec![s(&p.kind)];
        words.extend(p.args.iter().map(|a| s(a)));
        if words.len() == 3 && words[..2] == ["CAP", "REQ"] {
            if g.len() > 510 {
                return Err(format!("sent a line of {} bytes: {g}", g.len()));
            }
            let mut caps: Vec<&str> = words[2].split(' ').filter(|w| !w.is_empty()).collect();
            let prev = match lines.last() {
                Some((_, p, false)) if p[0] == "CAP" && p[1] == "REQ" => lines.pop().map(|l| l.1),
                _ => None,
            };
            caps.extend(prev.iter().flat_map(|p| p[2].split(' ')));
            caps.sort();
            let caps = caps.join(" ");
            lines.push((g.clone(), vec!["CAP".into(), "REQ".into(), caps], !p.tags.is_empty() || p.source.is_some()));
        } else {
            lines.push((g.clone(), words, !p.tags.is_empty() || p.source.is_some()));
        }
    }
    if lines.len() != want.len() {
        return Err(format!("sent {got:?}, expected {want:?}"));
    }
    for ((g, words, extra), w) in lines.into_iter().zip(want) {
        if w[..] == ["NICK", "*?"] {
            if words.len() != 2 || words[0] != "NICK" || !seen_nicks.insert(words[1].clone()) {
                return Err(format!("sent {g}, expected another fallback nick"));
            }
            m.nick = words[1].clone().into_bytes();
        } else {
            if *w != words || extra {
                return Err(format!("sent {g}, expected {w:?}"));
            }
            if words[0] == "NICK" {
                seen_nicks.insert(words[1].clone());
            }
        }
    }
    Ok(())
}

fn play(cfg: &Cfg, lines: &[&str], tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let mut want: Vec<Sent> = Vec::new();
    let mut m = M::new(cfg, &mut want);
    let (id, rx) = match cfg.stock {
        0 => c.add(&register(), cfg).unwrap(),
        1 => c.add(&register_as_bot(), &options(cfg)).unwrap(),
        _ => c.add(&register_as_client(), &options(cfg)).unwrap(),
    };
    let mut rx = Some(rx);
    let mut nicks = BTreeSet::new();
    let r = world::run(&mut c, &sh, tokio);
    if r != Ran::Timeout {
        return Err(format!("registration ended at once: {r:?}"));
    }
    let mut at = 0;
    let got = sh.borrow().lines();
    check_sent(&got[at..], &want, &mut m, &mut nicks).map_err(|e| format!("opening burst: {e}"))?;
    at = got.len();
    let mut end = None;
    for l in lines {
        st.step();
        want.clear();
        let p = irc::m_parse(l.as_bytes(), true).unwrap();
        let e = m.msg(cfg, l, &p, &mut want);
        sh.borrow_mut().feed(format!("{l}\r\n"));
        let r = world::run(&mut c, &sh, tokio);
        let got = sh.borrow().lines();
        check_sent(&got[at..], &want, &mut m, &mut nicks).map_err(|e| format!("after {l:.60}: {e}"))?;
        at = got.len();
        st.state(&m);
        if want.iter().any(|w| w[0] == "CAP") {
            st.nontrivial();
        }
        match (&e, &r) {
            (None, Ran::Timeout) => (),
            (Some(e), Ran::Ids(_, f)) if f == &[id] => {
                let g = rx.take().unwrap().0.recv_now();
                let g = g.as_ref().map(out_of);
                let e2 = match e {
                    Out::ServerError(l) => Out::ServerError(irc::m_write(&irc::m_parse(l, true).unwrap())),
                    e => e.clone(),
                };
                if g.as_ref() != Some(&e2) {
                    return Err(format!("after {l:.60}: result {g:?}, expected {e2:?}"));
                }
                st.nontrivial();
                end = Some(e.clone());
                break;
            }
            _ => return Err(format!("after {l:.60}: run returned {r:?}, result {:?}, expected {e:?}", rx.take().and_then(|r| r.0.recv_now()))),
        }
    }
    if end == Some(Out::Ok) {
        let stt = c.state();
        let src = stt.get::<ClientSource>().ok_or("no client source")?;
        let uh = src.userhost.as_ref().map(|u| (u.user.as_ref().map(|u| u.as_bytes().to_vec()), u.host.as_bytes().to_vec()));
        if src.nick.as_bytes() != &m.nick[..] || uh != m.userhost {
            return Err(format!("client source {src}, expected {} {:?}", s(&m.nick), m.userhost));
        }
        let acc = stt.get::<Account>().ok_or("no account entry")?.as_ref().map(|a| a.as_bytes().to_vec());
        if acc != m.account {
            return Err(format!("account {acc:?}, expected {:?}", m.account));
        }
        let cm = stt.get::<Caps>().ok_or("no capabilities")?;
        let got: BTreeMap<String, (B, bool)> =
            cm.keys().map(|k| (k.to_string(), (cm.get_union_raw(k).unwrap().1.as_bytes().to_vec(), *cm.get_extra_raw(k).unwrap()))).collect();
        if got != m.caps {
            return Err(format!("capabilities {got:?}, expected {:?}", m.caps));
        }
        let im = stt.get::<ISupport>().ok_or("no ISUPPORT")?;
        let got: BTreeMap<B, B> = im.keys().map(|k| (k.as_bytes().to_vec(), im.get_union_raw(k).unwrap().1.as_bytes().to_vec())).collect();
        if got != m.isup {
            return Err(format!("ISUPPORT {got:?}, expected {:?}", m.isup));
        }
        let v = stt.get::<ServerVersion>().map(|v| v.as_bytes().to_vec());
        if v != m.version {
            return Err(format!("version {v:?}, expected {:?}", m.version));
        }
        let src = stt.get::<ServerSource>().map(|s| irc::v_source(s));
        if src != m.source {
            return Err(format!("server source {src:?}, expected {:?}", m.source));
        }
    } else if c.state().get::<ClientSource>().is_some() || c.state().get::<Account>().is_some() {
        return Err("state saved without success".into());
    }
    st.outcome(&(&end, &m.nick, &m.account, &m.s));
    Ok(())
}

fn alphabet() -> Vec<&'static str> {
    vec![
        ":s CAP * LS :a b=1 c", ":s CAP * LS * :a sasl=EXTERNAL", ":s CAP * LS :sasl=PLAIN,EXTERNAL a b c", ":s CAP * LS :sasl=plain b a c", ":s CAP * LS :", ":s CAP * LS :sasl sts=port=6697 a b c server-time", "CAP me ACK :a",
        ":s CAP me ACK :a b sasl", ":s CAP * ACK :b", ":s CAP * ACK :sasl", ":s CAP * ACK * :a b", ":s CAP * ACK :a server-time", ":s CAP * NAK :a b", ":s CAP * DEL :a", ":s CAP * NEW :b=9 c", ":s CAP * LIST :a", ":s CAP * END",
        ":s 001 me :welcome", ":t!u@h 001 other :welcome", "001 * :welcome", ":s 002 me :host", ":s 004 me srv ver1 i o", ":s 005 me A=1 B :are supported", ":s 005 me :Try server x.org, port 6668", ":s 010 me y.org 6669 :go",
        ":s 376 me :end", "422 me :no motd", ":s 432 * me :bad", ":s 433 * me :used", ":s 436 * me :collision", ":s 464 * :password", ":s 900 me me!u@h acc :in", ":s 901 me you!x@y :out", ":s 903 me :ok", ":s 904 me :failed",
        ":s 905 me :long", ":s 906 me :aborted", ":s 907 me :already", ":s 908 me PLAIN,EXTERNAL :mechs", ":s 908 me SCRAM :mechs", "AUTHENTICATE +", "AUTHENTICATE eA==", "AUTHENTICATE !", "PING :tok en", ":s NOTICE * :hi", "ERROR :bye",
        ":s 421 * CAP :unknown", ":s 372 me :motd",
    ]
}
fn configs() -> Vec<Cfg> {
    let b = Cfg { pass: None, nicks: vec!["me", "me2"], caps: vec![], add_common: false, require: true, mechs: vec![], needs: false, stock: 0, user: "user", real: "real name" };
    let pw = Mech::Password("acc", "pw");
    let ex = Mech::External("");
    vec![
        b.clone(),
        Cfg { pass: Some("se cret"), nicks: vec!["me"], caps: vec!["a", "b"], ..b.clone() },
        Cfg { caps: vec!["b", "zz"], require: false, add_common: true, nicks: vec!["me", "x", "y"], ..b.clone() },
        Cfg { mechs: vec![pw.clone()], needs: true, ..b.clone() },
        Cfg { mechs: vec![ex.clone(), pw.clone()], caps: vec!["a"], needs: false, ..b.clone() },
        Cfg { mechs: vec![ex.clone(), pw.clone()], caps: vec!["a"], needs: true, ..b.clone() },
        Cfg { mechs: vec![pw.clone(), Mech::Two("f", "s"), ex.clone()], needs: true, require: true, add_common: true, caps: vec!["sts"], ..b.clone() },
        Cfg { needs: true, ..b.clone() },
        Cfg { mechs: vec![pw.clone()], needs: true, stock: 1, caps: vec!["a"], ..b.clone() },
        Cfg { mechs: vec![pw.clone(), ex.clone()], needs: false, stock: 2, caps: vec!["a", "q"], add_common: true, require: false, pass: Some("p"), ..b.clone() },
        Cfg { mechs: vec![], needs: true, stock: 2, nicks: vec!["me"], add_common: true, require: false, ..b.clone() },
        Cfg { mechs: vec![ex], needs: true, stock: 1, ..b.clone() },
        Cfg { caps: vec!["sts"], ..b },
    ]
}
fn ended(cfg: &Cfg, h: &[&str]) -> bool {
    // Which generated fallbacks an invalid nick rules out is C19's matter.
    if cfg.stock > 0 && h.iter().any(|l| l.contains(" 432 ")) {
        return true;
    }
    let mut m = M::new(cfg, &mut vec![]);
    h.iter().any(|l| m.msg(cfg, l, &irc::m_parse(l.as_bytes(), true).unwrap(), &mut vec![]).is_some())
}

pub fn run(c: &mut Ctx) {
    let al = alphabet();
    let cfgs = configs();
    c.section("sequences", "all sequences of server messages for every configuration");
    for cfg in &cfgs {
        seqs(al.len(), 0, c.pick(3, 4), |ix| {
            let ls: Vec<&str> = ix.iter().map(|i| al[*i]).collect();
            if ls.len() > 1 && ended(cfg, &ls[..ls.len() - 1]) || cfg.stock > 0 && ls.iter().any(|l| l.contains(" 432 ")) {
                return;
            }
            for tokio in [false, true] {
                if tokio && ix.len() > 2 {
                    continue;
                }
                c.case(|| format!("{cfg:?} {ls:?} tokio {tokio}"), |st| play(cfg, &ls, tokio, st));
            }
        });
    }
    c.section("transitions", "every message in every reachable state of the reference registration, reached by a shortest history");
    let (cap, depth) = c.pick((1500usize, 9usize), (12000, 14));
    for cfg in &cfgs {
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let mut front: VecDeque<(M, Vec<&str>)> = VecDeque::new();
        let m = M::new(cfg, &mut vec![]);
        seen.insert(h64(&m));
        front.push_back((m, vec![]));
        while let Some((m, hist)) = front.pop_front() {
            for l in &al {
                if cfg.stock > 0 && l.contains(" 432 ") {
                    continue;
                }
                let mut n = m.clone();
                let e = n.msg(cfg, l, &irc::m_parse(l.as_bytes(), true).unwrap(), &mut vec![]);
                let mut h = hist.clone();
                h.push(l);
                c.case(|| format!("{cfg:?} {h:?}"), |st| play(cfg, &h, false, st));
                if e.is_none() && h.len() < depth && seen.len() < cap {
                    // Distinct in what decides the future; the tables are compared at the end anyway.
                    let mut k = n.clone();
                    k.source = None;
                    k.isup.clear();
                    k.version = None;
                    if seen.insert(h64(&k)) {
                        front.push_back((n, h));
                    }
                }
            }
        }
    }
    c.section("stories", "every interleaving of one disturbance into complete registrations");
    let stories: Vec<(usize, Vec<&str>)> = vec![
        (0, vec![":s CAP * LS :a b=1 c", ":s 001 me :welcome", ":s 002 me :host", ":s 004 me srv ver1 i o", ":s 005 me A=1 B :are supported", ":s 376 me :end"]),
        (1, vec![":s CAP * LS :a b=1 c", ":s CAP * ACK :b", "CAP me ACK :a", ":t!u@h 001 other :welcome", ":s 372 me :motd", "422 me :no motd"]),
        (3, vec![":s CAP * LS :sasl=plain b a c", ":s CAP * ACK :sasl", "AUTHENTICATE +", ":s 900 me me!u@h acc :in", ":s 903 me :ok", ":s 001 me :welcome", ":s 376 me :end"]),
        (4, vec![":s CAP * LS * :a sasl=EXTERNAL", ":s CAP * LS :", ":s CAP me ACK :a b sasl", "AUTHENTICATE eA==", ":s 906 me :aborted", ":s 001 me :welcome", ":s 376 me :end"]),
        (5, vec![":s CAP * LS :sasl=PLAIN,EXTERNAL a b c", ":s CAP me ACK :a b sasl", "AUTHENTICATE +", ":s 904 me :failed", "AUTHENTICATE +", ":s 900 me me!u@h acc :in", ":s 903 me :ok", ":s 001 me :welcome", ":s 376 me :end"]),
        (8, vec![":s CAP * LS :sasl=PLAIN,EXTERNAL a b c", ":s CAP me ACK :a b sasl", "AUTHENTICATE +", ":s 433 * me :used", ":s 433 * me :used", ":s 433 * me :used", ":s 900 me me!u@h acc :in", ":s 001 me :welcome", ":s 376 me :end"]),
        (9, vec![":s CAP * LS :sasl sts=port=6697 a b c server-time", ":s CAP * ACK :a server-time", ":s 433 * me :used", ":s 433 * me :used", ":s 433 * me :used", ":s 001 me :welcome", ":s 376 me :end"]),
    ];
    for (k, story) in &stories {
        let k2 = c.pick(2, 3);
        seqs(al.len(), 0, k2, |ix| {
            // Positions: all non-decreasing vectors.
            let n = story.len() + 1;
            let mut pos = vec![0usize; ix.len()];
            loop {
                let mut h: Vec<&str> = Vec::new();
                for (i, l) in story.iter().enumerate() {
                    for (j, p) in pos.iter().enumerate() {
                        if *p == i {
                            h.push(al[ix[j]]);
                        }
                    }
                    h.push(l);
                }
                if !pos.contains(&(n - 1)) && !(cfgs[*k].stock > 0 && h.iter().any(|l| l.contains(" 432 "))) {
                    c.case(|| format!("{:?} {h:?}", cfgs[*k]), |st| play(&cfgs[*k], &h, false, st));
                }
                let mut i = pos.len();
                loop {
                    if i == 0 {
                        return;
                    }
                    i -= 1;
                    if pos[i] + 1 < n - 1 {
                        let v = pos[i] + 1;
                        pos[i..].fill(v);
                        break;
                    }
                }
            }
        });
    }
    c.section("identities", "passwords, usernames, real names and nicknames of every form, through complete registrations");
    let words: Vec<&'static str> = vec!["", "a", " ", "a b", ":", ":a", " :a ", "a=b;c\\:", "\u{1}x\u{1}", "\u{e9}", "*", "@", "+"];
    let long: &'static str = Box::leak("p ".repeat(200).into_boxed_str());
    for stock in [0u8, 1, 2] {
        for pass in std::iter::once(None).chain(words.iter().map(|w| Some(*w))).chain([Some(long)]) {
            for real in words.iter().cloned().chain([long]) {
                for (user, nick) in [("user", "me"), ("~u", "[a]\\^"), ("*", "a|b"), ("a!b", "0"), ("\u{e9}", "#a"), ("USER", "\u{e9}t\u{e9}")] {
                    let cfg = Cfg { pass, user, real, nicks: vec![nick, "me2"], stock, ..configs()[1].clone() };
                    let h = [":s CAP * LS :a b=1 c", ":s CAP * ACK :b", "CAP me ACK :a", ":s 433 * me :used", ":t!u@h 001 other :welcome", "422 me :no motd"];
                    c.case(|| format!("{cfg:?} {h:?}"), |st| play(&cfg, &h, false, st));
                }
            }
        }
    }
    c.section("many", "long lists: capabilities offered and acknowledged in pieces of every size, fallback nicks, supported tokens; requests over several lines");
    let many = c.pick(vec![1usize, 2, 7, 8, 9, 13, 16, 17, 31, 32, 33, 40, 64, 65, 100], (1..=130).collect());
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    for &n in &many {
        for len in [3usize, 30] {
            for add_common in [false, true] {
                let names: Vec<&'static str> = (0..n).map(|i| leak(format!("x{i:0len$}"))).collect();
                let nicks: Vec<&'static str> = (0..n).map(|i| leak(format!("n{i}"))).collect();
                let cfg = Cfg { caps: names.clone(), add_common, nicks, ..configs()[5].clone() };
                let mut all: Vec<&str> = names.clone();
                all.push("sasl");
                if add_common {
                    all.extend(COMMON);
                }
                for chunk in [1usize, 2, 3, 8, 12, 16, 17, 32] {
                    if chunk > 2 * all.len() || all.len() > 60 && chunk == 1 {
                        continue;
                    }
                    let mut h: Vec<String> = Vec::new();
                    let mut ls = names.clone();
                    ls.push("sasl=PLAIN,EXTERNAL");
                    if add_common {
                        ls.extend(COMMON);
                    }
                    for (i, k) in ls.chunks(chunk).enumerate() {
                        h.push(format!(":s CAP * LS {}:{}", if (i + 1) * chunk < ls.len() { "* " } else { "" }, k.join(" ")));
                    }
                    // Acknowledged last to first, with refused nicknames in between.
                    for (i, k) in all.rchunks(chunk).enumerate() {
                        h.push(format!(":s CAP * ACK :{}", k.join(" ")));
                        if i + 2 < n {
                            h.push(":s 433 * me :used".into());
                        }
                    }
                    h.extend(["AUTHENTICATE +", ":s 900 me me!u@h acc :in", ":s 903 me :ok", ":s 001 me :welcome"].map(String::from));
                    for k in names.chunks(chunk) {
                        h.push(format!(":s 005 me {} :are supported", k.iter().map(|k| format!("{}={k}", k.to_uppercase())).collect::<Vec<_>>().join(" ")));
                    }
                    h.push(":s 376 me :end".into());
                    let h: Vec<&str> = h.iter().map(|l| &l[..]).collect();
                    c.case(|| format!("{cfg:?} {h:?}"), |st| play(&cfg, &h, false, st));
                    // One is refused.
                    let mut g: Vec<&str> = h.iter().take_while(|l| !l.contains(" ACK ")).cloned().collect();
                    let nak = format!(":s CAP * NAK :{}", names[n - 1]);
                    g.extend(h.iter().filter(|l| l.contains(" ACK ")).take(n / chunk / 2));
                    g.push(&nak);
                    c.case(|| format!("{cfg:?} {g:?}"), |st| play(&cfg, &g, false, st));
                }
            }
        }
    }
}
