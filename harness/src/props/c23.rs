//! C23: the client's own source is tracked through every change.
use super::irc;
use super::world::{self, Ran};
use crate::engine::*;
use crate::vclock;
use std::time::Duration;
use vinezombie::client::channel::*;
use vinezombie::client::handlers::TrackClientSource;
use vinezombie::client::state::{ClientSource, ISupport};
use vinezombie::client::*;
use vinezombie::ircmsg::{ClientMsg, Source, UserHost};
use vinezombie::names::NameMap;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C23",
    rule: "every sequence of messages over the alphabet (nick changes, host changes and USERHOST replies about us, others and nobody, well-formed and not) and of state changes by the application up to the bound; tracked source, size reserve and handler life compared with a reference after every message; non-trivial: the source changed",
    assumptions: &["nicknames are compared byte for byte, as servers repeat them"],
};

#[derive(Clone, PartialEq, Debug, Hash, Default)]
struct Src {
    nick: String,
    user: Option<String>,
    host: Option<String>,
}
impl Src {
    fn real(&self) -> Source<'static> {
        Source {
            nick: Nick::from_bytes(self.nick.clone()).unwrap(),
            userhost: self.host.as_ref().map(|h| UserHost {
                user: self.user.as_ref().map(|u| User::from_bytes(u.clone()).unwrap()),
                host: Word::from_bytes(h.clone()).unwrap().into(),
            }),
        }
    }
    fn of(s: &Source<'_>) -> Src {
        Src {
            nick: s.nick.to_string(),
            user: s.userhost.as_ref().and_then(|u| u.user.as_ref().map(|u| u.to_string())),
            host: s.userhost.as_ref().map(|u| u.host.to_string()),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// A server line; {me} stands for our current nick.
    Line(&'static str),
    Set(&'static str, Option<&'static str>, Option<&'static str>),
    ISup(&'static [(&'static str, &'static str)]),
    Update,
    Reset,
    /// Resets with a new connection.
    NewConn,
    SetLen(usize),
    /// Calculates the reserve from a source given by the application.
    From(Option<(&'static str, Option<&'static str>, Option<&'static str>)>, bool),
}
use Op::*;
const NONE: &str = "nobody-else";

#[derive(Default)]
struct M {
    src: Option<Src>,
    isup: Option<Vec<(&'static str, &'static str)>>,
    len: usize,
}
impl M {
    fn update(&mut self) {
        self.len = self.calc(self.src.as_ref(), true);
    }
    fn calc(&self, src: Option<&Src>, tilde: bool) -> usize {
        let n = src.map(|s| s.nick.len());
        let h = src.and_then(|s| s.host.as_ref().map(|h| h.len()));
        let u = src.and_then(|s| s.user.as_ref().map(|u| u.len() + (tilde && !u.starts_with('~')) as usize));
        let sup = |k: &str, d: usize| {
            self.isup
                .as_ref()
                .and_then(|i| i.iter().find(|e| e.0 == k))
                .and_then(|e| e.1.parse::<u32>().ok())
                .filter(|n| *n > 0)
                .map_or(d, |n| n as usize)
        };
        match (n, u, h, &self.isup) {
            (Some(n), Some(u), Some(h), _) => n + u + h + 2,
            (_, _, _, None) => 85,
            (n, u, h, _) => n.unwrap_or(sup("NICKLEN", 9)) + u.unwrap_or(sup("USERLEN", 10)) + h.unwrap_or(sup("HOSTLEN", 64)) + 2,
        }
    }
    /// The reference: applies one server line. True if the source was (re-)established.
    fn line(&mut self, l: &str) -> bool {
        let Some(m) = irc::m_parse(l.as_bytes(), true) else { return false };
        let Some(src) = self.src.as_mut() else { return false };
        let args: Vec<String> = m.args.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect();
        let from_me = m.source.as_ref().is_some_and(|s| s.nick == src.nick.as_bytes());
        let word = |s: &str| !s.is_empty() && !s.contains(' ') && !s.starts_with(':');
        match &m.kind[..] {
            b"NICK" if from_me && args.len() == 1 && irc::is_nick(args[0].as_bytes()) => src.nick = args[0].clone(),
            b"CHGHOST" if from_me && args.len() == 2 && irc::is_user(args[0].as_bytes()) && word(&args[1]) => {
                src.user = Some(args[0].clone());
                src.host = Some(args[1].clone());
            }
            b"302" => {
                // After the target: replies, separated by spaces.
                let mut hit = None;
                for item in args.iter().skip(1).flat_map(|a| a.split(' ')) {
                    let Some((n, r)) = item.split_once('=') else { continue };
                    if n.strip_suffix('*').unwrap_or(n) != src.nick {
                        continue;
                    }
                    let Some(r) = r.strip_prefix(['+', '-']) else { continue };
                    let Some((u, h)) = r.split_once('@') else { continue };
                    if !irc::is_user(u.as_bytes()) || h.is_empty() {
                        continue;
                    }
                    hit = Some((u.to_string(), h.to_string()));
                    break;
                }
                let Some((u, h)) = hit else { return false };
                src.user = Some(u);
                src.host = Some(h);
            }
            _ => return false,
        }
        true
    }
}

fn seq(ops: &[Op], tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let (conn, mut sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let mut m = M { len: 85, ..Default::default() };
    let mut added = false;
    let mut want_out: Vec<String> = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        st.step();
        match op {
            Set(n, u, h) => {
                let s = Src { nick: n.to_string(), user: u.map(|s| s.to_string()), host: h.map(|s| s.to_string()) };
                c.state_mut().insert::<ClientSource>(s.real());
                m.src = Some(s);
            }
            ISup(t) => {
                let mut map = NameMap::<vinezombie::names::ISupport>::new();
                {
                    let mut e = map.edit();
                    for (k, v) in *t {
                        e.insert((Key::from_str(k), Word::from_str(v)), ());
                    }
                }
                c.state_mut().insert::<ISupport>(map);
                m.isup = Some(t.to_vec());
            }
            Update => {
                let r = c.state_mut().update_source_len().get();
                m.update();
                if r != m.len {
                    return Err(format!("op {i}: update_source_len returned {r}, expected {}", m.len));
                }
            }
            Reset => {
                c.reset();
                added = false;
                m = M { len: 85, ..Default::default() };
            }
            NewConn => {
                let (conn, s) = world::net();
                c.reset_with_conn(conn);
                sh = s;
                want_out.clear();
                added = false;
                m = M { len: 85, ..Default::default() };
            }
            SetLen(n) => {
                c.state_mut().set_source_len(std::num::NonZeroUsize::new(*n).unwrap());
                m.len = *n;
            }
            From(s, tilde) => {
                let s = s.map(|(n, u, h)| Src { nick: n.to_string(), user: u.map(|s| s.to_string()), host: h.map(|s| s.to_string()) });
                let real = s.as_ref().map(|s| s.real());
                let r = c.state_mut().update_source_len_from(real.as_ref(), *tilde).get();
                m.len = m.calc(s.as_ref(), *tilde);
                if r != m.len {
                    return Err(format!("op {i}: update_source_len_from returned {r}, expected {}", m.len));
                }
            }
            Line(l) => {
                if !added {
                    c.add((), TrackClientSource::new()).unwrap();
                    added = true;
                    if let Some(s) = &m.src {
                        want_out.push(format!("USERHOST {}", s.nick));
                    }
                }
                let me = m.src.as_ref().map_or(NONE.to_string(), |s| s.nick.clone());
                let l = l.replace("{me}", &me);
                sh.borrow_mut().feed(format!("{l}\r\n"));
                let r = world::run(&mut c, &sh, tokio);
                if r != Ran::Timeout {
                    return Err(format!("op {i}: run returned {r:?}: the tracking handler ended"));
                }
                if m.line(&l) {
                    m.update();
                    st.nontrivial();
                }
            }
        }
        let got = c.state().get::<ClientSource>().map(Src::of);
        if got != m.src {
            return Err(format!("op {i}: tracked source {got:?}, expected {:?}", m.src));
        }
        let len = c.state().source_len().get();
        if len != m.len {
            return Err(format!("op {i}: source length {len}, expected {} for {:?}", m.len, m.src));
        }
        if sh.borrow().lines() != want_out {
            return Err(format!("op {i}: sent {:?}, expected {want_out:?}", sh.borrow().lines()));
        }
        st.state(&(&m.src, m.len));
    }
    st.outcome(&(&m.src, m.len));
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let lines = [
        ":{me}!u@h NICK ab", ":{me} NICK longer-nick", ":{me}!~z@y NICK :me", ":{me}x!u@h NICK evil", ":xx NICK {me}", "NICK nosrc", ":{me} NICK", ":{me} NICK a b", ":{me} NICK a,b",
        ":{me} NICK :a b", ":{me} CHGHOST nu n.host", ":{me}!u@h CHGHOST ~tu :x", ":xx CHGHOST nu n.host", ":{me} CHGHOST a@b h", ":{me} CHGHOST onlyuser", ":{me} CHGHOST u :h h", ":{me} CHGHOST a b c",
        ":s 302 {me} :{me}=+user@host.example", ":s 302 {me} {me}*=-~us@2001:db8::1", ":s 302 {me} :{me}=+tr@ail ", ":s 302 {me} :xx=+x@y {me}=-mu@lti yy*=+1@2", ":s 302 {me} :xx=+x@y",
        ":s 302 {me} :{me}x=+x@y", ":s 302 {me} :{me}=u@h", ":s 302 {me} :{me}=+u", ":s 302 {me} :{me}=+@h", ":s 302 {me} :{me}=+u@", ":s 302 {me} :{me}*+u@h", ":s 302 {me} :", ":s 302", ":s 302 {me}=+u@only",
        ":s 302 {me} a=+b@c {me}=+two@args", ":{me}!q@r PRIVMSG #c :hi", ":s 396 {me} hidden.host :is now your host", ":{me}!j@k JOIN #c", ":s 303 {me} :{me}=+u@h", ":{me} nick low",
        ":s 302 {me} :{me}=+bad@h {me}=+good@h2", ":s 302 {me} :{me}**=+u@h", ":s 302 {me} :{me}*=*u@h",
    ];
    let mut al: Vec<Op> = lines.iter().map(|l| Line(l)).collect();
    al.extend([
        Set("me", None, None),
        Set("me", Some("~u"), Some("host")),
        Set("other", None, Some("h")),
        ISup(&[("NICKLEN", "31"), ("USERLEN", "12"), ("HOSTLEN", "100")]),
        ISup(&[("NICKLEN", "bad"), ("HOSTLEN", "")]),
        Update,
        Reset,
    ]);
    let starts: Vec<Vec<Op>> = vec![
        vec![],
        vec![Set("me", None, None)],
        vec![Set("me", Some("u"), Some("h")), Update],
        vec![ISup(&[("NICKLEN", "16")]), Set("me", None, None), Update],
    ];
    c.section("sequences", "all sequences of messages and application changes from four start states");
    let d = c.pick(3, 4);
    for s in &starts {
        let start = if d == 3 { 1 } else { 1 };
        seqs(al.len(), start, if s.len() > 2 { d - 1 } else { d }, |ix| {
            let mut ops = s.clone();
            ops.extend(ix.iter().map(|i| al[*i].clone()));
            for tokio in [false, true] {
                if tokio && ix.len() > 2 {
                    continue;
                }
                c.case(|| format!("{ops:?} tokio {tokio}"), |st| seq(&ops, tokio, st));
            }
        });
    }
    c.section("deep", "longer sequences of effective messages");
    let eff = [0usize, 1, 2, 10, 11, 17, 18, 20, 12, 4];
    seqs(eff.len(), 1, c.pick(5, 6), |ix| {
        let mut ops = starts[1].clone();
        ops.extend(ix.iter().map(|i| Line(lines[eff[*i]])));
        c.case(|| format!("{ops:?}"), |st| seq(&ops, false, st));
    });
    c.section("reserve", "every way of setting the reserve, with resets and new connections in between");
    let res = [
        SetLen(1), SetLen(500), Reset, NewConn, Update, Set("me", None, None), Set("me", Some("~u"), Some("hst")), Set("long-nick", Some("u"), Some("hst")),
        ISup(&[("NICKLEN", "31"), ("USERLEN", "12"), ("HOSTLEN", "100")]), Line(lines[0]), Line(lines[10]), Line(lines[17]), Line(":xx NICK yy"),
        From(None, true), From(None, false), From(Some(("n", None, None)), true), From(Some(("n", Some("u"), Some("h.h"))), true), From(Some(("n", Some("u"), Some("h.h"))), false),
        From(Some(("nn", Some("~u"), Some("h"))), true), From(Some(("nn", None, Some("h"))), false),
    ];
    seqs(res.len(), 1, c.pick(4, 5), |ix| {
        let ops: Vec<Op> = ix.iter().map(|i| res[*i].clone()).collect();
        c.case(|| format!("{ops:?}"), |st| seq(&ops, false, st));
    });
    c.section("replies", "USERHOST replies over the structural alphabet");
    words(b"m*=+-u@ ", 0, c.pick(6, 7), |w| {
        let l: &'static str = Box::leak(format!(":s 302 m :{}", String::from_utf8_lossy(w)).into_boxed_str());
        let ops = [Set("m", None, None), Line(l)];
        c.case(|| format!("{ops:?}"), |st| seq(&ops, false, st));
    });
    c.section("sizes", "nicks, usernames and hosts of every length to 300 (with pairs) by every way of learning them; announced limits of every value to 600 and beyond");
    let t = |n: usize, ch: char| -> &'static str { Box::leak(ch.to_string().repeat(n).into_boxed_str()) };
    let line = |s: String| Line(Box::leak(s.into_boxed_str()));
    let many: Vec<usize> = (1..=300).collect();
    let few = [1usize, 9, 10, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257];
    let mut trip: Vec<(usize, usize, usize)> = Vec::new();
    for n in &many {
        trip.extend([(*n, 2, 2), (2, *n, 2), (2, 2, *n)]);
    }
    for a in few {
        for b in few {
            trip.extend([(a, b, 2), (a, 2, b), (2, a, b)]);
        }
    }
    for (n, u, h) in trip {
        let (n, u, h) = (t(n, 'n'), t(u, 'u'), t(h, 'h'));
        let lim = ISup(&[("NICKLEN", "30"), ("USERLEN", "10"), ("HOSTLEN", "64")]);
        let all: Vec<Vec<Op>> = vec![
            vec![Set(n, Some(u), Some(h)), Update],
            vec![Set(n, None, Some(h)), Update, lim.clone(), Update],
            vec![lim.clone(), Set("me", None, None), line(format!(":me!x@y NICK {n}"))],
            vec![Set("me", Some("a"), Some("b")), Update, line(format!(":me!x@y NICK {n}")), line(format!(":{n} CHGHOST {u} {h}"))],
            vec![lim, Set(n, None, None), line(format!(":s 302 {n} :xx=+p@q {n}=+{u}@{h}")), line(format!(":{n} NICK me"))],
            vec![Set(n, Some("~x"), Some("y")), Update, line(format!(":s 302 {n} {n}*=-{u}@{h}"))],
        ];
        for ops in all {
            c.case(|| format!("{ops:?}"), |st| seq(&ops, false, st));
        }
    }
    let vals: Vec<String> = (0..=600u64).chain([1000, 4096, 32767, 32768, 65535]).map(|n| n.to_string()).chain(["00012", "+5", "-1", "1x", "0x10"].map(String::from)).collect();
    for v in vals {
        let v: &'static str = Box::leak(v.into_boxed_str());
        for k in ["NICKLEN", "USERLEN", "HOSTLEN"] {
            for set in [None, Some(Set("me", None, None)), Some(Set("me", None, Some("host"))), Some(Set("me", Some("~u"), Some("host")))] {
                let list: &'static [(&'static str, &'static str)] = Box::leak(vec![(k, v)].into_boxed_slice());
                let mut ops: Vec<Op> = set.into_iter().collect();
                ops.extend([ISup(list), Update]);
                c.case(|| format!("{ops:?}"), |st| seq(&ops, false, st));
            }
        }
    }
}
