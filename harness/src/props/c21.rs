//! C21: capability and ISUPPORT listings are interpreted as specified.
use super::irc;
use super::rules::{bad_byte, Ty};
use super::world;
use crate::engine::*;
use crate::vclock;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
use vinezombie::client::auth::Clear;
use vinezombie::client::cap::{self, ServerMsgArgs, SubCmd};
use vinezombie::client::channel::*;
use vinezombie::client::register::{register_as_bot, Options};
use vinezombie::client::state::{Caps, ISupport as ISupportKey};
use vinezombie::client::*;
use vinezombie::ircmsg::{ClientMsg, ServerMsg, Source};
use vinezombie::names::{cap as ncap, isupport as isup, Cap, ISupport, Name, NameMap, NameValued};
use vinezombie::state::{Mode, ModeTypes, StatusModes};
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C21",
    rule: "every capability list over the structural alphabet and every combination of list lines; every ISUPPORT value over the value alphabet for every token; every sequence of LS/NEW/DEL/ACK/005 lines up to the bound through the real registration; every vector of capability lengths around the line limit through the request splitter; non-trivial: at least one name was announced or requested",
    assumptions: &["a capability name that contains an equals sign or a semicolon cannot be represented and is skipped"],
};

type L = Vec<(Vec<u8>, Vec<u8>)>;

/// Reference: the tokens of a capability list or ISUPPORT line.
fn token(t: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let n = t.iter().position(|c| bad_byte(Ty::Key, *c)).unwrap_or(t.len());
    let (k, r) = t.split_at(n);
    if k.is_empty() || k[0] == b':' {
        return None;
    }
    match r {
        [] => Some((k.to_vec(), Vec::new())),
        [b'=', v @ ..] => Some((k.to_vec(), v.to_vec())),
        _ => None,
    }
}
fn caplist(l: &[u8]) -> BTreeMap<Vec<u8>, Vec<u8>> {
    l.split(|c| *c == b' ').filter_map(token).collect()
}
fn got_caps(a: &ServerMsgArgs) -> BTreeMap<Vec<u8>, Vec<u8>> {
    a.caps.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}
fn sub(s: SubCmd) -> &'static str {
    match s {
        SubCmd::Ls => "LS",
        SubCmd::List => "LIST",
        SubCmd::Ack => "ACK",
        SubCmd::Nak => "NAK",
        SubCmd::New => "NEW",
        SubCmd::Del => "DEL",
    }
}
const SUBS: [&str; 6] = ["LS", "LIST", "ACK", "NAK", "NEW", "DEL"];

/// Parses one CAP line with the real code and compares it with the reference.
fn one<'a>(line: &'a [u8], st: &mut Stats) -> Result<Option<ServerMsgArgs<'a>>, String> {
    st.step();
    let msg = ServerMsg::parse(line).map_err(|e| format!("not a message: {e}"))?;
    let args = irc::m_parse(line, true).unwrap().args;
    // Reference.
    let want = (|| {
        let (caps, rest) = args.split_last()?;
        let [nick, s, star @ ..] = rest else { return None };
        if !irc::is_nick(nick) {
            return None;
        }
        let s = String::from_utf8_lossy(s).to_ascii_uppercase();
        let s = SUBS.iter().find(|x| **x == s)?;
        let last = match star {
            [] => true,
            [x, ..] if x == b"*" => false,
            _ => return None,
        };
        Some((nick.clone(), *s, last, caplist(caps)))
    })();
    let got = ServerMsgArgs::parse(&msg.args).ok();
    let g = got.as_ref().map(|g| (g.nick.as_bytes().to_vec(), sub(g.subcmd), g.is_last, got_caps(g)));
    if g != want {
        return Err(format!("parsed as {g:?}, expected {want:?}"));
    }
    if let (Some(g), Some(w)) = (&got, &want) {
        for n in [&b"a"[..], b"b", b"a=", b"", b"A"] {
            if g.contains(n) != w.3.contains_key(n) {
                return Err(format!("contains({}) wrong", show(n)));
            }
        }
        if !w.3.is_empty() {
            st.nontrivial();
        }
    }
    st.outcome(&want);
    Ok(got)
}

fn req_case(lens: &[usize], client: Option<usize>, server: Option<&str>, st: &mut Stats) -> R {
    let caps: Vec<Vec<u8>> = lens
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let mut v = format!("{i}").into_bytes();
            v.resize((*l).max(v.len()), b'x');
            v
        })
        .collect();
    let keys: Vec<Key> = caps.iter().map(|c| Key::from_bytes(c.clone()).unwrap()).collect();
    let cname = client.map(|n| "n".repeat(n));
    let src = server.map(|s| Source::parse(Word::from_bytes(s.to_string()).unwrap()).unwrap());
    let mut out: Vec<ClientMsg<'static>> = Vec::new();
    cap::req(keys.clone(), cname.as_ref().map(|c| Arg::from_bytes(c.clone()).unwrap()), src.as_ref(), |m: ClientMsg<'static>| out.push(m));
    let mut named: Vec<Vec<u8>> = Vec::new();
    for m in &out {
        st.step();
        let line = m.to_string().into_bytes();
        let p = irc::m_parse(&line, false).ok_or("request does not parse")?;
        if p.kind != b"CAP" || p.args.len() != 2 || p.args[0] != b"REQ" || !p.tags.is_empty() {
            return Err(format!("not a capability request: {}", show(&line)));
        }
        let here: Vec<Vec<u8>> = p.args[1].split(|c| *c == b' ').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
        if here.is_empty() && !caps.is_empty() {
            return Err("a request line names no capability".into());
        }
        // What is sent, and the server's acknowledgement of it, must fit.
        let reply = format!(
            "{}CAP {} ACK :{}\r\n",
            server.map_or(String::new(), |s| format!(":{s} ")),
            cname.as_deref().unwrap_or("*"),
            String::from_utf8_lossy(&p.args[1])
        );
        if here.len() > 1 && (line.len() + 2 > 512 || reply.len() > 512) {
            return Err(format!("line with {} capabilities too long: request {}, reply {}", here.len(), line.len() + 2, reply.len()));
        }
        named.extend(here);
    }
    if named != caps {
        return Err(format!("named {:?}, expected {:?}", named.iter().map(|v| v.len()).collect::<Vec<_>>(), lens));
    }
    if !caps.is_empty() {
        st.nontrivial();
    }
    st.outcome(&out.len());
    Ok(())
}

/// What a value of a token parses to.
#[derive(PartialEq, Debug, Clone)]
enum V {
    Unit,
    Num(u64),
    OptNum(Option<u64>),
    Letter(u8),
    Raw(Vec<u8>),
    Types(ModeTypes),
    Status(StatusModes),
    Bad,
    Any,
}
fn number(v: &[u8], max: u64) -> V {
    match v {
        [] => V::Bad,
        // Signed numbers are not specified.
        [b'+' | b'-', ..] => V::Any,
        _ if !v.iter().all(|c| c.is_ascii_digit()) => V::Bad,
        _ => {
            let mut n = 0u128;
            for c in v {
                n = (n * 10 + (c - b'0') as u128).min(1 << 100);
            }
            if n == 0 || n > max as u128 { V::Bad } else { V::Num(n as u64) }
        }
    }
}
fn letter(v: &[u8], default: Option<u8>) -> V {
    match v {
        [] => default.map_or(V::Bad, V::Letter),
        [c] if c.is_ascii_alphabetic() => V::Letter(*c),
        [_] => V::Bad,
        _ => V::Any,
    }
}
struct Tok {
    name: &'static str,
    want: fn(&[u8]) -> V,
    get: fn(&NameMap<ISupport>) -> Option<V>,
    raw: fn() -> Vec<u8>,
}
fn get<T: NameValued<ISupport>>(t: T, m: &NameMap<ISupport>, f: impl FnOnce(T::Value<'static>) -> V) -> Option<V> {
    let u = m.get_union(t).map(|u| T::from_union(u).is_ok());
    let r = m.get_parsed(t);
    assert!(u == r.as_ref().map(|r| r.is_ok()), "get_union and get_parsed disagree");
    r.map(|r| r.map_or(V::Bad, f))
}
macro_rules! toks {
    ($($n:ident $kind:tt $(($d:expr))?;)*) => { vec![$(toks!(@ $n $kind $(($d))?)),*] };
    (@ $n:ident $kind:tt $(($d:expr))?) => {
        Tok {
            name: stringify!($n),
            want: toks!(w $kind $(($d))?),
            get: |m| get(isup::$n, m, toks!(g $kind)),
            raw: || {
                let k: Key = isup::$n.into();
                assert!(*isup::$n.as_raw() == k && isup::$n::NAME == k && isup::$n == k && isup::$n.to_string() == stringify!($n), "name views disagree");
                k.as_bytes().to_vec()
            },
        }
    };
    (w unit) => { |_| V::Unit };
    (w num) => { |v| number(v, 65535) };
    (w opt) => { |v| if v.is_empty() { V::OptNum(None) } else { match number(v, u32::MAX as u64) { V::Num(n) => V::OptNum(Some(n)), o => o } } };
    (w mode ($d:expr)) => { |v| letter(v, $d) };
    (w raw) => { |v| V::Raw(v.to_vec()) };
    (w types) => { |v| V::Types(ModeTypes::parse(v).0) };
    (w status) => { |v| StatusModes::parse(v).map_or(V::Bad, V::Status) };
    (g unit) => { |_| V::Unit };
    (g num) => { |v| V::Num(v.get() as u64) };
    (g opt) => { |v| V::OptNum(v.map(|v| v.get() as u64)) };
    (g mode) => { |v: Mode| V::Letter(char::from(v) as u8) };
    (g raw) => { |v| V::Raw(v.as_bytes().to_vec()) };
    (g types) => { V::Types };
    (g status) => { V::Status };
}
fn tokens() -> Vec<Tok> {
    toks! {
        ETRACE unit; KNOCK unit; SAFELIST unit; UTF8ONLY unit; WHOX unit;
        AWAYLEN num; CHANNELLEN num; HOSTLEN num; KICKLEN num; MODES num; NICKLEN num; TOPICLEN num; USERLEN num;
        MONITOR opt; SILENCE opt;
        BOT mode (None); CALLERID mode (Some(b'g')); EXCEPTS mode (Some(b'e')); INVEX mode (Some(b'I'));
        NETWORK raw; CHANMODES types; PREFIX status; USERMODES types;
    }
}

fn map_of(l: &L) -> NameMap<ISupport> {
    let mut m = NameMap::<ISupport>::new();
    let mut e = m.edit();
    for (k, v) in l {
        e.insert((Key::from_bytes(k.clone()).unwrap(), Word::from_bytes(v.clone()).unwrap()), ());
    }
    drop(e);
    m
}

#[derive(Clone, Debug)]
enum Ln {
    Cap(&'static str, &'static str),
    ISup(&'static [&'static str]),
}
/// The whole registration: capability lines, welcome, ISUPPORT lines, end of MOTD.
fn registration(caps: &[Ln], isups: &[Ln], trail: bool, tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let mut o: Options<Clear> = Options::new();
    o.nicks = vec![Nick::from_str("me")];
    let (_, rx) = c.add(&register_as_bot(), &o).unwrap();
    let mut want: BTreeMap<Vec<u8>, (Vec<u8>, bool)> = BTreeMap::new();
    let mut lines = String::new();
    for l in caps {
        let Ln::Cap(s, list) = l else { unreachable!() };
        lines += &format!(":s CAP * {s} :{list}\r\n");
        for t in list.split(' ') {
            let Some((k, v)) = token(t.as_bytes()) else { continue };
            match *s {
                "LS" | "LS *" | "NEW" => {
                    let e = want.entry(k).or_default();
                    e.0 = v;
                }
                "ACK" => {
                    want.entry(k).or_insert((v, false)).1 = true;
                }
                "DEL" => {
                    want.remove(&k);
                }
                _ => (),
            }
        }
    }
    lines += ":s 001 me :hi\r\n:s 004 me s v1 a b\r\n";
    let mut wi: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    for l in isups {
        let Ln::ISup(ts) = l else { unreachable!() };
        lines += &format!(":s 005 me {}{}\r\n", ts.join(" "), if trail { " :are supported by this server" } else { "" });
        for t in *ts {
            if let Some(n) = t.strip_prefix('-') {
                if irc::is_key(n.as_bytes()) {
                    wi.remove(n.as_bytes());
                }
            } else if let Some((k, v)) = token(t.as_bytes()) {
                wi.insert(k, v);
            }
        }
    }
    lines += ":s 376 me :end\r\n";
    sh.borrow_mut().feed(&lines);
    let r = world::run(&mut c, &sh, tokio);
    st.steps((caps.len() + isups.len()) as u64);
    match rx.0.recv_now() {
        Some(Ok(())) => (),
        x => return Err(format!("registration did not succeed: {r:?} {x:?}")),
    }
    let cm = c.state().get::<Caps>().ok_or("no capabilities in the state")?;
    let got: BTreeMap<_, _> = cm
        .keys()
        .map(|k| {
            let u = cm.get_union_raw(k).unwrap();
            (k.as_bytes().to_vec(), (u.1.as_bytes().to_vec(), *cm.get_extra_raw(k).unwrap()))
        })
        .collect();
    if got != want || cm.len() != want.len() {
        return Err(format!("capabilities {got:?}, expected {want:?}"));
    }
    let im = c.state().get::<ISupportKey>().ok_or("no ISUPPORT in the state")?;
    let gi: BTreeMap<_, _> = im.keys().map(|k| (k.as_bytes().to_vec(), im.get_union_raw(k).unwrap().1.as_bytes().to_vec())).collect();
    if gi != wi || im.len() != wi.len() {
        return Err(format!("ISUPPORT {gi:?}, expected {wi:?}"));
    }
    st.state(&want);
    st.state(&wi);
    st.outcome(&(&want, &wi));
    if !want.is_empty() || !wi.is_empty() {
        st.nontrivial();
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.section("lists", "every list over the structural alphabet");
    words(b"ab= ;:", 0, c.pick(7, 8), |w| {
        c.case(|| show(w), |st| one(&[b"CAP me LS :", w].concat(), st).map(|_| ()));
    });
    words(b"a=\xff\\,-/+", 0, c.pick(5, 6), |w| {
        c.case(|| show(w), |st| one(&[b":s CAP * LS * :x=", w, b" y"].concat(), st).map(|_| ()));
    });
    c.section("long", "long lists");
    for n in 1..=c.pick(120usize, 400) {
        for f in 0..4usize {
            c.case(
                || format!("{n} tokens, form {f}"),
                |st| {
                    let t: Vec<String> = (0..n)
                        .map(|i| match f {
                            0 => format!("cap{i}"),
                            1 => format!("cap{}=v{i}", i % 7),
                            2 => format!("c{}={}", i, "v".repeat(i % 60)),
                            _ => format!("{}={}", "k".repeat(i % 11), i),
                        })
                        .collect();
                    one(format!("CAP me LS :{}", t.join(" ")).as_bytes(), st).map(|_| ())
                },
            );
        }
    }
    c.section("headers", "every combination of header arguments");
    let heads = ["", "*", "me", "a!b", "LS", "ls", "lS", "LIST", "list", "ACK", "AcK", "NAK", "New", "DEL", "END", "REQ", "LSX", "L", "**", ":a"];
    seqs(heads.len(), 0, 3, |ix| {
        for tail in [":a b=c", "a", ":", "", ":a=1 a=2 b"] {
            let mut l = String::from("CAP");
            for i in ix {
                l += " ";
                l += heads[*i];
            }
            l += " ";
            l += tail;
            c.case(|| l.clone(), |st| one(l.as_bytes(), st).map(|_| ()));
        }
    });
    c.section("combine", "every pair and triple of list lines combined");
    let pool: Vec<String> = ["me LS *", "me LS", "you LS", "me NEW", "me ACK *", "me LS *"]
        .iter()
        .enumerate()
        .flat_map(|(i, h)| ["a=1 b", "a=2", "", "b=3 c=4 a"].iter().filter(move |_| true).map(move |t| format!("CAP {h} :{t}{}", if i == 5 { " z" } else { "" })))
        .collect();
    seqs(pool.len(), 1, 3, |ix| {
        c.case(
            || format!("{:?}", ix.iter().map(|i| &pool[*i]).collect::<Vec<_>>()),
            |st| {
                let mut acc: Option<ServerMsgArgs> = None;
                let mut want: (Vec<u8>, &str, bool, BTreeMap<Vec<u8>, Vec<u8>>) = Default::default();
                for i in ix {
                    let g = one(pool[*i].as_bytes(), st)?.ok_or("unparsed")?;
                    let w = (g.nick.as_bytes().to_vec(), sub(g.subcmd), g.is_last, got_caps(&g));
                    match &mut acc {
                        None => {
                            acc = Some(g);
                            want = w;
                        }
                        Some(a) => {
                            let ok = !want.2 && want.0 == w.0 && want.1 == w.1;
                            let r = a.combine(g);
                            if r.is_none() != ok {
                                return Err(format!("combine accepted {}, expected {ok}", r.is_none()));
                            }
                            if let Some(r) = r {
                                if got_caps(&r) != w.3 || r.is_last != w.2 {
                                    return Err("the refused message changed".into());
                                }
                            } else {
                                want.2 = w.2;
                                want.3.extend(w.3);
                            }
                            if (a.nick.as_bytes().to_vec(), sub(a.subcmd), a.is_last, got_caps(a)) != want {
                                return Err(format!("combined {:?}, expected {want:?}", got_caps(a)));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    });
    c.section("names", "every capability and token name");
    macro_rules! caps {
        ($($n:ident = $v:literal,)*) => { $(c.case(|| $v.into(), |st| {
            st.nontrivial();
            let k: Key = ncap::$n.into();
            if k != $v || *ncap::$n.as_raw() != k || ncap::$n::NAME != k || *ncap::$n.as_key() != k || ncap::$n != k {
                return Err(format!("{} names {k}", stringify!($n)));
            }
            let mut m = NameMap::<Cap, bool>::new();
            for o in ["sasl", "msgid", "batch"] {
                m.edit().insert((Key::from_str(o), Word::from_str("o")), false);
            }
            m.edit().insert((Key::from_str($v), Word::from_str("w")), true);
            if m.get_extra(ncap::$n) != Some(&true) || m.get_union(ncap::$n).is_none_or(|u| u.1 != "w") {
                return Err("lookup by name failed".into());
            }
            if m.edit().remove(ncap::$n).is_none() || m.get_union_raw(&Key::from_str($v)).is_some() {
                return Err("removal by name failed".into());
            }
            Ok(())
        });)* };
    }
    caps! {
        ACCOUNT_NOTIFY = "account-notify", ACCOUNT_TAG = "account-tag", BATCH = "batch", CHGHOST = "chghost",
        ECHO_MESSAGE = "echo-message", EXTENDED_JOIN = "extended-join", EXTENDED_MONITOR = "extended-monitor",
        INVITE_NOTIFY = "invite-notify", LABELED_RESPONSE = "labeled-response", MESSAGE_TAGS = "message-tags",
        MSGID = "msgid", MULTI_PREFIX = "multi-prefix", SASL = "sasl", SERVER_TIME = "server-time", SETNAME = "setname",
        STANDARD_REPLIES = "standard-replies", STS = "sts", USERHOST_IN_NAMES = "userhost-in-names",
    }
    for s in [SubCmd::Ls, SubCmd::List, SubCmd::Ack, SubCmd::Nak, SubCmd::New, SubCmd::Del] {
        c.case(
            || format!("{s:?}"),
            |st| {
                st.nontrivial();
                let n = sub(s);
                if s.into_arg() != n || s.into_cmd() != n || SubCmd::from_bytes(n.as_bytes()) != Some(s) {
                    return Err(format!("{s:?} is not {n}"));
                }
                Ok(())
            },
        );
    }
    c.section("sasl", "every list of mechanisms over the alphabet");
    words(b"aB,-=\xe9", 0, c.pick(6, 7), |w| {
        c.case(
            || show(w),
            |st| {
                st.step();
                let want: BTreeSet<Vec<u8>> = w.split(|c| *c == b',').filter(|m| !m.is_empty()).map(|m| m.to_ascii_uppercase()).collect();
                let u = (Key::from_str("sasl"), Word::from_bytes(w).unwrap());
                let got = ncap::SASL::from_union(&u).map_err(|e| e.to_string())?;
                let got: BTreeSet<Vec<u8>> = got.iter().map(|m| m.as_bytes().to_vec()).collect();
                if got != want {
                    return Err(format!("mechanisms {got:?}, expected {want:?}"));
                }
                if want.len() > 1 {
                    st.nontrivial();
                }
                st.outcome(&want);
                Ok(())
            },
        );
    });
    c.section("values", "every value over the value alphabet for every ISUPPORT token");
    let toks = tokens();
    let mut vals: Vec<Vec<u8>> = Vec::new();
    words(b"019+-aZ", 0, c.pick(3, 4), |w| vals.push(w.to_vec()));
    words(b"(ov)@+", 0, c.pick(5, 6), |w| vals.push(w.to_vec()));
    words(b"b,Ak", 0, c.pick(5, 6), |w| vals.push(w.to_vec()));
    for b in 1..=255u8 {
        if !bad_byte(Ty::Word, b) {
            vals.push(vec![b]);
        }
    }
    for v in ["65535", "65536", "065535", "65534", "99999", "4294967295", "4294967296", "00000000001", "18446744073709551617", "4294967297", "\u{e9}x", "(ov)@+", "beI,k,l,imnpst", "8,5", "1.0", "0x10", "\u{663}"] {
        vals.push(v.as_bytes().to_vec());
    }
    vals.push(b"1\xff".to_vec());
    vals.sort();
    vals.dedup();
    for t in &toks {
        c.case(
            || format!("{} name", t.name),
            |st| {
                st.nontrivial();
                if (t.raw)() != t.name.as_bytes() {
                    return Err(format!("{} names {}", t.name, show(&(t.raw)())));
                }
                let mut others: L = toks.iter().filter(|o| o.name != t.name).map(|o| (o.name.as_bytes().to_vec(), b"1".to_vec())).collect();
                if (t.get)(&map_of(&others)).is_some() {
                    return Err(format!("{} found in a table without it", t.name));
                }
                others.push((t.name.as_bytes().to_vec(), b"".to_vec()));
                if (t.get)(&map_of(&others)).is_none() {
                    return Err(format!("{} not found in a table with it", t.name));
                }
                Ok(())
            },
        );
        for v in &vals {
            c.case(
                || format!("{}={}", t.name, show(v)),
                |st| {
                    st.step();
                    let m = map_of(&vec![(t.name.as_bytes().to_vec(), v.clone())]);
                    let want = (t.want)(v);
                    let got = (t.get)(&m).ok_or("token not found")?;
                    if want != V::Any && got != want {
                        return Err(format!("value {got:?}, expected {want:?}"));
                    }
                    if want != V::Bad {
                        st.nontrivial();
                    }
                    st.outcome(&format!("{got:?}"));
                    Ok(())
                },
            );
        }
    }
    c.section("capability lines", "every sequence of capability lines through the real registration");
    let cl: Vec<Ln> = vec![
        Ln::Cap("LS *", "a=1 b"), Ln::Cap("LS *", "b=2 a"), Ln::Cap("LS", "c"), Ln::Cap("LS", "a=3 a=4"), Ln::Cap("NEW", "a=9"), Ln::Cap("NEW", "d b"),
        Ln::Cap("DEL", "a"), Ln::Cap("DEL", "b zz"), Ln::Cap("ACK", "a"), Ln::Cap("ACK", "e b"), Ln::Cap("NAK", "b"),
    ];
    let d = c.pick(4, 5);
    seqs(cl.len(), 0, d, |ix| {
        let ls: Vec<Ln> = ix.iter().map(|i| cl[*i].clone()).collect();
        for tokio in [false, true] {
            if tokio && ix.len() > 2 {
                continue;
            }
            c.case(|| format!("{ls:?} tokio {tokio}"), |st| registration(&ls, &[], true, tokio, st));
        }
    });
    c.section("ISUPPORT lines", "every sequence of ISUPPORT lines through the real registration");
    let il: Vec<Ln> = vec![
        Ln::ISup(&["A"]), Ln::ISup(&["A="]), Ln::ISup(&["A=1", "B=x=y"]), Ln::ISup(&["B", "A=2"]), Ln::ISup(&["-A"]), Ln::ISup(&["A=3", "-A", "B=b"]), Ln::ISup(&["-B", "A=a\\x20b"]),
        Ln::ISup(&["=v", "B=1"]), Ln::ISup(&["A;x=1"]), Ln::ISup(&["-", "C-D=,:"]), Ln::ISup(&["-A", "A", "A=5"]), Ln::ISup(&["NETWORK=Net", "CHANTYPES=#&", "C", "D", "E", "F=1", "G", "H", "I", "J", "K", "L", "-C"]),
    ];
    seqs(il.len(), 1, c.pick(4, 5), |ix| {
        let ls: Vec<Ln> = ix.iter().map(|i| il[*i].clone()).collect();
        for trail in [true, false] {
            if !trail && ix.len() > 3 {
                continue;
            }
            c.case(|| format!("{ls:?} trailing text {trail}"), |st| registration(&[], &ls, trail, false, st));
        }
    });
    c.section("requests", "every vector of capability lengths around the line limit");
    let servers = [None, Some("s"), Some("irc.example.com"), Some("nick!user@host.example.org")];
    let edges: Vec<usize> = vec![1, 2, 100, 230, 245, 250, 470, 480, 490, 495, 500];
    seqs(edges.len(), 0, c.pick(4, 5), |ix| {
        let lens: Vec<usize> = ix.iter().map(|i| edges[*i]).collect();
        for (client, server) in [(None, 0), (Some(2), 1), (Some(9), 2)] {
            c.case(|| format!("{lens:?} client {client:?} server {server}"), |st| req_case(&lens, client, servers[server], st));
        }
    });
    c.section("request edges", "every pair of lengths whose line is near the limit; many equal capabilities");
    for server in 0..servers.len() {
        for client in [None, Some(1), Some(9), Some(30)] {
            for a in [1usize, 50, 200, 300, 400] {
                for total in 400..=515usize {
                    if total <= a {
                        continue;
                    }
                    for pre in [None, Some(3usize)] {
                        let mut lens: Vec<usize> = pre.into_iter().collect();
                        lens.extend([a, total - a, 5]);
                        c.case(|| format!("{lens:?} client {client:?} server {server}"), |st| req_case(&lens, client, servers[server], st));
                    }
                }
            }
            for l in 1..=c.pick(60usize, 120) {
                for n in [1usize, 2, 5, 17, 40, 100, 200] {
                    let lens = vec![l; n];
                    c.case(|| format!("{n} times length {l} client {client:?} server {server}"), |st| req_case(&lens, client, servers[server], st));
                }
            }
        }
    }
}
