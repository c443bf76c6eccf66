//! C08: secrets stay secret through every derivation.
use crate::engine::*;
use std::borrow::Cow;
use std::fmt::Write as _;
use vinezombie::client::auth::{sasl, AnySasl, Clear, LoadSecret, Secret};
use vinezombie::client::register::Options;
use vinezombie::ircmsg::*;
use vinezombie::owning::MakeOwning;
use vinezombie::string::base64::ChunkEncoder;
use vinezombie::string::tf::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C08",
    rule: "every chain of derivations up to the bound from every representation of a secret, run in parallel on two secrets of equal shape: everything formatted must be identical for both (non-interference), Display is the placeholder, the secret flag is set; non-trivial: the derived string is not empty",
    assumptions: &["extracting raw bytes or a str view (as_bytes, to_utf8, into_vec, Cow) is an explicit disclosure and leaves the protected domain"],
};

// Pairs of equal shape (same byte classes at each position).
const PAIRS: &[(&[u8], &[u8])] = &[
    (b"Zq7Zq8", b"Xk3Xk4"),
    (b" Zq7 Zq8 ", b" Xk3 Xk4 "),
    (b"Zq7\\sZq8;\\", b"Xk3\\sXk4;\\"),
    ("Zqé7".as_bytes(), "Xkü3".as_bytes()),
    (b"Zq\xff7Zq", b"Xk\xfe3Xk"),
    (b"AUTHX", b"QUIZZ"),
    (b"!Z@q,:7", b"!X@k,:3"),
    (b"Z", b"X"),
];

fn reprs(b: &[u8]) -> Vec<Bytes<'_>> {
    let mut sb = SecretBuf::with_capacity(1);
    sb.push_slice(b);
    let known = Bytes::from_bytes(b);
    let _ = known.to_utf8();
    vec![
        Bytes::from_bytes(b).secret(),
        Bytes::from(b.to_vec()).secret(),
        Bytes::from_secret(b.to_vec()),
        sb.clone().into_bytes(),
        SecretBuf::from(b.to_vec()).into_bytes(),
        Bytes::from_bytes(b).secret().owning(),
        known.secret(),
        {
            let c = Bytes::from(b.to_vec());
            let d = c.clone();
            let s = c.secret();
            drop(d);
            s
        },
    ]
}

pub struct Half;
pub struct Fresh;
struct Nothing;
unsafe impl Transform for Half {
    type Value = ();
    fn transform<'a>(self, b: &Bytes<'a>) -> Transformation<'a, ()> {
        let s = unsafe { b.as_bytes_unsafe() };
        Transformation { value: (), transformed: Cow::Borrowed(&s[s.len() / 2..]), utf8: Utf8Policy::Recheck }
    }
}
unsafe impl Transform for Fresh {
    type Value = ();
    fn transform<'a>(self, b: &Bytes<'a>) -> Transformation<'a, ()> {
        let mut v = b.as_bytes().to_vec();
        v.reverse();
        Transformation { value: (), transformed: Cow::Owned(v), utf8: Utf8Policy::Recheck }
    }
}
unsafe impl Transform for Nothing {
    type Value = ();
    fn transform<'a>(self, _: &Bytes<'a>) -> Transformation<'a, ()> {
        Transformation::empty(())
    }
}

pub const NOPS: usize = 34;
/// Applies one derivation; the result list holds every derived string (the first continues the chain).
pub fn derive<'a>(v: Bytes<'a>, op: usize, fmt: &mut String) -> Vec<Bytes<'a>> {
    macro_rules! via { ($($t:ident),*) => {{
        let mut out = Vec::new();
        $( if let Ok(x) = $t::from_bytes(v.clone()) {
            let _ = write!(fmt, "{x}|{x:?}|{x:#?}");
            out.push(x.clone().into_bytes());
            out.push(x.clone().owning().into_bytes());
            let mut y = x.clone();
            y.make_owning();
            out.push(y.into_bytes());
            out.push(x.secret().into_bytes());
        } )*
        out
    }}; }
    macro_rules! sup { ($t:ident) => {{
        match $t::from_bytes(v.clone()) {
            Ok(x) => vec![x.into_super().into()],
            Err(_) => vec![],
        }
    }}; }
    match op {
        0 => vec![v.clone()],
        1 => vec![v.owning()],
        2 => {
            let mut v = v;
            v.make_owning();
            vec![v]
        }
        3 => vec![v.secret()],
        4 => vec![v.into_utf8_lossy()],
        5 => vec![v.to_base64().into_bytes()],
        6 => vec![v.to_base64_plus().into_bytes()],
        7 => {
            let mut v = v;
            v.transform(AsciiCasemap::<true>);
            vec![v]
        }
        8 => {
            let mut v = v;
            v.transform(IrcCasemap::Rfc1459);
            vec![v]
        }
        9 => {
            let mut v = v;
            v.transform(TrimAscii(StringSide::StartFirst));
            vec![v]
        }
        10 => {
            let mut v = v;
            v.transform(Half);
            vec![v]
        }
        11 => {
            let mut v = v;
            v.transform(Fresh);
            vec![v]
        }
        12 => {
            let mut v = v;
            v.transform(Nothing);
            vec![v]
        }
        13 => {
            let mut s = Splitter::new(v);
            let a = s.string_or_default::<Word>(false);
            let mut out = vec![];
            if !a.is_empty() {
                out.push(a.into_bytes());
            }
            s.consume_whitespace();
            let _ = write!(fmt, "{s:?}");
            out.push(s.peek_rest::<Bytes>().unwrap());
            out.push(s.rest::<Bytes>().unwrap());
            out
        }
        14 => {
            let mut s = Splitter::new(v);
            s.next_byte();
            s.rnext_byte();
            let mut out = vec![s.peek_rest::<Bytes>().unwrap()];
            out.push(s.save(true, true).until_count(1).rest::<Bytes>().unwrap());
            out.push(s.save(true, true).until_byte_eq(b'7').rest::<Bytes>().unwrap());
            let l = s.string::<Line>(true);
            out.extend(l.ok().map(|l| l.into_bytes()));
            out
        }
        15 => match Arg::from_bytes(v) {
            Ok(a) => {
                let mut s = Splitter::new(a);
                let mut out = vec![];
                out.extend(s.peek_string::<Nick>(false).ok().map(|x| x.into_bytes()));
                out.extend(s.peek_string::<Key>(false).ok().map(|x| x.into_bytes()));
                out.extend(s.peek_string::<User>(false).ok().map(|x| x.into_bytes()));
                out.extend(s.peek_string::<Target>(false).ok().map(|x| x.into_bytes()));
                out.extend(s.string::<Word>(true).ok().map(|x| x.into_bytes()));
                out
            }
            Err(_) => vec![],
        },
        16 => via!(NoNul, Line),
        17 => via!(Word, Arg),
        18 => via!(Key, Target, Nick),
        19 => via!(User, Cmd),
        20 => match NoNul::from_bytes(v) {
            Ok(x) => vec![escape(x).into_bytes()],
            Err(_) => vec![],
        },
        21 => match NoNul::from_bytes(v) {
            Ok(x) => vec![unescape(x).into_bytes()],
            Err(_) => vec![],
        },
        22 => match Word::from_bytes(v) {
            Ok(x) => Cmd::from_word(x).ok().map(|c| c.into_bytes()).into_iter().collect(),
            Err(_) => vec![],
        },
        23 => match Arg::from_bytes(v) {
            Ok(x) => Nick::from_arg(x).ok().map(|c| c.into_bytes()).into_iter().collect(),
            Err(_) => vec![],
        },
        24 => match NoNul::from_bytes(v) {
            Ok(x) => {
                let mut t = Tags::new();
                t.edit().insert_pair(Key::from_str("k"), x);
                let _ = write!(fmt, "{t}|{t:?}");
                let c = t.clone().owning();
                vec![c.get("k").unwrap().clone().into_bytes(), t.get("k").unwrap().clone().into_bytes()]
            }
            Err(_) => vec![],
        },
        25 => match Line::from_bytes(v) {
            Ok(x) => {
                let mut m = ClientMsg::new_cmd(Cmd::from_str("CMD"));
                m.args.edit().add(x);
                let _ = write!(fmt, "{m}|{m:?}|{}", m.args);
                let g = |m: &ClientMsg| -> Bytes<'static> {
                    let (w, l) = m.args.split_last();
                    let _ = w;
                    l.unwrap().clone().owning().into_bytes()
                };
                vec![g(&m), g(&m.clone()), g(&m.owning())]
            }
            Err(_) => vec![],
        },
        26 => match Arg::from_bytes(v) {
            Ok(x) => {
                let mut m = ServerMsg::new_num(Numeric::from_int(1).unwrap(), SharedSource::new(Source::new_server(Nick::from_str("srv"))), Nick::from_str("me"));
                m.args.edit().add_word(x);
                let _ = write!(fmt, "{m}|{m:?}");
                let g = |m: &ServerMsg| -> Bytes<'static> { m.args.words().last().unwrap().clone().owning().into_bytes() };
                vec![g(&m), g(&m.clone()), g(&m.owning())]
            }
            Err(_) => vec![],
        },
        27 => sup!(Nick),
        28 => sup!(Cmd),
        29 => sup!(Arg),
        30 => match Line::from_bytes(v) {
            // Arguments split out of a secret line.
            Ok(x) => {
                let a = Args::parse(x);
                let _ = write!(fmt, "{a}|{a:?}");
                let (w, l) = a.split_last();
                w.iter().map(|w| w.clone().into_bytes()).chain(l.map(|l| l.clone().into_bytes())).collect()
            }
            Err(_) => vec![],
        },
        31 => match Nick::from_bytes(v) {
            Ok(n) => {
                let s = Source::new_server(n);
                let _ = write!(fmt, "{s}|{s:?}");
                let m = s.clone().owning_merged();
                let _ = write!(fmt, "{m}|{m:?}");
                vec![m.nick.into_bytes(), s.owning().nick.into_bytes()]
            }
            Err(_) => vec![],
        },
        32 => match NoNul::from_bytes(v) {
            Ok(n) => {
                let mut b = Builder::<NoNul>::new(n.clone());
                let _ = b.try_push(b'.');
                let _ = write!(fmt, "{b:?}");
                let mut c = Builder::<NoNul>::new(NoNul::from_str("x"));
                c.append(n.clone());
                let mut d = Builder::<NoNul>::default();
                d.append(n);
                let _ = d.try_append(b"..");
                let _ = write!(fmt, "{c:?}{d:?}");
                vec![b.build().into_bytes(), c.build().into_bytes(), d.build().into_bytes()]
            }
            Err(_) => vec![],
        },
        _ => ChunkEncoder::new(v.as_bytes(), 5, v.is_secret()).map(|a| a.into_bytes()).collect(),
    }
}

fn class(c: &u8) -> u8 {
    match c {
        b'A'..=b'Z' => b'A',
        b'a'..=b'z' => b'a',
        b'0'..=b'9' => b'0',
        0x80.. => 0x80,
        c => *c,
    }
}
fn formatted(b: &Bytes, s: &mut String) -> R {
    let d = format!("{b}");
    if d != DISPLAY_PLACEHOLDER {
        return Err(format!("Display of a secret shows {d:?}"));
    }
    let _ = write!(s, "{d}|{b:?}|{b:#?}|{b:>20}|{:5}", b);
    Ok(())
}

fn chain(p: (&[u8], &[u8]), rep: usize, ops: &[usize], st: &mut Stats) -> R {
    let mut out = Vec::new();
    for b in [p.0, p.1] {
        let mut fmt = String::new();
        let mut v = reprs(b).swap_remove(rep);
        let mut shape: Vec<(usize, bool, Vec<u8>)> = Vec::new();
        let mut contents = vec![v.as_bytes().to_vec()];
        for (i, op) in ops.iter().enumerate() {
            if !v.is_secret() {
                return Err("the start is not secret".into());
            }
            formatted(&v, &mut fmt)?;
            let r = derive(v.clone(), *op, &mut fmt);
            st.step();
            for d in &r {
                if !d.is_secret() {
                    return Err(format!("derivation {op} (step {i}) gives a non-secret {}", show(d)));
                }
                formatted(d, &mut fmt)?;
                shape.push((d.len(), d.is_owning(), d.iter().map(class).collect()));
                contents.push(d.as_bytes().to_vec());
                if !d.is_empty() {
                    st.nontrivial();
                }
            }
            match r.into_iter().next() {
                Some(d) => v = d,
                None => break,
            }
        }
        for c in contents.iter().filter(|c| c.len() >= 3) {
            if fmt.contains(&*String::from_utf8_lossy(c)) || fmt.contains(&format!("{c:?}")) {
                return Err(format!("formatted output shows {}: {fmt:?}", show(c)));
            }
        }
        out.push((fmt, shape));
    }
    // A derivation (base64, say) may depend on the shape; with equal shapes all output is equal.
    if out[0].1 == out[1].1 && out[0].0 != out[1].0 {
        return Err(format!("formatted output depends on the secret: {:?} vs {:?}", out[0].0, out[1].0));
    }
    st.outcome(&out[0].0);
    Ok(())
}

fn wire(b: &[u8], st: &mut Stats) -> R {
    let Ok(l) = Line::from_bytes(b) else { return Ok(()) };
    for rep in 0..8 {
        let s = Line::from_bytes(reprs(b).swap_remove(rep)).unwrap();
        let mut outs = Vec::new();
        for x in [l.clone(), s] {
            let mut m = ClientMsg::new_cmd(Cmd::from_str("PASS"));
            m.tags.edit().insert_pair(Key::from_str("t"), x.clone());
            m.args.edit().add(x.clone());
            let mut w = Vec::new();
            m.send_to(&mut w, &mut Vec::new()).map_err(|e| e.to_string())?;
            let mut sm = ServerMsg::new_num(Numeric::from_int(1).unwrap(), SharedSource::new(Source::new_server(Nick::from_str("srv"))), Nick::from_str("me"));
            sm.args.edit().add(x);
            sm.send_to(&mut w, &mut Vec::new()).map_err(|e| e.to_string())?;
            outs.push(w);
        }
        st.step();
        if outs[0] != outs[1] {
            return Err(format!("wire bytes change with secrecy: {} vs {}", show(&outs[0]), show(&outs[1])));
        }
    }
    st.nontrivial();
    Ok(())
}

/// Builders fed with plain and secret pieces in any order.
fn builders(init: usize, ops: &[usize], st: &mut Stats) -> R {
    let mut shown = Vec::new();
    for b in [&b"Hunter2!"[..], b"Passwd9?"] {
        let sec = || NoNul::from_bytes(Bytes::from_secret(b.to_vec())).unwrap();
        let (mut x, mut secret, mut want) = match init {
            0 => (Builder::<NoNul>::default(), false, vec![]),
            1 => (Builder::<NoNul>::new(NoNul::from_str("x")), false, b"x".to_vec()),
            2 => (Builder::<NoNul>::new(NoNul::from_bytes(b"\xff".to_vec()).unwrap()), false, b"\xff".to_vec()),
            _ => (Builder::<NoNul>::new(sec()), true, b.to_vec()),
        };
        let mut fmt = String::new();
        for op in ops {
            match op {
                0 => {
                    x.append(sec());
                    secret = true;
                    want.extend(b);
                }
                1 => {
                    x.append(NoNul::from_bytes(b).unwrap().secret());
                    secret = true;
                    want.extend(b);
                }
                2 => x.append(NoNul::default()),
                3 => {
                    x.append(NoNul::from_str("yz"));
                    want.extend(b"yz");
                }
                4 => {
                    x.append(NoNul::from_bytes(b"\xc3".to_vec()).unwrap());
                    want.extend(b"\xc3");
                }
                5 => {
                    x.try_append(b"q\xff").unwrap();
                    want.extend(b"q\xff");
                }
                6 => {
                    x.try_push(b'_').unwrap();
                    want.push(b'_');
                }
                7 => {
                    x.try_push_char('é').unwrap();
                    x.try_append_str("w").unwrap();
                    want.extend("éw".as_bytes());
                }
                8 => {
                    x.reserve(100);
                    let _ = x.check_utf8();
                }
                9 => x = x.clone(),
                10 => {
                    x.shrink_to_fit();
                    x.reserve_exact(3);
                }
                _ => x = Builder::new(x.build()),
            }
            if secret {
                let _ = write!(fmt, "{x:?}|");
            }
        }
        let v = x.build();
        if v.as_bytes() != want {
            return Err(format!("built {}, expected {}", show(v.as_bytes()), show(&want)));
        }
        if secret {
            st.nontrivial();
            if !v.is_secret() {
                return Err("a string built from a secret piece is not secret".into());
            }
            let _ = write!(fmt, "{v}|{v:?}");
        }
        st.steps(ops.len() as u64 + 1);
        shown.push(fmt);
    }
    if shown[0] != shown[1] {
        return Err(format!("formatted output depends on the secret: {} vs {}", shown[0], shown[1]));
    }
    Ok(())
}

#[derive(Debug, Clone)]
struct Ld;
thread_local!(static LD: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) });
impl LoadSecret for Ld {
    fn load_secret(self, data: &mut SecretBuf) -> std::io::Result<()> {
        LD.with(|l| data.push_slice(&l.borrow()));
        Ok(())
    }
}

fn configs(b: (&[u8], &[u8]), st: &mut Stats) -> R {
    let mut out = Vec::new();
    for x in [b.0, b.1] {
        LD.with(|l| *l.borrow_mut() = x.to_vec());
        let mut o: Options<Ld> = Options::new();
        let Ok(l) = Line::from_bytes(x) else { return Ok(()) };
        o.set_pass(l.clone().owning()).map_err(|e| format!("{e:?}"))?;
        let sec: Secret<NoNul<'static>, Ld> = Secret::load(Ld).map_err(|e| e.to_string())?;
        let sec2: Secret<Bytes<'static>, Ld> = Secret::load(Ld).map_err(|e| e.to_string())?;
        let pw = sasl::Password::new(NoNul::from_str("user"), sec.clone());
        let any: AnySasl<Ld> = AnySasl::Password(pw.clone());
        o.sasl.push(any.clone());
        let f = format!("{o:?}|{:?}|{sec:?}|{}|{sec2:?}|{pw:?}|{any:?}", o.pass, &*sec);
        if !sec.is_secret() || !sec2.is_secret() || !o.pass.as_ref().unwrap().is_secret() {
            return Err("a loaded secret is not secret".into());
        }
        out.push(f);
        st.step();
    }
    if out[0] != out[1] {
        return Err(format!("configuration output depends on the secret: {} vs {}", out[0], out[1]));
    }
    st.nontrivial();
    Ok(())
}

/// Records what a message in the queue shows, and keeps all of them.
struct Record(std::rc::Rc<std::cell::RefCell<(Vec<String>, usize)>>);
// The client stays on this thread.
unsafe impl Send for Record {}
impl vinezombie::client::queue::Adjuster for Record {
    fn update(&mut self, m: &mut vinezombie::ircmsg::ClientMsg<'_>) -> bool {
        let mut r = self.0.borrow_mut();
        let (ws, last) = m.args.split_last();
        for a in ws.iter().map(|a| a.clone().into()).chain(last.cloned()) {
            let a: Line = a;
            r.1 += a.is_secret() as usize;
            r.0.push(format!("{a:?}{a}"));
        }
        let text = format!("{m:?}|{:?}|{:?}|{:?}", m.clone(), m.args, m.clone().owning());
        r.0.push(text);
        true
    }
    fn reset(&mut self) {}
}

struct AnyMech(Box<dyn vinezombie::client::auth::Sasl>);
impl vinezombie::client::auth::Sasl for AnyMech {
    fn logic(&self) -> Vec<Box<dyn vinezombie::client::auth::SaslLogic>> {
        self.0.logic()
    }
}

/// What the messages of a login show while they wait in the queue.
fn login(kind: usize, secret: &str, whole: bool, shown: &mut Vec<String>) -> Result<usize, String> {
    use super::world;
    use vinezombie::client::{auth::Sasl, auth::SaslQueue, channel::SyncChannels, register::register_as_client, Client};
    use vinezombie::names::cmd::AUTHENTICATE;
    crate::vclock::on();
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(std::time::Duration::from_secs(1_000_000), 0);
    c.set_read_timeout(Some(std::time::Duration::from_secs(1)));
    let rec = std::rc::Rc::new(std::cell::RefCell::new((Vec::new(), 0)));
    c.queue_mut().use_adjuster(Record(rec.clone()));
    // Takes the only token, so that everything else waits.
    c.queue_mut().edit().push(vinezombie::ircmsg::ClientMsg::parse("PING :x").unwrap());
    let sec = || Secret::<NoNul<'static>, Clear>::new(NoNul::from_bytes(secret.as_bytes().to_vec()).unwrap());
    let any = match kind {
        0 => AnyMech(Box::new(sasl::Password::new(NoNul::from_str("user"), sec()))),
        1 => AnyMech(Box::new(sasl::Plain::new(NoNul::from_str("user"), sec()))),
        _ => {
            let mut p = sasl::Plain::new(NoNul::from_str("user"), sec());
            p.authzid = NoNul::from_str("z");
            AnyMech(Box::new(p))
        }
    };
    let mut o: Options<Clear, AnyMech> = Options::new();
    let mut lines = vec!["AUTHENTICATE +", ":s NOTICE * :x"];
    let _rx: Box<dyn std::any::Any> = if whole {
        o.nicks = vec![Nick::from_str("me")];
        o.username = Some(User::from_str("u"));
        o.realname = Some(Line::from_str("r"));
        o.set_pass(Line::from_bytes(secret.as_bytes().to_vec()).unwrap()).map_err(|e| format!("{e:?}"))?;
        o.sasl.push(any);
        lines.splice(0..0, [":s CAP * LS :sasl=PLAIN", ":s CAP * ACK :sasl"]);
        Box::new(c.add(&register_as_client(), &o).map_err(|e| format!("{e:?}"))?)
    } else {
        let q: SaslQueue = [&any as &dyn Sasl].into_iter().collect();
        Box::new(c.add(AUTHENTICATE, q).map_err(|_| "no handler")?)
    };
    for l in lines {
        sh.borrow_mut().feed(format!("{l}\r\n"));
        if world::run(&mut c, &sh, false) != world::Ran::Timeout {
            return Err("the login ended early".into());
        }
        shown.push(format!("{:?}", c.queue_mut()));
    }
    let mut r = rec.borrow_mut();
    shown.append(&mut r.0);
    Ok(r.1)
}

fn logins(kind: usize, n: usize, whole: bool, st: &mut Stats) -> R {
    let mut out = Vec::new();
    for c in ["Secret7words", "Others4letts"] {
        let s: String = c.chars().cycle().take(n).collect();
        let mut shown = Vec::new();
        let secrets = login(kind, &s, whole, &mut shown)?;
        if secrets == 0 {
            return Err("no argument of the login is secret".into());
        }
        st.steps(shown.len() as u64);
        out.push(shown);
    }
    st.nontrivial();
    if let Some((a, b)) = out[0].iter().zip(&out[1]).find(|(a, b)| a != b) {
        return Err(format!("queued messages show the secret: {a} vs {b}"));
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("chains", "8 pairs of secrets x 8 representations x every chain of 34 derivations to depth 3 (thorough 4)");
    for (pi, p) in PAIRS.iter().enumerate() {
        for rep in 0..8 {
            seqs(NOPS, 0, ctx.pick(3, 4), |ix| {
                if ix.len() == 4 && rep > 2 {
                    return;
                }
                ctx.case(|| format!("secret {} representation {rep} derivations {ix:?}", show(PAIRS[pi].0)), |st| chain(*p, rep, ix, st));
            });
        }
    }
    ctx.section("lengths", "secrets of every length 1..=130 (thorough 600) x 8 representations x every derivation, and every pair of derivations for lengths around powers of two");
    let leak = |s: Vec<u8>| -> &'static [u8] { s.leak() };
    for n in 1..=ctx.pick(130usize, 600) {
        let f = |c: &[u8]| leak((0..n).map(|i| c[i % c.len()]).collect());
        let p = (f(b"Secret7words"), f(b"Others4letts"));
        let two = [9, 16, 33, 64, 129].contains(&n);
        for rep in 0..8 {
            seqs(NOPS, 1, if two && rep < 3 { 2 } else { 1 }, |ix| {
                ctx.case(|| format!("length {n} representation {rep} derivations {ix:?}"), |st| chain(p, rep, ix, st));
            });
        }
    }
    ctx.section("builders", "4 initial values x every sequence of 12 builder operations with secret and plain pieces to depth 4 (thorough 5)");
    for init in 0..4 {
        seqs(12, 1, ctx.pick(4, 5), |ix| {
            ctx.case(|| format!("init {init} ops {ix:?}"), |st| builders(init, ix, st));
        });
    }
    ctx.section("wire", "wire bytes of messages with secret parts equal those with plain parts: every string of length 0..=3 over 9 bytes x 8 representations");
    words(b"Za :;\\,\xc3\xff", 0, 3, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| wire(&w, st));
    });
    ctx.section("configs", "registration options, loaded secrets and SASL password configuration do not show secrets");
    for p in PAIRS {
        ctx.case(|| show(p.0), |st| configs(*p, st));
    }
    ctx.section("logins", "the messages of a login, alone and within registration, as they wait in the queue: 3 mechanisms x password lengths 1..=60 and around multiples of the chunk size");
    for n in 1..=ctx.pick(930usize, 1830) {
        if n > 60 && n % 300 > 6 && n % 300 < 286 && n % 25 != 0 {
            continue;
        }
        for k in 0..3 {
            for whole in [false, true] {
                if whole && n > 480 {
                    continue;
                }
                ctx.case(|| format!("mechanism {k} length {n} registration {whole}"), |st| logins(k, n, whole, st));
            }
        }
    }
}
