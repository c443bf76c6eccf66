//! C30: displayed text, message kinds, numerics and server addresses agree with the wire.
use super::irc::*;
use crate::engine::*;
use std::borrow::Borrow;
use std::hash::{Hash, Hasher};
use vinezombie::client::conn::ServerAddr;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C30",
    rule: "all 65536 integers and all strings of up to 4 bytes over digits and edge bytes as numerics, all numerics and a grid of commands as message kinds compared pairwise with texts, Display of every message of a grid against its wire bytes, all pairs of a grid of server addresses; non-trivial: the value is valid",
    assumptions: &["the wire form is what write_to writes (C01)"],
};

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn want_error(n: u16) -> Option<bool> {
    match n {
        0..=399 => Some(false),
        400..=568 => Some(true),
        // Generally standard numerics beyond: STARTTLS, WHOIS secure, HELP, RSA challenge, SASL.
        691 | 696 | 723 | 902 | 904..=907 => Some(true),
        670 | 671 | 704..=706 | 740 | 741 | 900 | 901 | 903 | 908 => Some(false),
        _ => None,
    }
}

fn numeric(n: u16, st: &mut Stats) -> R {
    let want = (n < 1000).then(|| format!("{n:03}"));
    let a = Numeric::from_int(n);
    let b = Numeric::try_from(n).ok();
    if a != b || a.is_some() != want.is_some() {
        return Err(format!("from_int gives {a:?}, try_from {b:?}"));
    }
    st.step();
    let (Some(x), Some(w)) = (a, want) else { return Ok(()) };
    st.nontrivial();
    if x.as_str() != w || x.as_bytes() != w.as_bytes() || x.to_string() != w || x.into_int() != n || u16::from(x) != n {
        return Err(format!("converts to {:?}, {:?}, {}, {}", x.as_str(), x.as_bytes(), x, x.into_int()));
    }
    let (s, y): (&str, &[u8]) = (x.as_ref(), x.as_ref());
    let z: &[u8] = x.borrow();
    if s != w || y != w.as_bytes() || z != y || hash(&x) != hash(y) {
        return Err("as_ref, borrow or hash disagree with the digits".into());
    }
    let mut o = Vec::new();
    x.write_to(&mut o).unwrap();
    if o != w.as_bytes() {
        return Err(format!("written as {}", show(&o)));
    }
    // 'Select numerics' above 568 may be classified; those that are must be right.
    let e = x.is_error();
    if n < 569 && e != want_error(n) {
        return Err(format!("is_error gives {e:?}, documented {:?}", want_error(n)));
    }
    if n >= 569 && want_error(n).is_some() && e != want_error(n) {
        return Err(format!("is_error gives {e:?}, expected {:?}", want_error(n)));
    }
    if want_error(n).is_none() && e == Some(true) && !(569..=599).contains(&n) && !(691..=699).contains(&n) {
        return Err("is_error claims an error for a numeric that is not a known error".into());
    }
    if ServerMsgKindRaw::Numeric(x).is_error() != e {
        return Err("the message kind is classified differently".into());
    }
    Ok(())
}

fn numtext(t: &[u8], st: &mut Stats) -> R {
    let want = t.len() == 3 && t.iter().all(|c| c.is_ascii_digit());
    let n = Numeric::from_bytes(t);
    st.step();
    if n.is_some() != want {
        return Err(format!("from_bytes gives {n:?}"));
    }
    if let Some(n) = n {
        st.nontrivial();
        if n.as_bytes() != t {
            return Err(format!("from_bytes gives {n}"));
        }
    }
    Ok(())
}

fn kind(t: &str, others: &[String], st: &mut Stats) -> R {
    let mk = |t: &str| -> ServerMsgKindRaw<'static> {
        match Numeric::from_bytes(t.as_bytes()) {
            Some(n) => n.into(),
            None => Cmd::from_bytes(t.to_string()).unwrap().into(),
        }
    };
    let k = mk(t);
    st.nontrivial();
    if k.as_str() != t || k.as_arg() != t || k.len() != t.len() {
        return Err(format!("as_str {:?}, as_arg {:?}, len {}", k.as_str(), k.as_arg(), k.len()));
    }
    let b: &[u8] = k.borrow();
    if b != t.as_bytes() || hash(&k) != hash(b) {
        return Err("borrowed bytes or hash disagree with the text".into());
    }
    let line = ServerMsg::parse(Line::from_bytes(t.to_string()).unwrap()).map_err(|e| e.to_string())?;
    if line.kind != k {
        return Err(format!("a message {t} is of kind {:?}", line.kind));
    }
    if Numeric::from_bytes(t.as_bytes()).is_none() && k.is_error() != Some(t == "FAIL" || t == "ERROR") {
        return Err(format!("is_error gives {:?}", k.is_error()));
    }
    for o in others {
        st.step();
        let eq = t == o;
        let num = Numeric::from_bytes(o.as_bytes());
        let cmd = Cmd::from_bytes(o.clone()).ok();
        let ok = (k == **o) == eq
            && (k == o.as_str()) == eq
            && (k == *o.as_bytes()) == eq
            && (k == o.as_bytes()) == eq
            && num.is_none_or(|n| (k == n) == eq)
            && cmd.is_none_or(|c| (k == c) == eq)
            && (k == mk(o)) == eq
            && (k.cmp(&mk(o)) == std::cmp::Ordering::Equal) == eq
            && k.cmp(&mk(o)) == t.cmp(o);
        if !ok {
            return Err(format!("comparison with {o} is wrong"));
        }
    }
    Ok(())
}

fn display(line: &[u8], st: &mut Stats) -> R {
    let l = || Line::from_bytes(line.to_vec()).unwrap();
    let txt = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
    let eq = |what: &str, got: String, wire: Vec<u8>| -> R {
        // Strings that are not UTF-8 are shown as a placeholder.
        let utf8 = std::str::from_utf8(&wire).is_ok();
        let w = txt(wire);
        if utf8 && got != w {
            return Err(format!("{what} is displayed as {got:?}, written as {w:?}"));
        }
        Ok(())
    };
    for owned in [false, true] {
        if let Ok(m) = ServerMsg::parse(l()) {
            let m = if owned { m.owning() } else { m };
            st.nontrivial();
            st.step();
            let mut w = Vec::new();
            ServerCodec::write_to(&m, &mut w).unwrap();
            eq("message", m.to_string(), w)?;
            let mut w = Vec::new();
            m.tags.write_to(&mut w).unwrap();
            eq("tags", m.tags.to_string(), w)?;
            if let Some(s) = &m.source {
                let mut w = Vec::new();
                s.write_to(&mut w).unwrap();
                eq("source", s.to_string(), w.clone())?;
                eq("source", (**s).to_string(), w)?;
                if let Some(u) = &s.userhost {
                    let mut w = Vec::new();
                    u.write_to(&mut w).unwrap();
                    if w.len() != u.len() {
                        return Err("length of a userhost".into());
                    }
                    eq("userhost", u.to_string(), w)?;
                    if u.has_ident() != !u.user.as_ref().is_some_and(|u| u.starts_with(b"~")) {
                        return Err(format!("has_ident of {u} is {}", u.has_ident()));
                    }
                }
            }
            let a = m_args_text(&v_args(&m.args), m.args.is_last_long());
            eq("arguments", m.args.to_string(), a)?;
        }
        if let Ok(m) = ClientMsg::parse(l()) {
            let m = if owned { m.owning() } else { m };
            st.step();
            let mut w = Vec::new();
            ClientCodec::write_to(&m, &mut w).unwrap();
            eq("client message", m.to_string(), w)?;
        }
    }
    Ok(())
}
fn m_args_text(a: &[Vec<u8>], long: bool) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            o.push(b' ');
        }
        if long && i + 1 == a.len() {
            o.push(b':');
        }
        o.extend(x);
    }
    o
}

type A = (&'static str, bool, Option<u16>);
fn addr(a: A, all: &[A], st: &mut Stats) -> R {
    let mk = |a: A| ServerAddr { address: Word::from_str(a.0), tls: a.1, port: a.2 };
    let port = |a: A| a.2.unwrap_or(if a.1 { 6697 } else { 6667 });
    let x = mk(a);
    if x.port_num() != port(a) {
        return Err(format!("port {} instead of {}", x.port_num(), port(a)));
    }
    if a.1 && a.2.is_none() && (ServerAddr::from_host(a.0).ok() != Some(mk(a)) || ServerAddr::from_host_str(a.0) != mk(a)) {
        return Err("from_host gives another address".into());
    }
    st.nontrivial();
    let t = x.to_word();
    if !t.starts_with(a.0.as_bytes()) || !t.ends_with(port(a).to_string().as_bytes()) {
        return Err(format!("printed as {t}"));
    }
    for b in all {
        st.step();
        let y = mk(*b);
        let eq = (a.0, a.1, port(a)) == (b.0, b.1, port(*b));
        if (x == y) != eq {
            return Err(format!("comparison with {b:?} gives {}", x == y));
        }
        if eq && hash(&x) != hash(&y) {
            return Err(format!("equal to {b:?} but hashed differently"));
        }
        if (t == y.to_word()) != eq {
            return Err(format!("printed as {t}, and {b:?} as {}", y.to_word()));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("numerics", "all 65536 integers");
    for n in 0..=u16::MAX {
        ctx.case(|| format!("integer {n}"), |st| numeric(n, st));
    }
    ctx.section("numeric text", "all strings of length 0..=4 over the digits and 9 other bytes");
    words(b"0123456789/: +-a\x00\xb2\xff", 0, 4, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| numtext(&w, st));
    });
    ctx.section("kinds", "all 1000 numerics and 12 commands, each compared with all 12 commands and 40 numerics in every form");
    let cmds = ["PING", "PRIVMSG", "ERROR", "FAIL", "ERRORS", "FAI", "A", "Z", "WARN", "NOTE", "ERRO", "PIN"];
    let mut others: Vec<String> = cmds.iter().map(|c| c.to_string()).collect();
    for n in (0..1000).step_by(27) {
        others.push(format!("{n:03}"));
    }
    for t in (0..1000).map(|n| format!("{n:03}")).chain(cmds.iter().map(|c| c.to_string())) {
        ctx.case(|| t.clone(), |st| {
            let mut o = others.clone();
            o.push(t.clone());
            kind(&t, &o, st)
        });
    }
    ctx.section("display", "a grid of tags x source x kind x arguments, with bytes that are not UTF-8");
    let tags: &[&[u8]] = &[b"", b"@a=b ", b"@k;x=\\s\\:y ", b"@a=;b=\\\\;+c/d=e\\ ", b"@a=\xff\xc3;b=\xc3\xa9 ", b"@a;b;c "];
    let sources: &[&[u8]] = &[b"", b":srv.x ", b":n!u@h ", b":n@h.y ", b":n\xc3!~u@h\xff ", b":n!\xc3\xa9~@h "];
    let kinds: &[&[u8]] = &[b"PRIVMSG", b"001", b"ping", b"999"];
    let args: &[&[u8]] = &[b"", b" a", b" a b", b" a :x y", b" :", b" a :", b" a ::x", b" \xff :\xc3 \xa9", b" a\xc3 b", b" :one", b" a b c :d  e "];
    for t in tags {
        for s in sources {
            for k in kinds {
                for a in args {
                    let line = [*t, *s, *k, *a].concat();
                    ctx.case(|| show(&line), |st| display(&line, st));
                }
            }
        }
    }
    ctx.section("addresses", "all pairs of a grid of host x TLS x port");
    let mut all: Vec<A> = Vec::new();
    for h in ["h", "h1", "h16", "irc.x.org", "::1", "127.0.0.1", "127.0.0.16", "h:1", "h:", "h:+", "h+", "+"] {
        for tls in [false, true] {
            for p in [None, Some(0), Some(1), Some(7), Some(16), Some(667), Some(6667), Some(6697), Some(16667), Some(65535)] {
                all.push((h, tls, p));
            }
        }
    }
    for a in &all {
        ctx.case(|| format!("{a:?}"), |st| addr(*a, &all, st));
    }
    ctx.section("field sizes", "every field, and every pair of fields, of every length from a list around powers of two and the limits; usual messages");
    for m in super::irc::sized(ctx.thorough()) {
        let line = super::irc::m_write(&m);
        ctx.case(|| show(&line), |st| display(&line, st));
    }
}
