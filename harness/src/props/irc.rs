//! Reference model of the IRC message grammar.
use super::c04::{m_escape, m_unescape};
use crate::engine::show;
use std::collections::BTreeMap;
use vinezombie::ircmsg::{Args, ClientMsg, ServerMsg, ServerMsgKindRaw, SharedSource, Source, Tags, UserHost};
use vinezombie::string::*;

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct MSource {
    pub nick: Vec<u8>,
    pub user: Option<Vec<u8>>,
    pub host: Option<Vec<u8>>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct MMsg {
    pub tags: BTreeMap<Vec<u8>, Vec<u8>>,
    pub source: Option<MSource>,
    pub kind: Vec<u8>,
    pub args: Vec<Vec<u8>>,
}

/// A word usable as a middle parameter.
pub fn is_arg(a: &[u8]) -> bool {
    !a.is_empty() && a[0] != b':' && !a.iter().any(|c| b" \r\n\0".contains(c))
}
pub fn is_nick(a: &[u8]) -> bool {
    is_arg(a) && !a.iter().any(|c| b",!@".contains(c))
}
pub fn is_user(a: &[u8]) -> bool {
    is_arg(a) && !a.iter().any(|c| b"@%".contains(c))
}
pub fn is_key(a: &[u8]) -> bool {
    is_arg(a) && !a.iter().any(|c| b"=;".contains(c))
}

pub fn m_tags(w: &[u8]) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut m = BTreeMap::new();
    for part in w.split(|c| *c == b';') {
        let (k, v) = match part.iter().position(|c| *c == b'=') {
            Some(i) => (&part[..i], &part[i + 1..]),
            None => (part, &b""[..]),
        };
        if is_key(k) {
            m.insert(k.to_vec(), m_unescape(v));
        }
    }
    m
}
pub fn m_source(w: &[u8]) -> Option<MSource> {
    let i = w.iter().position(|c| *c == b'!' || *c == b'@').unwrap_or(w.len());
    let nick = w[..i].to_vec();
    if !is_nick(&nick) {
        return None;
    }
    if i == w.len() {
        return Some(MSource { nick, user: None, host: None });
    }
    let rest = &w[i + 1..];
    let (user, host) = if w[i] == b'@' {
        (None, rest.to_vec())
    } else {
        let j = rest.iter().position(|c| *c == b'@')?;
        let u = rest[..j].to_vec();
        if !is_user(&u) {
            return None;
        }
        (Some(u), rest[j + 1..].to_vec())
    };
    if host.is_empty() {
        return None;
    }
    Some(MSource { nick, user, host: Some(host) })
}
fn skip(l: &[u8], mut i: usize) -> usize {
    while i < l.len() && l[i] == b' ' {
        i += 1;
    }
    i
}
fn word(l: &[u8], i: usize) -> usize {
    l[i..].iter().position(|c| *c == b' ').map(|n| i + n).unwrap_or(l.len())
}
pub fn m_args(l: &[u8]) -> Vec<Vec<u8>> {
    let mut a = Vec::new();
    let mut i = 0;
    loop {
        i = skip(l, i);
        if i >= l.len() {
            return a;
        }
        if l[i] == b':' {
            a.push(l[i + 1..].to_vec());
            return a;
        }
        let e = word(l, i);
        a.push(l[i..e].to_vec());
        i = e;
    }
}
/// The message the grammar assigns to a line, if any.
pub fn m_parse(l: &[u8], server: bool) -> Option<MMsg> {
    if l.iter().any(|c| b"\r\n\0".contains(c)) {
        return None;
    }
    let mut m = MMsg::default();
    let mut i = skip(l, 0);
    if l.get(i) == Some(&b'@') {
        let e = word(l, i);
        m.tags = m_tags(&l[i + 1..e]);
        i = skip(l, e);
    }
    if l.get(i) == Some(&b':') {
        let e = word(l, i);
        let s = &l[i + 1..e];
        if server {
            m.source = Some(m_source(s)?);
        }
        i = skip(l, e);
    }
    let e = word(l, i.min(l.len()));
    let k = &l[i.min(l.len())..e];
    if k.is_empty() {
        return None;
    }
    if server && k.len() == 3 && k.iter().all(|c| c.is_ascii_digit()) {
        m.kind = k.to_vec();
    } else if k.iter().all(|c| c.is_ascii_alphabetic()) {
        m.kind = k.to_ascii_uppercase();
    } else {
        return None;
    }
    m.args = m_args(&l[e..]);
    Some(m)
}
/// The canonical text of a message (no CRLF).
pub fn m_write(m: &MMsg) -> Vec<u8> {
    let mut o = Vec::new();
    let mut p = b'@';
    for (k, v) in &m.tags {
        o.push(p);
        p = b';';
        o.extend(k);
        if !v.is_empty() {
            o.push(b'=');
            o.extend(m_escape(v));
        }
    }
    if !m.tags.is_empty() {
        o.push(b' ');
    }
    if let Some(s) = &m.source {
        o.push(b':');
        o.extend(m_src_text(s));
        o.push(b' ');
    }
    o.extend(&m.kind);
    for (i, a) in m.args.iter().enumerate() {
        o.push(b' ');
        if i + 1 == m.args.len() && !is_arg(a) {
            o.push(b':');
        }
        o.extend(a);
    }
    o
}
pub fn m_src_text(s: &MSource) -> Vec<u8> {
    let mut o = s.nick.clone();
    if let Some(u) = &s.user {
        o.push(b'!');
        o.extend(u);
    }
    if let Some(h) = &s.host {
        o.push(b'@');
        o.extend(h);
    }
    o
}

pub fn v_tags(t: &Tags) -> BTreeMap<Vec<u8>, Vec<u8>> {
    // Read through the serialised form-independent public accessors.
    t.iter_pairs()
}
pub trait IterPairs {
    fn iter_pairs(&self) -> BTreeMap<Vec<u8>, Vec<u8>>;
}
impl IterPairs for Tags<'_> {
    fn iter_pairs(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        // Tags has no iterator: use its serialised map.
        struct Rec(BTreeMap<Vec<u8>, Vec<u8>>);
        let mut w = Vec::new();
        self.write_to(&mut w).unwrap();
        let r = Rec(if w.is_empty() { BTreeMap::new() } else { m_tags(&w[1..]) });
        r.0
    }
}
pub fn v_source(s: &Source) -> MSource {
    MSource {
        nick: s.nick.to_vec(),
        user: s.user().map(|u| u.to_vec()),
        host: s.host().map(|u| u.to_vec()),
    }
}
pub fn v_args(a: &Args) -> Vec<Vec<u8>> {
    let (w, l) = a.split_last();
    w.iter().map(|a| a.to_vec()).chain(l.map(|l| l.to_vec())).collect()
}
pub fn v_server(m: &ServerMsg) -> MMsg {
    MMsg {
        tags: v_tags(&m.tags),
        source: m.source.as_ref().map(|s| v_source(s)),
        kind: m.kind.as_arg().to_vec(),
        args: v_args(&m.args),
    }
}
pub fn v_client(m: &ClientMsg) -> MMsg {
    MMsg { tags: v_tags(&m.tags), source: None, kind: m.cmd.to_vec(), args: v_args(&m.args) }
}
/// Checks tag contents key by key through `get`.
pub fn tags_eq(t: &Tags, want: &BTreeMap<Vec<u8>, Vec<u8>>) -> Result<(), String> {
    if t.len() != want.len() || t.is_empty() != want.is_empty() {
        return Err(format!("{} tags instead of {}", t.len(), want.len()));
    }
    for (k, v) in want {
        let key = Key::from_bytes(k.clone()).map_err(|e| format!("{e:?}"))?;
        match t.get(key) {
            Some(x) if x.as_bytes() == v => (),
            Some(x) => return Err(format!("tag {}: expected {}, got {}", show(k), show(v), show(x))),
            None => return Err(format!("tag {} lost", show(k))),
        }
    }
    Ok(())
}
pub fn args_shape(a: &Args, want: &[Vec<u8>]) -> Result<(), String> {
    let long = want.last().map(|l| !is_arg(l)).unwrap_or(false);
    if a.is_last_long() != long {
        return Err(format!("is_last_long() = {} for {:?}", a.is_last_long(), want));
    }
    let nw = want.len() - long as usize;
    let w = a.words();
    if w.len() != nw || w.iter().zip(want).any(|(a, b)| a.as_bytes() != &b[..]) {
        return Err("words() differ".into());
    }
    if a.len() != want.len() || a.is_empty() != want.is_empty() {
        return Err("len() differs".into());
    }
    match a.all() {
        None if long => (),
        Some(x) if !long && x.len() == want.len() => (),
        _ => return Err("all() differs".into()),
    }
    Ok(())
}
pub fn dm(m: &MMsg) -> String {
    let t: Vec<String> = m.tags.iter().map(|(k, v)| format!("{}={}", show(k), show(v))).collect();
    let s = m.source.as_ref().map(|s| {
        format!("{}!{:?}@{:?}", show(&s.nick), s.user.as_ref().map(|x| show(x)), s.host.as_ref().map(|x| show(x)))
    });
    let a: Vec<String> = m.args.iter().map(|a| show(a)).collect();
    format!("tags {{{}}} source {:?} kind {} args [{}]", t.join(","), s, show(&m.kind), a.join(","))
}
pub fn cmp(what: &str, want: &MMsg, got: &MMsg) -> Result<(), String> {
    if want != got {
        return Err(format!("{what}: expected {}, got {}", dm(want), dm(got)));
    }
    Ok(())
}

/// Ownership flavours for building values.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Own {
    Borrow,
    Owned,
    Secret,
}
pub fn mkb(b: &[u8], o: Own) -> Bytes<'_> {
    match o {
        Own::Borrow => Bytes::from_bytes(b),
        Own::Owned => Bytes::from(b.to_vec()),
        Own::Secret => Bytes::from_secret(b.to_vec()),
    }
}
pub fn b_source(s: &MSource, o: Own) -> Source<'_> {
    Source {
        nick: Nick::from_bytes(mkb(&s.nick, o)).unwrap(),
        userhost: s.host.as_ref().map(|h| UserHost {
            user: s.user.as_ref().map(|u| User::from_bytes(mkb(u, o)).unwrap()),
            host: Word::from_bytes(mkb(h, o)).unwrap(),
        }),
    }
}
pub fn b_tags(m: &MMsg, o: Own) -> Tags<'_> {
    let mut t = Tags::new();
    {
        let mut e = t.edit();
        // Reverse order: the writer must not depend on insertion order.
        for (k, v) in m.tags.iter().rev() {
            e.insert_pair(Key::from_bytes(mkb(k, o)).unwrap(), NoNul::from_bytes(mkb(v, o)).unwrap());
        }
    }
    t
}
pub fn b_client(m: &MMsg, o: Own) -> ClientMsg<'_> {
    let mut c = ClientMsg::new_cmd(Cmd::from_bytes(mkb(&m.kind, o)).unwrap());
    c.tags = b_tags(m, o);
    let mut e = c.args.edit();
    for a in &m.args {
        e.add(Line::from_bytes(mkb(a, o)).unwrap());
    }
    c
}
pub fn b_server(m: &MMsg, o: Own) -> ServerMsg<'_> {
    let kind = match vinezombie::ircmsg::Numeric::from_bytes(&m.kind) {
        Some(n) => ServerMsgKindRaw::Numeric(n),
        None => ServerMsgKindRaw::Cmd(Cmd::from_bytes(mkb(&m.kind, o)).unwrap()),
    };
    let mut c = ServerMsg::new_cmd(Cmd::from_str("X"));
    c.kind = kind;
    c.tags = b_tags(m, o);
    c.source = m.source.as_ref().map(|s| SharedSource::new(b_source(s, o)));
    let mut e = c.args.edit();
    for a in &m.args {
        e.add(Line::from_bytes(mkb(a, o)).unwrap());
    }
    drop(e);
    c
}

/// Messages whose fields have every length from a list around powers of two and the protocol's
/// limits: each field alone, and every pair of fields.
pub fn sized(thorough: bool) -> Vec<MMsg> {
    const FIELDS: usize = 10;
    let put = |m: &mut MMsg, f: usize, n: usize| {
        let t = |c: &[u8]| -> Vec<u8> { (0..n).map(|i| c[i % c.len()]).collect() };
        let src = |m: &mut MMsg, g: &dyn Fn(&mut MSource)| {
            let mut s = m.source.take().unwrap_or(MSource { nick: b"n".to_vec(), user: None, host: None });
            g(&mut s);
            m.source = Some(s);
        };
        match f {
            0 => src(m, &|s| s.nick = t(b"nick")),
            1 => src(m, &|s| {
                s.user = Some(t(b"user"));
                s.host.get_or_insert(b"h".to_vec());
            }),
            2 => src(m, &|s| s.host = Some(t(b"h.st"))),
            3 => {
                m.tags.insert(t(b"key"), b"1".to_vec());
            }
            4 => {
                m.tags.insert(b"zz".to_vec(), t(b"v; \\"));
            }
            5 => m.kind = t(b"KIND"),
            6 => m.args.insert(0, t(b"arg")),
            7 => m.args.push(t(b"last")),
            8 => m.args.push(t(b"l st")),
            _ => m.args.push(t(b" :")),
        }
    };
    let ns: Vec<usize> = if thorough {
        (1..=600).chain(1020..=1030).chain(2046..=2050).chain([3000, 4000]).collect()
    } else {
        (1..=20).chain(30..=33).chain(62..=66).chain(98..=101).chain(126..=130).chain(190..=193).chain(198..=201).chain(253..=258).chain(298..=301).chain(382..=385).chain(398..=402).chain(498..=514).chain(1022..=1026).chain([2048, 4000]).collect()
    };
    let ps: Vec<usize> = if thorough { vec![1, 2, 9, 10, 16, 31, 63, 64, 65, 127, 128, 255, 256, 257, 400, 512, 1024] } else { vec![1, 9, 63, 64, 65, 128, 255, 256, 513] };
    let base = MMsg { kind: b"CMD".to_vec(), ..Default::default() };
    let mut out = Vec::new();
    // Many tags (with and without values needing escapes) and many arguments.
    for n in 1..=if thorough { 300 } else { 140usize } {
        for k in 0..4 {
            let mut m = base.clone();
            for i in 0..n {
                let v: &[u8] = match k {
                    0 => b";",
                    1 if i + 1 == n => b"a\\ b",
                    1 => b"",
                    2 => b"v",
                    _ => [&b""[..], b"x", b" ", b"\r\n"][i % 4],
                };
                m.tags.insert(format!("k{i:03}").into_bytes(), v.to_vec());
            }
            out.push(m);
        }
        for last in [&b""[..], b"x", b":y", b"l m"] {
            let mut m = base.clone();
            m.args = (1..n).map(|i| format!("a{i}").into_bytes()).chain([last.to_vec()]).collect();
            out.push(m);
        }
    }
    for f in 0..FIELDS {
        for n in &ns {
            let mut m = base.clone();
            put(&mut m, f, *n);
            out.push(m);
        }
        for g in f + 1..FIELDS {
            if f >= 7 {
                continue;
            }
            for a in &ps {
                for b in &ps {
                    let mut m = base.clone();
                    put(&mut m, f, *a);
                    put(&mut m, g, *b);
                    out.push(m);
                }
            }
        }
    }
    out.extend(usual());
    out
}

/// Messages as they occur on real networks: tags x sources x kinds with arguments.
fn usual() -> Vec<MMsg> {
    let tags = [
        "", "@time=2024-01-02T03:04:05.678Z ", "@msgid=63E1033A051D4B41B1AB1FA3CF4B243E-1 ", "@account=user;time=2024-01-02T03:04:05.678Z ", "@+typing=active ", "@+typing ", "@+draft/reply=abc;+draft/react=\\:) ",
        "@batch=123 ", "@label=5 ", "@example.com/ddd=eee;aaa=bbb;ccc ", "@bot;account=a;msgid=x;time=t ", "@inspircd.org/service;inspircd.org/bot ", "@-=1;.=2;/=3 ",
    ];
    let sources = ["", ":irc.example.org ", ":me ", ":me!~user@host.example ", ":[a]^_`{|}\\!u@2001:db8::1 ", ":Nick-1!ident@user/cloak/session ", ":serv@services. ", ":42XAAAAAA ", ":*.net "];
    let rest = [
        "PING", "PING :irc.example.org", "PING 123456789", "PONG irc.example.org :x y", "ERROR :Closing Link: (Ping timeout: 240 seconds)", "PRIVMSG #chan :hello there", "PRIVMSG me :\x01ACTION waves\x01",
        "PRIVMSG me :\x01VERSION\x01", "NOTICE * :*** Looking up your hostname...", "NOTICE #chan :\x02bold\x0f", "NOTICE @#chan :ops", "JOIN #chan", "JOIN #chan account :Real Name", "JOIN :#chan", "PART #chan", "PART #chan :bye now",
        "QUIT", "QUIT :Quit: leaving", "NICK other", "NICK :other", "MODE #chan +ov-b a b *!*@host", "MODE me :+i", "KICK #chan me :reason here", "TOPIC #chan :", "TOPIC #chan :new topic", "INVITE me #chan", "AWAY", "AWAY :gone",
        "ACCOUNT *", "ACCOUNT name", "CHGHOST user new.host", "SETNAME :New Name", "TAGMSG #chan", "BATCH +1 netsplit a b", "BATCH -1", "CAP * LS * :sasl=PLAIN,EXTERNAL server-time", "CAP me ACK :sasl ", "CAP * NAK :a", "CAP * NEW :b", "CAP * DEL :c",
        "AUTHENTICATE +", "AUTHENTICATE PLAIN", "WALLOPS :text", "FAIL CMD CODE ctx :text", "001 me :Welcome to the network me!u@h", "002 me :Your host is x, running version y", "004 me irc.x v io bkl", "005 me CHANTYPES=#& PREFIX=(ov)@+ NETWORK=Net :are supported by this server",
        "005 me CASEMAPPING=ascii -FOO :are supported", "010 me other.host 6667 :go there", "221 me +i", "302 me :me=+u@h ", "332 me #chan :the topic", "333 me #chan nick!u@h 1700000000", "352 me #chan u h s n H@ :0 Real", "353 me = #chan :@op +voice nick", "366 me #chan :End of /NAMES list.",
        "372 me :- motd", "376 me :End", "396 me host :is now your hidden host", "421 me FOO :Unknown command", "432 * n\x01 :Erroneous", "433 * me :Nickname is already in use.", "443 me #chan :x", "451 * :Not registered", "464 :x", "473 me #c :Cannot join channel (+i)",
        "730 me :n!u@h", "900 me n!u@h acct :You are now logged in as acct", "903 me :SASL authentication successful", "904 me :failed", "908 me PLAIN,EXTERNAL :are available", "999 x",
    ];
    let mut out = Vec::new();
    for t in tags {
        for s in sources {
            for r in rest {
                let l = format!("{t}{s}{r}");
                let m = m_parse(l.as_bytes(), true).unwrap_or_else(|| panic!("not in the grammar: {l}"));
                out.push(m);
            }
        }
    }
    out
}
