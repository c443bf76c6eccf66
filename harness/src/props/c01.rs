//! C01: written messages parse back to the same message.
use super::irc::*;
use crate::engine::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio_util::codec::{Decoder, Encoder};
use vinezombie::ircmsg::*;

pub const META: Meta = Meta {
    id: "C01",
    rule: "every combination of tag set x source x kind x argument list from pools of boundary values, x ownership flavour, written through send_to, send_to_tokio, write_to and the tokio codec (writers that accept everything, one byte, or interrupt), and read back through parse, the blocking reader, the async reader and the codec; every argument over a byte alphabet up to the bound; non-trivial: the message has tags, a source, or arguments",
    assumptions: &["argument, tag, host bytes outside the alphabet behave like ordinary bytes (each of 256 bytes is tried in every field)"],
};

/// A writer with partial, interrupted or pending writes.
pub struct Chop {
    pub out: Vec<u8>,
    pub mode: u8,
    tick: u32,
}
impl Chop {
    pub fn new(mode: u8) -> Self {
        Chop { out: Vec::new(), mode, tick: 0 }
    }
}
impl Write for Chop {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick += 1;
        if self.mode == 2 && self.tick % 2 == 1 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = if self.mode == 0 { b.len() } else { b.len().min(1 + self.tick as usize % 3) };
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl tokio::io::AsyncWrite for Chop {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.tick += 1;
        if self.mode == 2 && self.tick % 2 == 1 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = if self.mode == 0 { b.len() } else { b.len().min(1 + self.tick as usize % 3) };
        self.out.extend(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
/// Polls a future that makes progress on every poll.
pub fn drive<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let w = std::task::Waker::noop();
    let mut cx = Context::from_waker(w);
    for _ in 0..200_000 {
        if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            return t;
        }
    }
    panic!("future never completes");
}

fn one_line(w: &[u8]) -> Result<&[u8], String> {
    if !w.ends_with(b"\r\n") {
        return Err(format!("not terminated by CRLF: {}", show(w)));
    }
    let l = &w[..w.len() - 2];
    if l.iter().any(|c| b"\r\n\0".contains(c)) {
        return Err(format!("more than one line: {}", show(w)));
    }
    Ok(l)
}

fn check(m: &MMsg, o: Own, st: &mut Stats, mode: u8) -> R {
    if m.source.as_ref().is_some_and(|s| s.host.as_deref() == Some(&[])) {
        return check_inner(m, o, st, mode).map_err(|e| format!("key=empty-host {e}"));
    }
    check_inner(m, o, st, mode)
}
fn check_inner(m: &MMsg, o: Own, st: &mut Stats, mode: u8) -> R {
    if !m.tags.is_empty() || !m.args.is_empty() || m.source.is_some() {
        st.nontrivial();
    }
    let e = |e: std::io::Error| e.to_string();
    let num = m.kind[0].is_ascii_digit();
    // As a server message.
    {
        let msg = b_server(m, o);
        cmp("built server message", m, &v_server(&msg))?;
        let mut w = Chop::new(mode);
        let mut buf = Vec::new();
        ServerCodec::send_to(&msg, &mut w, &mut buf).map_err(e)?;
        let text = w.out;
        if !buf.is_empty() {
            return Err("send_to left data in its buffer".into());
        }
        let line = one_line(&text)?;
        let mut plain = Vec::new();
        ServerCodec::write_to(&msg, &mut plain).map_err(e)?;
        let mut tk = Chop::new(mode);
        drive(ServerCodec::send_to_tokio(&msg, &mut tk, &mut buf)).map_err(e)?;
        let mut by = bytes::BytesMut::new();
        ServerCodec.encode(msg.clone(), &mut by).map_err(e)?;
        if plain != line || tk.out != text || by[..] != text[..] || !buf.is_empty() {
            return Err(format!("writers disagree: {} / {} / {} / {}", show(&text), show(&plain), show(&tk.out), show(&by)));
        }
        let g = m_parse(line, true).ok_or_else(|| format!("written line {} is not in the grammar", show(line)))?;
        cmp("written line under the grammar", m, &g)?;
        let back = ServerMsg::parse(line).map_err(|e| format!("{} does not parse: {e}", show(line)))?;
        cmp("parsed back", m, &v_server(&back))?;
        if back != msg {
            return Err("parsed message is not equal".into());
        }
        tags_eq(&back.tags, &m.tags)?;
        // Neither taking ownership of the message nor of a copy changes what is written.
        for d in [msg.clone().owning(), back.clone().owning()] {
            let mut again = Vec::new();
            ServerCodec::write_to(&d, &mut again).map_err(e)?;
            if again != line {
                return Err(format!("owning message written as {} instead of {}", show(&again), show(line)));
            }
        }
        if text.len() <= ServerMsg::MAX_LEN {
            let mut rd: &[u8] = &text;
            let b = ClientCodec::read_owning_from(&mut rd, &mut Vec::new()).map_err(|e| format!("reader: {e}"))?;
            cmp("blocking reader", m, &v_server(&b))?;
            let mut rd: &[u8] = &text;
            let b = drive(ClientCodec::read_owning_from_tokio(&mut rd, &mut Vec::new())).map_err(|e| format!("async reader: {e}"))?;
            cmp("async reader", m, &v_server(&b))?;
            let b = ClientCodec.decode(&mut by).map_err(|e| format!("codec: {e}"))?.ok_or("codec wants more")?;
            cmp("codec", m, &v_server(&b))?;
            if !by.is_empty() {
                return Err("codec left bytes".into());
            }
        }
        st.steps(8);
    }
    if num || m.source.is_some() {
        return Ok(());
    }
    let msg = b_client(m, o);
    cmp("built client message", m, &v_client(&msg))?;
    let mut w = Chop::new(mode);
    let mut buf = Vec::new();
    ClientCodec::send_to(&msg, &mut w, &mut buf).map_err(e)?;
    let text = w.out;
    let line = one_line(&text)?;
    let mut plain = Vec::new();
    ClientCodec::write_to(&msg, &mut plain).map_err(e)?;
    let mut tk = Chop::new(mode);
    drive(ClientCodec::send_to_tokio(&msg, &mut tk, &mut buf)).map_err(e)?;
    let mut by = bytes::BytesMut::new();
    ClientCodec.encode(msg.clone(), &mut by).map_err(e)?;
    if plain != line || tk.out != text || by[..] != text[..] || !buf.is_empty() {
        return Err("client writers disagree".into());
    }
    let back = ClientMsg::parse(line.to_vec()).map_err(|e| format!("{} does not parse: {e}", show(line)))?;
    cmp("parsed back", m, &v_client(&back))?;
    if back != msg {
        return Err("parsed message is not equal".into());
    }
    tags_eq(&back.tags, &m.tags)?;
    if text.len() <= ClientMsg::MAX_LEN {
        let mut rd: &[u8] = &text;
        let b = ServerCodec::read_owning_from(&mut rd, &mut Vec::new()).map_err(|e| format!("reader: {e}"))?;
        cmp("blocking reader", m, &v_client(&b))?;
        let mut rd: &[u8] = &text;
        let b = drive(ServerCodec::read_owning_from_tokio(&mut rd, &mut Vec::new())).map_err(|e| format!("async reader: {e}"))?;
        cmp("async reader", m, &v_client(&b))?;
        let b = ServerCodec.decode(&mut by).map_err(|e| format!("codec: {e}"))?.ok_or("codec wants more")?;
        cmp("codec", m, &v_client(&b))?;
    }
    st.steps(8);
    st.outcome(&text);
    Ok(())
}

fn v(s: &[u8]) -> Vec<u8> {
    s.to_vec()
}
fn tagset(p: &[(&[u8], &[u8])]) -> BTreeMap<Vec<u8>, Vec<u8>> {
    p.iter().map(|(k, x)| (v(k), v(x))).collect()
}

pub fn run(ctx: &mut Ctx) {
    let tags: Vec<BTreeMap<Vec<u8>, Vec<u8>>> = vec![
        tagset(&[]),
        tagset(&[(b"k", b"")]),
        tagset(&[(b"+draft/label", b"a b;c\\\r\n\xff"), (b"z", b"\\")]),
        tagset(&[(b"@", b"x"), (b"B", b""), (b"a", b" ")]),
    ];
    let src = |n: &[u8], u: Option<&[u8]>, h: Option<&[u8]>| Some(MSource { nick: v(n), user: u.map(v), host: h.map(v) });
    let sources = vec![
        None,
        src(b"irc.example.net", None, None),
        src(b"n", Some(b"~u!x"), Some(b"h")),
        src(b"n", None, Some(b"h@!:,")),
        src(b"@x".get(1..).unwrap(), Some(b"u"), Some(b":h")),
    ];
    let kinds: Vec<Vec<u8>> = [&b"PRIVMSG"[..], b"X", b"001", b"999", b"000"].iter().map(|k| v(k)).collect();
    let aps: Vec<Vec<u8>> =
        [&b"a"[..], b"#c,d", b"", b":", b"b c", b" x", b"\tt", b"\x01V\x01", b"@q", b"x:y", b"\x0c"].iter().map(|k| v(k)).collect();
    // Arguments that may stand anywhere vs only last.
    let mid: Vec<Vec<u8>> = aps.iter().filter(|a| is_arg(a)).cloned().collect();
    let mut args: Vec<Vec<Vec<u8>>> = vec![vec![]];
    let depth = ctx.pick(2, 3);
    seqs(mid.len(), 0, depth, |ix| {
        for l in &aps {
            let mut a: Vec<Vec<u8>> = ix.iter().map(|i| mid[*i].clone()).collect();
            a.push(l.clone());
            args.push(a);
        }
    });
    ctx.section("product", &format!("{} tag sets x {} sources x {} kinds x {} argument lists (up to {} arguments) x 3 ownerships", tags.len(), sources.len(), kinds.len(), args.len(), depth + 1));
    for t in &tags {
        for s in &sources {
            for k in &kinds {
                for a in &args {
                    let m = MMsg { tags: t.clone(), source: s.clone(), kind: k.clone(), args: a.clone() };
                    ctx.case(|| dm(&m), |st| {
                        for (i, o) in [Own::Borrow, Own::Owned, Own::Secret].into_iter().enumerate() {
                            check(&m, o, st, i as u8)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    let n = ctx.pick(5, 6);
    ctx.section("last", &format!("every last argument over 8 bytes up to length {n}, alone and after another argument"));
    words(b": a\t\x0b\x01@\xff", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            let mut m = MMsg { kind: v(b"CMD"), args: vec![w.clone()], ..Default::default() };
            check(&m, Own::Borrow, st, 0)?;
            m.args.insert(0, v(b"t"));
            check(&m, Own::Owned, st, 0)
        });
    });
    ctx.section("fields", "every byte 0..=255 at each place of a field (argument, last argument, nick, user, host, tag key, tag value, kind letter)");
    for c in 0..=255u8 {
        for shape in 0..4usize {
            let val: Vec<u8> = [vec![c], vec![b'a', c], vec![c, b'a'], vec![c, c]][shape].clone();
            for field in 0..7 {
                let mut m = MMsg { kind: v(b"CMD"), args: vec![v(b"t")], ..Default::default() };
                let ok = match field {
                    0 => {
                        m.args.insert(0, val.clone());
                        is_arg(&val)
                    }
                    1 => {
                        m.args.push(val.clone());
                        !val.iter().any(|c| b"\r\n\0".contains(c))
                    }
                    2 => {
                        m.source = Some(MSource { nick: val.clone(), user: Some(v(b"u")), host: Some(v(b"h")) });
                        is_nick(&val)
                    }
                    3 => {
                        m.source = Some(MSource { nick: v(b"n"), user: Some(val.clone()), host: Some(v(b"h")) });
                        is_user(&val)
                    }
                    4 => {
                        m.source = Some(MSource { nick: v(b"n"), user: None, host: Some(val.clone()) });
                        !val.iter().any(|c| b" \r\n\0".contains(c))
                    }
                    5 => {
                        m.tags.insert(val.clone(), v(b"x"));
                        is_key(&val)
                    }
                    _ => {
                        m.tags.insert(v(b"k"), val.clone());
                        !val.contains(&0)
                    }
                };
                if ok {
                    ctx.case(|| dm(&m), |st| check(&m, Own::Borrow, st, 1));
                }
            }
        }
    }
    ctx.section("kinds", "all 1000 numerics; commands of 1..=3 letters from ABZ and 26 single letters");
    for i in 0..1000 {
        let m = MMsg { kind: format!("{i:03}").into_bytes(), args: vec![v(b"x")], ..Default::default() };
        ctx.case(|| dm(&m), |st| check(&m, Own::Borrow, st, 0));
    }
    words(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 2, |w| {
        let m = MMsg { kind: w.to_vec(), args: vec![v(b"x")], ..Default::default() };
        ctx.case(|| dm(&m), |st| check(&m, Own::Borrow, st, 0));
    });
    ctx.section("empty host", "a source whose host is the empty word");
    for u in [None, Some(v(b"u"))] {
        let m = MMsg { kind: v(b"X"), source: Some(MSource { nick: v(b"n"), user: u, host: Some(vec![]) }), ..Default::default() };
        ctx.case(|| dm(&m), |st| check(&m, Own::Borrow, st, 0));
    }
    ctx.section("sizes", "messages of every size around the reader limits and many arguments");
    for total in (500..=520).chain(4600..=4612).chain(8690..=8703) {
        // "CMD :" + a.. + CRLF
        let m = MMsg { kind: v(b"CMD"), args: vec![[b" ".to_vec(), vec![b'a'; total - 8]].concat()], ..Default::default() };
        ctx.case(|| format!("{total} bytes"), |st| check(&m, Own::Owned, st, 0));
    }
    for n in [14usize, 15, 16, 17, 100] {
        let m = MMsg { kind: v(b"CMD"), args: (0..n).map(|i| format!("a{i}").into_bytes()).collect(), ..Default::default() };
        ctx.case(|| format!("{n} args"), |st| check(&m, Own::Owned, st, 0));
    }
    ctx.section("field sizes", "every field, and every pair of fields, of every length from a list around powers of two and the limits; usual messages");
    for m in sized(ctx.thorough()) {
        for o in [Own::Borrow, Own::Owned] {
            ctx.case(|| format!("{:?} {}", o, dm(&m)), |st| check(&m, o, st, 0));
        }
    }
}
