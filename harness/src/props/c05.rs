//! C05: message framing does not depend on how bytes arrive.
use super::c01::drive;
use super::irc::*;
use crate::engine::*;
use std::io::{BufRead, Error, ErrorKind, Read};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio_util::codec::Decoder;
use vinezombie::error::ParseError;
use vinezombie::ircmsg::*;

pub const META: Meta = Meta {
    id: "C05",
    rule: "every byte stream over a framing alphabet up to the bound x every way of cutting it into reads x {no, would-block/pending, interrupted} results before each read, plus streams around the size limits with every cut near each boundary, through the blocking, borrowing, async and codec readers of both sides, compared with a reference framing model; non-trivial: the stream is cut inside a line",
    assumptions: &[
        "bytes other than CR, LF, NUL, space only matter through the grammar (C02)",
        "the codec reports trailing bytes at end of stream with tokio-util's own error, and skips ASCII whitespace before a message",
    ],
};

#[derive(Clone, PartialEq, Debug, Hash)]
enum Ev {
    Msg(MMsg),
    TooLong,
    Invalid,
    Eof,
}

/// What the framing rules assign to a stream.  `codec`: leading whitespace skipped, NUL ends the line.
fn model(s: &[u8], limit: usize, server_msgs: bool, codec: bool) -> Vec<Ev> {
    let mut out = Vec::new();
    let mut i = 0;
    loop {
        if codec {
            while i < s.len() && s[i].is_ascii_whitespace() {
                i += 1;
            }
        }
        let win = &s[i..(i + limit).min(s.len())];
        let nul = if codec { win.iter().position(|c| *c == 0) } else { None };
        let nl = win.iter().position(|c| *c == b'\n');
        match (nul, nl) {
            (Some(a), b) if b.map_or(true, |b| a < b) => {
                out.push(Ev::Invalid);
                return out;
            }
            (_, Some(n)) => {
                let mut l = &win[..n];
                while let Some(r) = l.strip_suffix(b"\r") {
                    l = r;
                }
                i += n + 1;
                if l.is_empty() {
                    continue;
                }
                match m_parse(l, server_msgs) {
                    Some(m) => out.push(Ev::Msg(m)),
                    None => {
                        out.push(Ev::Invalid);
                        return out;
                    }
                }
            }
            _ if win.len() == limit => {
                out.push(Ev::TooLong);
                return out;
            }
            _ => {
                out.push(Ev::Eof);
                return out;
            }
        }
    }
}
fn class(e: &Error) -> Result<Ev, String> {
    if e.kind() == ErrorKind::UnexpectedEof {
        return Ok(Ev::Eof);
    }
    if let Some(r) = e.get_ref() {
        if let Some(p) = r.downcast_ref::<ParseError>() {
            return Ok(if matches!(p, ParseError::TooLong) { Ev::TooLong } else { Ev::Invalid });
        }
        if r.is::<vinezombie::error::InvalidString>() {
            return Ok(Ev::Invalid);
        }
    }
    Err(format!("unexpected error {e:?}"))
}

/// Serves `data` in pieces ending at `cuts`; before each piece, per `mode`:
/// 0 nothing, 1 one WouldBlock/Pending, 2 one Interrupted (async: two Pending).
struct Feed<'a> {
    data: &'a [u8],
    cuts: &'a [usize],
    pos: usize,
    mode: u8,
    fresh: u8,
    served: usize,
}
impl<'a> Feed<'a> {
    fn new(data: &'a [u8], cuts: &'a [usize], mode: u8) -> Self {
        Feed { data, cuts, pos: 0, mode, fresh: 0, served: usize::MAX }
    }
    fn piece_end(&self) -> usize {
        self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.data.len())
    }
    /// True if the feed should stall now.
    fn stall(&mut self) -> bool {
        let e = self.piece_end();
        if self.served != e {
            self.served = e;
            self.fresh = self.mode;
        }
        if self.fresh > 0 {
            self.fresh -= 1;
            true
        } else {
            false
        }
    }
}
impl Read for Feed<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let a = self.fill_buf()?;
            let n = a.len().min(b.len());
            b[..n].copy_from_slice(&a[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Feed<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let e = self.piece_end();
        if self.served != e {
            self.served = e;
            self.fresh = self.mode;
            if self.mode != 0 {
                return Err(if self.mode == 1 { ErrorKind::WouldBlock } else { ErrorKind::Interrupted }.into());
            }
        }
        Ok(&self.data[self.pos..e])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl tokio::io::AsyncRead for Feed<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.stall() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let e = self.piece_end();
        let n = (e - self.pos).min(b.remaining());
        b.put_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncBufRead for Feed<'_> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.stall() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let e = this.piece_end();
        Poll::Ready(Ok(&this.data[this.pos..e]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.pos += n;
    }
}

fn expect(what: &str, want: &[Ev], got: &[Ev], ended: bool) -> R {
    if ended {
        if want == got {
            return Ok(());
        }
    } else if want.len() >= got.len() && want[..got.len()] == *got {
        return Ok(());
    }
    let f = |v: &[Ev]| {
        v.iter()
            .map(|e| match e {
                Ev::Msg(m) => dm(m),
                e => format!("{e:?}"),
            })
            .collect::<Vec<_>>()
            .join(" | ")
    };
    Err(format!("{what}: expected {}, got {}", f(want), f(got)))
}

macro_rules! blocking {
    ($st:ident, $what:expr, $want:expr, $data:expr, $cuts:expr, $mode:expr, $call:expr, $view:expr) => {{
        let mut feed = Feed::new($data, $cuts, $mode);
        let mut buf = Vec::new();
        let mut got = Vec::new();
        let mut n = 0;
        loop {
            n += 1;
            if n > $data.len() * 3 + 20 {
                return Err(format!("{}: reader does not finish", $what));
            }
            let r = $call(&mut feed, &mut buf).map(|m| $view(&m));
            $st.step();
            match r {
                Ok(m) => {
                    got.push(Ev::Msg(m));
                    buf.clear();
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => continue,
                Err(e) => {
                    got.push(class(&e).map_err(|e| format!("{}: {e}", $what))?);
                    break;
                }
            }
        }
        expect($what, $want, &got, true)?;
    }};
}
macro_rules! asynch {
    ($st:ident, $what:expr, $want:expr, $data:expr, $cuts:expr, $mode:expr, $call:expr, $view:expr) => {{
        let mut feed = Feed::new($data, $cuts, $mode);
        let mut buf = Vec::new();
        let mut got = Vec::new();
        loop {
            let r = drive($call(&mut feed, &mut buf)).map(|m| $view(&m));
            $st.step();
            match r {
                Ok(m) => {
                    got.push(Ev::Msg(m));
                    buf.clear();
                }
                Err(e) => {
                    got.push(class(&e).map_err(|e| format!("{}: {e}", $what))?);
                    break;
                }
            }
            if got.len() > $data.len() + 5 {
                return Err(format!("{}: reader does not finish", $what));
            }
        }
        expect($what, $want, &got, true)?;
    }};
}
/// Cancels the pending read future at every stall and starts a new one on the same buffer.
macro_rules! cancelled {
    ($st:ident, $what:expr, $want:expr, $data:expr, $cuts:expr, $call:expr, $view:expr) => {{
        let mut feed = Feed::new($data, $cuts, 1);
        let mut buf = Vec::new();
        let mut got = Vec::new();
        let mut n = 0;
        loop {
            n += 1;
            if n > $data.len() * 3 + 20 {
                return Err(format!("{}: reader does not finish", $what));
            }
            let p = {
                let f = std::pin::pin!($call(&mut feed, &mut buf));
                let mut cx = Context::from_waker(std::task::Waker::noop());
                match f.poll(&mut cx) {
                    Poll::Ready(r) => Some(r.map(|m| $view(&m))),
                    Poll::Pending => None,
                }
            };
            $st.step();
            match p {
                None => continue,
                Some(Ok(m)) => {
                    got.push(Ev::Msg(m));
                    buf.clear();
                }
                Some(Err(e)) => {
                    got.push(class(&e).map_err(|e| format!("{}: {e}", $what))?);
                    break;
                }
            }
        }
        expect($what, $want, &got, true)?;
    }};
}
fn codec<T, D: Decoder<Item = T, Error = Error>>(what: &str, mut d: D, want: &[Ev], data: &[u8], cuts: &[usize], view: impl Fn(&T) -> MMsg, st: &mut Stats) -> R {
    let mut by = bytes::BytesMut::new();
    let mut got = Vec::new();
    let mut pos = 0;
    let mut ends: Vec<usize> = cuts.to_vec();
    ends.push(data.len());
    for e in ends {
        by.extend_from_slice(&data[pos..e]);
        pos = e;
        loop {
            st.step();
            match d.decode(&mut by) {
                Ok(Some(m)) => got.push(Ev::Msg(view(&m))),
                Ok(None) => break,
                Err(e) => {
                    got.push(class(&e).map_err(|e| format!("{what}: {e}"))?);
                    return expect(what, want, &got, true);
                }
            }
            if got.len() > data.len() + 5 {
                return Err(format!("{what}: decoder does not finish"));
            }
        }
    }
    let clean = by.is_empty();
    match d.decode_eof(&mut by) {
        Ok(None) if clean => (),
        Err(_) if !clean => (),
        Ok(Some(_)) => return Err(format!("{what}: decode_eof produced a message")),
        _ => return Err(format!("{what}: end of stream with {} bytes left not reported", by.len())),
    }
    // Whether bytes of a line were pending is what decides between clean and unexpected end.
    let tail = data.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    let pending = data[tail..].iter().any(|c| !c.is_ascii_whitespace());
    if clean == pending {
        return Err(format!("{what}: partial line lost or invented"));
    }
    got.push(Ev::Eof);
    expect(what, want, &got, true)
}

fn all(data: &[u8], cuts: &[usize], st: &mut Stats) -> R {
    let want = model(data, ServerMsg::MAX_LEN, true, false);
    for mode in 0..3 {
        blocking!(st, "ClientCodec::read_owning_from", &want, data, cuts, mode, ClientCodec::read_owning_from, v_server);
        blocking!(st, "ClientCodec::read_borrowing_from", &want, data, cuts, mode, ClientCodec::read_borrowing_from, v_server);
        asynch!(st, "ClientCodec::read_owning_from_tokio", &want, data, cuts, mode, ClientCodec::read_owning_from_tokio, v_server);
        asynch!(st, "ClientCodec::read_borrowing_from_tokio", &want, data, cuts, mode, ClientCodec::read_borrowing_from_tokio, v_server);
    }
    cancelled!(st, "cancelled ClientCodec::read_owning_from_tokio", &want, data, cuts, ClientCodec::read_owning_from_tokio, v_server);
    st.outcome(&want);
    let want = model(data, ClientMsg::MAX_LEN, false, false);
    for mode in 0..3 {
        blocking!(st, "ServerCodec::read_owning_from", &want, data, cuts, mode, ServerCodec::read_owning_from, v_client);
        blocking!(st, "ServerCodec::read_borrowing_from", &want, data, cuts, mode, ServerCodec::read_borrowing_from, v_client);
        asynch!(st, "ServerCodec::read_owning_from_tokio", &want, data, cuts, mode, ServerCodec::read_owning_from_tokio, v_client);
        asynch!(st, "ServerCodec::read_borrowing_from_tokio", &want, data, cuts, mode, ServerCodec::read_borrowing_from_tokio, v_client);
    }
    cancelled!(st, "cancelled ServerCodec::read_owning_from_tokio", &want, data, cuts, ServerCodec::read_owning_from_tokio, v_client);
    let want = model(data, ServerMsg::MAX_LEN, true, true);
    codec("ClientCodec decoder", ClientCodec, &want, data, cuts, |m| v_server(m), st)?;
    let want = model(data, ClientMsg::MAX_LEN, false, true);
    codec("ServerCodec decoder", ServerCodec, &want, data, cuts, |m| v_client(m), st)
}

pub fn run(ctx: &mut Ctx) {
    let n = ctx.pick(6, 7);
    ctx.section("bytes", &format!("all streams over A CR LF NUL space up to length {n} x all cuts"));
    words(b"A\r\n\0 ", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            for mask in 0..1u32 << w.len().saturating_sub(1) {
                let cuts: Vec<usize> = (1..w.len()).filter(|i| mask >> (i - 1) & 1 == 1).collect();
                if cuts.iter().any(|c| w[*c - 1] != b'\n') {
                    st.nontrivial();
                }
                all(&w, &cuts, st).map_err(|e| format!("cuts {cuts:?}: {e}"))?;
            }
            Ok(())
        });
    });
    let toks: [&[u8]; 9] = [b"PING x", b":s 001 n :hi there", b"@k=v CMD", b"\r\n", b"\n", b"\r\n\r\n", b"\r", b"?", b":"];
    let n = ctx.pick(4, 5);
    ctx.section("lines", &format!("all sequences of up to {n} line fragments x every single and double cut"));
    seqs(toks.len(), 1, n, |ix| {
        let d: Vec<u8> = ix.iter().flat_map(|i| toks[*i].to_vec()).collect();
        ctx.case(|| show(&d), |st| {
            all(&d, &[], st)?;
            st.nontrivial();
            for a in 1..d.len() {
                all(&d, &[a], st).map_err(|e| format!("cut {a}: {e}"))?;
            }
            let step = if d.len() > 24 { 5 } else { 3 };
            for a in (1..d.len()).step_by(step) {
                for b in (a + 1..d.len()).step_by(step) {
                    all(&d, &[a, b], st).map_err(|e| format!("cuts {a},{b}: {e}"))?;
                }
            }
            let every: Vec<usize> = (1..d.len()).collect();
            all(&d, &every, st).map_err(|e| format!("cut everywhere: {e}"))
        });
    });
    ctx.section("limits", "lines of limit-4..=limit+4 bytes (both limits), endings LF/CRLF/none/NUL/CR, with a message or blank lines before and after x cuts at every offset within 3 of the line start, limit and line end");
    for limit in [ServerMsg::MAX_LEN, ClientMsg::MAX_LEN] {
        for total in limit - 4..=limit + 4 {
            for end in [&b"\n"[..], b"\r\n", b"", b"\0\n", b"\r", b"\r\r\n"] {
                for before in [&b""[..], b"\r\n\n", b"A\r\n"] {
                    for after in [&b""[..], b"B\r\n", b"\n"] {
                        let mut d = before.to_vec();
                        d.extend(b"C :");
                        d.extend(std::iter::repeat(b'x').take(total - 3 - end.len()));
                        d.extend(end);
                        let e = d.len();
                        d.extend(after);
                        let b0 = before.len();
                        let mut pts: Vec<usize> = Vec::new();
                        for c in [b0, b0 + limit, e] {
                            for k in 0..7 {
                                let p = (c + k).saturating_sub(3);
                                if p > 0 && p < d.len() {
                                    pts.push(p);
                                }
                            }
                        }
                        pts.sort();
                        pts.dedup();
                        ctx.case(|| format!("{} + {total}-byte line ending {} + {}", show(before), show(end), show(after)), |st| {
                            st.nontrivial();
                            all(&d, &[], st)?;
                            for p in &pts {
                                all(&d, &[*p], st).map_err(|e| format!("cut {p}: {e}"))?;
                            }
                            all(&d, &pts, st).map_err(|e| format!("cuts {pts:?}: {e}"))
                        });
                    }
                }
            }
        }
    }
    ctx.section("blanks", "runs of 9 kinds of blanks of many lengths (around powers of two and both limits) before, between and after messages, uncut and cut at 5 places");
    let mut ns: Vec<usize> = (1..=40).chain(60..=68).chain(120..=132).chain(250..=260).chain(500..=520).chain(1020..=1030).chain([1500, 2047, 2048, 2049, 4096]).collect();
    for l in [ServerMsg::MAX_LEN, ClientMsg::MAX_LEN] {
        ns.extend([l / 2 - 1, l / 2, l - 2, l - 1, l, l + 1, l + 2, 2 * l, 2 * l + 1]);
    }
    if ctx.thorough() {
        ns.extend(41..1500);
    }
    ns.sort();
    ns.dedup();
    for n in ns {
        for b in [&b"\n"[..], b"\r\n", b" ", b"\t", b"\r", b"\n ", b"\r\r\n", b"\x0c\n", b" \n"] {
            let run: Vec<u8> = b.iter().copied().cycle().take(n).collect();
            for (pre, post) in [(&b""[..], &b"A x\r\nB y\n"[..]), (b"A x\r\n", b"B y\r\nC\n"), (b"A\n", b""), (b"A :x", b"B y\r\n")] {
                let d = [pre, &run, post].concat();
                ctx.case(|| format!("{} + {n} bytes of {} + {}", show(pre), show(b), show(post)), |st| {
                    st.nontrivial();
                    all(&d, &[], st)?;
                    let e = pre.len() + n;
                    for c in [pre.len(), pre.len() + n / 2, e, e + 1] {
                        if c > 0 && c < d.len() {
                            all(&d, &[c], st).map_err(|e| format!("cut {c}: {e}"))?;
                        }
                    }
                    let cuts: Vec<usize> = (1..d.len()).filter(|i| i % 61 == 0 || *i == e).collect();
                    all(&d, &cuts, st).map_err(|e| format!("cuts {cuts:?}: {e}"))
                });
            }
        }
    }
}
