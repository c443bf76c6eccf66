//! C22: remaining-length accounting is exact.
use super::irc::*;
use crate::engine::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C22",
    rule: "every combination of tags x source x kind x argument list from boundary pools, every argument list shape up to the bound, and messages of every size around the limit; bytes_left is compared with the bytes actually written (last argument counted with its colon, tags and CRLF excluded); non-trivial: the message has arguments or a source",
    assumptions: &["servers relay the last argument with a colon (documented pessimism)"],
};

/// Bytes on the wire, last argument with colon, without tags and CRLF.
fn m_len(m: &MMsg, src: Option<&MSource>) -> isize {
    let mut n = m.kind.len();
    if let Some(s) = src {
        n += 2 + m_src_text(s).len();
    }
    for a in &m.args {
        n += 1 + a.len();
    }
    if !m.args.is_empty() {
        n += 1;
    }
    n as isize
}
fn check(m: &MMsg, o: Own, st: &mut Stats) -> R {
    if m.source.is_some() || !m.args.is_empty() {
        st.nontrivial();
    }
    let msg = b_server(m, o);
    let want = 510 - m_len(m, m.source.as_ref());
    if msg.bytes_left() != want {
        return Err(format!("ServerMsg::bytes_left() = {}, expected {want}", msg.bytes_left()));
    }
    // Against the bytes actually written.
    let mut w = Vec::new();
    let mut bare = msg.clone();
    bare.tags = Tags::new();
    ServerCodec::write_to(&bare, &mut w).map_err(|e| e.to_string())?;
    let colon = m.args.last().is_some_and(|a| is_arg(a)) as isize;
    if 510 - (w.len() as isize + colon) != want {
        return Err(format!("bytes_left() = {want} but {} bytes are written", w.len()));
    }
    let ab: usize = m.args.iter().map(|a| a.len() + 1).sum();
    if msg.args.len_bytes() != ab {
        return Err(format!("Args::len_bytes() = {}, expected {ab}", msg.args.len_bytes()));
    }
    let mut a2 = msg.args.clone();
    let left = a2.edit().args_left();
    if left != 15 - m.args.len() as isize {
        return Err(format!("args_left() = {left} with {} arguments", m.args.len()));
    }
    if let Some(s) = &m.source {
        let src = b_source(s, o);
        let t = m_src_text(s).len();
        if src.len() != t || src.len_nonzero().get() != t {
            return Err(format!("Source::len() = {}, expected {t}", src.len()));
        }
        let mut w = Vec::new();
        src.write_to(&mut w).map_err(|e| e.to_string())?;
        if w.len() != t {
            return Err("Source::write_to length".into());
        }
        if let Some(uh) = &src.userhost {
            let mut w = Vec::new();
            uh.write_to(&mut w).map_err(|e| e.to_string())?;
            if w.len() != uh.len() {
                return Err(format!("UserHost::len() = {} but {} bytes are written", uh.len(), w.len()));
            }
        }
    }
    st.steps(5);
    if !m.kind[0].is_ascii_digit() {
        let msg = b_client(m, o);
        let alone = 510 - m_len(m, None);
        if msg.bytes_left(None) != alone {
            return Err(format!("ClientMsg::bytes_left(None) = {}, expected {alone}", msg.bytes_left(None)));
        }
        let s = m.source.as_ref().map(|s| b_source(s, o));
        if msg.bytes_left(s.as_ref()) != want {
            return Err(format!("ClientMsg::bytes_left(source) = {}, expected {want}", msg.bytes_left(s.as_ref())));
        }
        st.steps(2);
    }
    st.outcome(&want);
    Ok(())
}
/// Growing an argument by exactly what is left fills the 512 bytes; one more overflows.
fn fill(m: &MMsg, st: &mut Stats) -> R {
    st.nontrivial();
    let base = b_client(m, Own::Borrow);
    let src = m.source.as_ref().map(|s| b_source(s, Own::Borrow));
    let left = base.bytes_left(src.as_ref());
    for d in [-1isize, 0, 1] {
        let grow = left + d;
        if grow < 0 {
            continue;
        }
        let mut full = base.clone();
        full.tags = Tags::new();
        let last = m.args.last().cloned().unwrap_or_default();
        let mut v = last.clone();
        v.extend(std::iter::repeat(b'x').take(grow as usize));
        full.args.clear();
        for a in &m.args[..m.args.len() - 1] {
            full.args.edit().add(Line::from_bytes(&a[..]).unwrap());
        }
        full.args.edit().add(Line::from_bytes(v).unwrap());
        if full.bytes_left(src.as_ref()) != -d {
            return Err(format!("after growing by {grow}: bytes_left = {}", full.bytes_left(src.as_ref())));
        }
        // As the server relays it.
        let mut relayed = Vec::new();
        if let Some(s) = &src {
            relayed.push(b':');
            s.write_to(&mut relayed).unwrap();
            relayed.push(b' ');
        }
        ClientCodec::write_to(&full, &mut relayed).unwrap();
        let colon = !full.args.is_last_long() as usize;
        let n = relayed.len() + colon + 2;
        if (n <= 512) != (d <= 0) {
            return Err(format!("{n} bytes on the wire after growing by {grow}"));
        }
        st.step();
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let v = |s: &[u8]| s.to_vec();
    let src = |n: &[u8], u: Option<&[u8]>, h: Option<&[u8]>| Some(MSource { nick: v(n), user: u.map(v), host: h.map(v) });
    let sources = vec![None, src(b"s", None, None), src(b"nick", Some(b"~user"), Some(b"host.example")), src(b"n", None, Some(b"h")), src("n\u{e9}".as_bytes(), Some(b"u!"), Some(b"::1"))];
    let kinds: Vec<Vec<u8>> = [&b"PRIVMSG"[..], b"X", b"001"].iter().map(|k| v(k)).collect();
    let aps: Vec<Vec<u8>> = [&b"a"[..], b"#chan", "\u{e9}".as_bytes(), b"", b":", b"b c", b":xyz", b" "].iter().map(|k| v(k)).collect();
    let mid: Vec<Vec<u8>> = aps.iter().filter(|a| is_arg(a)).cloned().collect();
    let mut args: Vec<Vec<Vec<u8>>> = vec![vec![]];
    let depth = ctx.pick(3, 5);
    seqs(mid.len(), 0, depth, |ix| {
        for l in &aps {
            let mut a: Vec<Vec<u8>> = ix.iter().map(|i| mid[*i].clone()).collect();
            a.push(l.clone());
            args.push(a);
        }
    });
    ctx.section("product", &format!("{} sources x {} kinds x {} argument lists (up to {} arguments), with and without tags, 3 ownerships", sources.len(), kinds.len(), args.len(), depth + 1));
    for s in &sources {
        for k in &kinds {
            for a in &args {
                for t in 0..2 {
                    let mut m = MMsg { source: s.clone(), kind: k.clone(), args: a.clone(), ..Default::default() };
                    if t == 1 {
                        m.tags.insert(v(b"label"), v(b"x;y"));
                    }
                    ctx.case(|| dm(&m), |st| {
                        for o in [Own::Borrow, Own::Owned, Own::Secret] {
                            check(&m, o, st)?;
                        }
                        if !m.args.is_empty() && !m.kind[0].is_ascii_digit() {
                            fill(&m, st)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    ctx.section("sizes", "one argument of every length 0..=600 (long and short), 0..=40 arguments");
    for n in 0..=600usize {
        for long in [false, true] {
            let mut a = vec![b'x'; n];
            if long && n > 0 {
                a[0] = b' ';
            }
            let m = MMsg { kind: v(b"CMD"), args: vec![v(b"t"), a], ..Default::default() };
            ctx.case(|| format!("{n} bytes long={long}"), |st| check(&m, Own::Borrow, st));
        }
    }
    for n in 0..=40usize {
        for long in [false, true] {
            let mut a: Vec<Vec<u8>> = (0..n).map(|i| format!("{i}").into_bytes()).collect();
            if long {
                a.push(v(b"l l"));
            }
            let m = MMsg { kind: v(b"CMD"), args: a, ..Default::default() };
            ctx.case(|| format!("{n} args long={long}"), |st| check(&m, Own::Borrow, st));
        }
    }
    ctx.section("field sizes", "every field, and every pair of fields, of every length from a list around powers of two and the limits; usual messages");
    for m in sized(ctx.thorough()) {
        ctx.case(|| dm(&m), |st| {
            check(&m, Own::Borrow, st)?;
            check(&m, Own::Owned, st)
        });
    }
}
