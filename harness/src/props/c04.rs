//! C04: tag values survive escaping unchanged.
use crate::engine::*;
use vinezombie::ircmsg::{ClientMsg, ServerMsg, Tags};
use vinezombie::string::tf::{escape, escape_byte, unescape, unescape_byte};
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C04",
    rule: "every value / raw value over the alphabet of special and ordinary bytes up to the bound, through escape, unescape, Tags editing, writing, parsing and whole messages; non-trivial: the value contains a byte that needs escaping or a backslash",
    assumptions: &["bytes outside the alphabet behave like 'a' (each of the 256 bytes is tried at every position of short values)"],
};

pub fn m_escape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in v {
        match c {
            b';' => o.extend(b"\\:"),
            b' ' => o.extend(b"\\s"),
            b'\r' => o.extend(b"\\r"),
            b'\n' => o.extend(b"\\n"),
            b'\\' => o.extend(b"\\\\"),
            c => o.push(*c),
        }
    }
    o
}
pub fn m_unescape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = v.iter();
    while let Some(c) = i.next() {
        if *c != b'\\' {
            o.push(*c);
            continue;
        }
        match i.next() {
            Some(b':') => o.push(b';'),
            Some(b's') => o.push(b' '),
            Some(b'r') => o.push(b'\r'),
            Some(b'n') => o.push(b'\n'),
            Some(c) => o.push(*c),
            None => (),
        }
    }
    o
}
fn eq(what: &str, want: &[u8], got: &[u8]) -> R {
    if want != got {
        return Err(format!("{what}: expected {}, got {}", show(want), show(got)));
    }
    Ok(())
}
fn mk(v: &[u8], own: u8) -> NoNul<'_> {
    let b = match own {
        0 => Bytes::from_bytes(v),
        1 => Bytes::from(v.to_vec()),
        _ => Bytes::from_secret(v.to_vec()),
    };
    NoNul::from_bytes(b).unwrap()
}

fn value(v: &[u8], st: &mut Stats) -> R {
    let esc = m_escape(v);
    for own in 0..3 {
        let e = escape(mk(v, own));
        eq("escape", &esc, &e)?;
        if e.iter().any(|c| b" ;\r\n\0".contains(c)) {
            return Err("escaped form holds a forbidden byte".into());
        }
        eq("unescape(escape)", v, &unescape(e))?;
        st.steps(2);
    }
    // Through an edit and the wire.
    for (i, key) in ["k", "+draft/x", "a.b/k"].iter().enumerate() {
        let mut t = Tags::new();
        t.edit().insert_pair(Key::from_str(key), mk(v, i as u8 % 3));
        eq("Tags::get", v, t.get(*key).ok_or("no value after insert")?)?;
        let mut w = Vec::new();
        t.write_to(&mut w).map_err(|e| e.to_string())?;
        let mut want = format!("@{key}").into_bytes();
        if !v.is_empty() {
            want.push(b'=');
            want.extend(&esc);
        }
        eq("Tags::write_to", &want, &w)?;
        let p = Tags::parse(Word::from_bytes(&w[1..]).map_err(|e| format!("{e:?}"))?);
        eq("parsed Tags", v, p.get(*key).ok_or("value lost by parsing")?)?;
        if p.len() != 1 || p != t {
            return Err("parsed Tags differ".into());
        }
        st.steps(3);
    }
    // Between two other tags, in whole messages.
    let mut msg = ClientMsg::new_cmd(Cmd::from_str("CMD"));
    {
        let mut e = msg.tags.edit();
        e.insert_pair(Key::from_str("z"), mk(v, 0));
        e.insert_pair(Key::from_str("b"), mk(b"x;\\", 0));
        e.insert_pair(Key::from_str("a"), mk(v, 1));
    }
    let mut w = Vec::new();
    msg.send_to(&mut w, &mut Vec::new()).map_err(|e| e.to_string())?;
    let line = &w[..w.len() - 2];
    let back = ClientMsg::parse(Line::from_bytes(line).map_err(|e| format!("written line {}: {e:?}", show(&w)))?)
        .map_err(|e| format!("{e:?}"))?;
    let sback = ServerMsg::parse(Line::from_bytes(line).unwrap()).map_err(|e| format!("{e:?}"))?;
    for t in [&back.tags, &sback.tags] {
        eq("message tag z", v, t.get("z").ok_or("z lost")?)?;
        eq("message tag a", v, t.get("a").ok_or("a lost")?)?;
        eq("message tag b", b"x;\\", t.get("b").ok_or("b lost")?)?;
        if t.len() != 3 {
            return Err("number of tags".into());
        }
    }
    if sback.kind.as_arg() != "CMD" || back.cmd != "CMD" {
        return Err("command changed by tags".into());
    }
    st.steps(2);
    st.outcome(&esc);
    Ok(())
}
fn raw(v: &[u8], st: &mut Stats) -> R {
    let want = m_unescape(v);
    for own in 0..3 {
        eq("unescape", &want, &unescape(mk(v, own)))?;
        st.step();
    }
    if let Ok(w) = Word::from_bytes(v) {
        if !v.contains(&b';') {
            for (l, r) in [("k=", ""), ("x=1;k=", ""), ("k=", ";x=1"), ("a=\\;k=", ";zz=;y")] {
                let s = [l.as_bytes(), &w, r.as_bytes()].concat();
                let t = Tags::parse(Word::from_bytes(&s[..]).unwrap());
                eq("Tags::parse value", &want, t.get("k").ok_or("tag lost")?)?;
                if l.starts_with("x=") || r.ends_with("x=1") {
                    eq("neighbour", b"1", t.get("x").ok_or("neighbour lost")?)?;
                }
                let n = 1 + l.matches(';').count() + r.matches(';').count();
                if t.len() != n {
                    return Err(format!("{} tags instead of {n} from {}", t.len(), show(&s)));
                }
                st.step();
            }
        }
    }
    st.outcome(&want);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("byte", "escape_byte / unescape_byte for all 256 bytes");
    for c in 0..=255u8 {
        ctx.case(|| format!("byte {c:#x}"), |st| {
            let e = m_escape(&[c]);
            let want = if e.len() == 2 { Some(e[1]) } else { None };
            if escape_byte(&c).map(|n| n.get()) != want {
                return Err(format!("escape_byte gives {:?}", escape_byte(&c)));
            }
            let u = m_unescape(&[b'\\', c]);
            if unescape_byte(&c) != u[0] {
                return Err(format!("unescape_byte gives {:#x}", unescape_byte(&c)));
            }
            st.step();
            st.nontrivial();
            Ok(())
        });
    }
    let every: Vec<u8> = (1..=255).collect();
    ctx.section("value-2", "every value of length 0..=2 over all 255 non-NUL bytes");
    words(&every, 0, 2, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            if m_escape(&w) != w {
                st.nontrivial();
            }
            value(&w, st)?;
            raw(&w, st)
        });
    });
    let alpha: &[u8] = b"\\; \r\n:srna=\xc3\xa9";
    ctx.section("value-n", "every value of length 3..=5 (thorough 6) over 13 special and ordinary bytes");
    words(alpha, 3, ctx.pick(5, 6), |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            if m_escape(&w) != w {
                st.nontrivial();
            }
            value(&w, st)
        });
    });
    ctx.section("raw-n", "every raw value of length 3..=5 (thorough 6) over the bytes that matter for decoding");
    words(b"\\;:srna \xc3", 3, ctx.pick(5, 6), |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            if m_unescape(&w) != w {
                st.nontrivial();
            }
            raw(&w, st)
        });
    });
    ctx.section("long", "long values with a run of special bytes at every position");
    for len in [31usize, 32, 63, 64, 100] {
        for pos in 0..len {
            for c in alpha {
                for run_len in 1..4.min(len - pos + 1) {
                    let mut w = vec![b'x'; len];
                    for x in w[pos..pos + run_len].iter_mut() {
                        *x = *c;
                    }
                    ctx.case(|| show(&w), |st| {
                        st.nontrivial();
                        value(&w, st)?;
                        raw(&w, st)
                    });
                }
            }
        }
    }
}
