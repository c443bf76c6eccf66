//! C02: message parsing is total and follows the IRC grammar.
use super::irc::*;
use crate::engine::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C02",
    rule: "every line over an alphabet of grammar-relevant bytes up to the bound, every token sequence up to the bound, every byte at every position of template lines, parsed as client and server message (borrowed, owned, from bytes) and compared with a reference grammar; the result is written and re-parsed; non-trivial: the line parses",
    assumptions: &[
        "bytes outside the alphabet behave like an ordinary byte of the same class (all 256 bytes are tried at every position of the templates)",
        "tag keys are compared bytewise; duplicate keys: the last one wins, as IRCv3 says",
    ],
};

fn same<T>(what: &str, a: Result<MMsg, T>, b: &Option<MMsg>) -> R {
    match (a, b) {
        (Ok(a), Some(b)) => cmp(what, b, &a),
        (Err(_), None) => Ok(()),
        (Ok(a), None) => Err(format!("{what}: accepted as {}, expected an error", dm(&a))),
        (Err(_), Some(b)) => Err(format!("{what}: rejected, expected {}", dm(b))),
    }
}

pub fn check(l: &[u8], st: &mut Stats) -> R {
    let ws = m_parse(l, true);
    let wc = m_parse(l, false);
    if ws.is_some() || wc.is_some() {
        st.nontrivial();
    }
    same("ServerMsg::parse(&[u8])", ServerMsg::parse(l).map(|m| v_server(&m)), &ws)?;
    same("ClientMsg::parse(&[u8])", ClientMsg::parse(l).map(|m| v_client(&m)), &wc)?;
    same("ServerMsg::parse(Vec)", ServerMsg::parse(l.to_vec()).map(|m| v_server(&m)), &ws)?;
    same("ClientMsg::parse(Vec)", ClientMsg::parse(l.to_vec()).map(|m| v_client(&m)), &wc)?;
    st.steps(4);
    let Ok(line) = Line::from_bytes(l) else {
        return if ws.is_some() || wc.is_some() { Err("Line::from_bytes rejected the line".into()) } else { Ok(()) };
    };
    if let Ok(m) = ServerMsg::parse(line.clone()) {
        let want = ws.as_ref().ok_or("parse(Line) accepted")?;
        tags_eq(&m.tags, &want.tags)?;
        args_shape(&m.args, &want.args)?;
        cmp("ServerMsg owning", want, &v_server(&m.clone().owning()))?;
        let mut w = Vec::new();
        ServerCodec::write_to(&m, &mut w).map_err(|e| e.to_string())?;
        let back = ServerMsg::parse(&w[..]).map_err(|e| format!("rewritten {} fails to parse: {e}", show(&w)))?;
        if back != m {
            return Err(format!("rewritten {} parses differently: {}", show(&w), dm(&v_server(&back))));
        }
        same("rewritten line under the grammar", Ok::<_, ()>(want.clone()), &m_parse(&w, true))?;
        // The source text alone.
        if let Some(s) = &m.source {
            let t = m_src_text(want.source.as_ref().unwrap());
            if s.len() != t.len() {
                return Err(format!("Source::len {} for {}", s.len(), show(&t)));
            }
            let merged = (**s).clone().owning_merged();
            if merged != **s {
                return Err("owning_merged changed the source".into());
            }
        }
    } else if ws.is_some() {
        return Err("parse(Line) rejected".into());
    }
    if let Ok(m) = ClientMsg::parse(line.clone()) {
        let want = wc.as_ref().ok_or("parse(Line) accepted")?;
        tags_eq(&m.tags, &want.tags)?;
        args_shape(&m.args, &want.args)?;
        let mut w = Vec::new();
        ClientCodec::write_to(&m, &mut w).map_err(|e| e.to_string())?;
        let back = ClientMsg::parse(w.clone()).map_err(|e| format!("rewritten {} fails to parse: {e}", show(&w)))?;
        if back != m || v_client(&back.owning()) != *want {
            return Err(format!("rewritten {} parses differently", show(&w)));
        }
    } else if wc.is_some() {
        return Err("parse(Line) rejected".into());
    }
    // The pieces on their own.
    let args = Args::parse(line.clone());
    if v_args(&args) != m_args(l) {
        return Err(format!("Args::parse: {:?}", v_args(&args).iter().map(|a| show(a)).collect::<Vec<_>>()));
    }
    if let Ok(w) = Word::from_bytes(l) {
        tags_eq(&Tags::parse(w.clone()), &m_tags(l)).map_err(|e| format!("Tags::parse: {e}"))?;
        match (Source::parse(w.clone()), m_source(l)) {
            (Ok(a), Some(b)) if v_source(&a) == b => (),
            (Err(_), None) => (),
            (a, b) => return Err(format!("Source::parse: {:?}, expected {:?}", a.map(|a| v_source(&a)), b)),
        }
    }
    if let Some(m) = &ws {
        st.outcome(m);
    }
    st.steps(4);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let n = ctx.pick(5, 6);
    ctx.section("bytes", &format!("all lines over 15 bytes up to length {n}"));
    words(b"@: ;=\\aZ1!,%\t\0\xff", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| check(&w, st));
    });
    let toks: &[&[u8]] = &[
        b" ", b"  ", b"@", b":", b"@k=v", b"@k=a\\sb;+x/y;k", b":nick", b":n!u@h", b":n@h", b":n!u", b"CMD", b"privMsg", b"001", b"01",
        b"arg", b":trail ing", b"\t", b"\x01", b"#c,d", b"C\xc3\xa9",
    ];
    let n = ctx.pick(5, 6);
    ctx.section("tokens", &format!("all sequences of up to {n} tokens from {} (with and without separating spaces)", toks.len()));
    seqs(toks.len(), 1, n - 1, |ix| {
        let l: Vec<u8> = ix.iter().flat_map(|i| toks[*i].to_vec()).collect();
        ctx.case(|| show(&l), |st| check(&l, st));
    });
    seqs(toks.len(), 2, n - 1, |ix| {
        let v: Vec<&[u8]> = ix.iter().map(|i| toks[*i]).collect();
        let l = v.join(&b' ');
        ctx.case(|| show(&l), |st| check(&l, st));
    });
    ctx.section("positions", "each of 256 bytes substituted or inserted at each position of 12 templates");
    let templates: &[&[u8]] = &[
        b"@a=b;c :n!u@h CMD x :y z", b":n!u@h CMD", b":srv 001 me :hi there", b"CMD a b", b"CMD :", b"@a CMD", b" CMD  a  :b ",
        b"PING x", b"@k=\\s\\\\ P", b":a@b P :c", b"005 n K=V :are", b"C",
    ];
    for t in templates {
        for p in 0..=t.len() {
            for c in 0..=255u8 {
                let mut ins = t.to_vec();
                ins.insert(p, c);
                ctx.case(|| show(&ins), |st| check(&ins, st));
                if p < t.len() {
                    let mut sub = t.to_vec();
                    sub[p] = c;
                    ctx.case(|| show(&sub), |st| check(&sub, st));
                }
            }
        }
    }
    ctx.section("long", "lines with many arguments, tags and long words around the size limits");
    for n in [15, 16, 30, 255, 256, 1000, 5000] {
        let mut l = b"CMD".to_vec();
        for i in 0..n {
            l.extend(format!(" a{i}").bytes());
        }
        ctx.case(|| format!("{n} args"), |st| check(&l, st));
        let mut l = b"@".to_vec();
        for i in 0..n {
            l.extend(format!("k{};", (i * 7919) % (n / 2 + 1)).bytes());
            if i % 3 == 0 {
                l.extend(format!("v{i}={i};").bytes());
            }
        }
        l.extend(b" CMD");
        ctx.case(|| format!("{n} tags"), |st| check(&l, st));
        let mut l = b":n!u@h P x :".to_vec();
        l.extend(std::iter::repeat(b'a').take(n));
        ctx.case(|| format!("{n} byte trailing"), |st| check(&l, st));
    }
    ctx.section("field sizes", "every field, and every pair of fields, of every length from a list around powers of two and the limits; usual messages");
    for m in sized(ctx.thorough()) {
        let l = m_write(&m);
        ctx.case(|| show(&l), |st| check(&l, st));
    }
}
