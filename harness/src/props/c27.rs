//! C27: argument lists and CTCP payloads edit and convert faithfully.
use super::irc::*;
use crate::engine::*;
use vinezombie::ircmsg::*;
use vinezombie::names::cmd;
use vinezombie::string::tf::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C27",
    rule: "every sequence of argument-list edits up to the bound from several starting lists, compared step by step with a plain list; every body over a CTCP alphabet up to the bound; every (command, body) pair from pools; typed views of messages; all 256 bytes x case maps, all strings over whitespace bytes x trims; non-trivial: the list or body is non-empty",
    assumptions: &["argument contents beyond the pool only matter through being long or short (C03)"],
};

const VALS: [&[u8]; 5] = [b"a", b"bb", b"", b":c", b"d e"];

fn views(a: &Args, l: &[Vec<u8>]) -> R {
    args_shape(a, l)?;
    if v_args(a) != l {
        return Err(format!("holds {:?}, expected {:?}", v_args(a).iter().map(|a| show(a)).collect::<Vec<_>>(), l.iter().map(|a| show(a)).collect::<Vec<_>>()));
    }
    let (w, last) = a.split_last();
    if last.map(|l| l.to_vec()) != l.last().cloned() || w.len() != l.len().saturating_sub(1) {
        return Err("split_last() differs".into());
    }
    let mut c = a.clone();
    {
        let mut e = c.edit();
        let long = l.last().is_some_and(|x| !is_arg(x));
        if e.all().is_some() == long {
            return Err("edit().all() differs".into());
        }
        if e.words().iter().map(|a| a.to_vec()).collect::<Vec<_>>() != l[..l.len() - long as usize] {
            return Err("edit().words() differs".into());
        }
        let (w, x) = e.split_last();
        if w.len() != l.len().saturating_sub(1) || x.map(|x| x.to_vec()) != l.last().cloned() {
            return Err("edit().split_last() differs".into());
        }
    }
    if c != *a || v_args(&a.clone().owning()) != l {
        return Err("copy differs".into());
    }
    // The printed form denotes the same list.
    let t = a.to_string();
    if l.iter().all(|x| std::str::from_utf8(x).is_ok()) && v_args(&Args::parse(Line::from_bytes(t.clone()).map_err(|e| format!("printed {t:?}: {e}"))?)) != l {
        return Err(format!("printed as {t:?}"));
    }
    Ok(())
}
fn line(i: usize) -> Line<'static> {
    Line::from_bytes(VALS[i]).unwrap()
}
fn arg(i: usize) -> Arg<'static> {
    Arg::from_bytes(VALS[i]).unwrap()
}
static WORDS: std::sync::OnceLock<&'static [Arg<'static>]> = std::sync::OnceLock::new();
const OPS: usize = 18;
fn edit(start: usize, ix: &[usize], st: &mut Stats) -> R {
    let words: &'static [Arg<'static>] = WORDS.get_or_init(|| vec![arg(0), arg(1)].leak());
    let (mut a, mut l): (Args<'_>, Vec<Vec<u8>>) = match start {
        0 => (Args::empty(), vec![]),
        1 => (Args::new(words, None), vec![b"a".to_vec(), b"bb".to_vec()]),
        2 => (Args::new(&words[..1], Some(line(4))), vec![b"a".to_vec(), b"d e".to_vec()]),
        3 => (Args::new(vec![arg(1)], Some(line(0))), vec![b"bb".to_vec(), b"a".to_vec()]),
        4 => (Args::from(vec![arg(0)]), vec![b"a".to_vec()]),
        5 => (Args::parse(Line::from_str("x  y :z")), vec![b"x".to_vec(), b"y".to_vec(), b"z".to_vec()]),
        6 => (Args::parse(Line::from_str(":")), vec![b"".to_vec()]),
        // Long lists, the odd ones with a long last argument.
        n => {
            let mut l: Vec<Vec<u8>> = (0..n / 2).map(|i| format!("w{i}").into_bytes()).collect();
            let mut t = l.join(&b' ');
            if n % 2 == 1 {
                l.push(b"a long one".to_vec());
                t.extend_from_slice(b" :a long one");
            }
            (Args::parse(Line::from_bytes(t).unwrap()), l)
        }
    };
    views(&a, &l)?;
    for op in ix {
        let long = l.last().is_some_and(|x| !is_arg(x));
        match *op {
            // add
            i @ 0..=4 => {
                let r = a.edit().add(line(i));
                let old = if long { l.pop() } else { None };
                l.push(VALS[i].to_vec());
                if r.map(|r| r.to_vec()) != old {
                    return Err("add() returned something else than the replaced long argument".into());
                }
            }
            i @ 5..=6 => {
                a.edit().add_word(arg(i - 5));
                let at = l.len() - long as usize;
                l.insert(at, VALS[i - 5].to_vec());
            }
            i @ 7..=8 => {
                a.edit().add_before_last(arg(i - 7));
                let at = l.len().saturating_sub(1);
                l.insert(at, VALS[i - 7].to_vec());
            }
            9 => {
                a.edit().add_literal("lit");
                if long {
                    l.pop();
                }
                l.push(b"lit".to_vec());
            }
            10 => {
                a.edit().clear();
                l.clear();
            }
            11 => {
                a.clear();
                l.clear();
            }
            12 => {
                a.set([arg(1), arg(0)], Some(line(4)));
                l = vec![b"bb".to_vec(), b"a".to_vec(), b"d e".to_vec()];
            }
            13 => {
                a.set([arg(0)], Some(line(1)));
                l = vec![b"a".to_vec(), b"bb".to_vec()];
            }
            14 => {
                a.set([arg(0), arg(0)], None);
                l = vec![b"a".to_vec(), b"a".to_vec()];
            }
            15 => {
                // In-place change of the first word.
                if let Some(w) = a.edit().words().first_mut() {
                    *w = Arg::from_str("W");
                    l[0] = b"W".to_vec();
                }
            }
            16 => {
                // Two edits in one guard.
                let mut e = a.edit();
                e.add_word(arg(1));
                e.add(line(3));
                drop(e);
                let at = l.len() - long as usize;
                l.insert(at, b"bb".to_vec());
                if long {
                    l.pop();
                }
                l.push(b":c".to_vec());
            }
            _ => a = a.owning(),
        }
        views(&a, &l).map_err(|e| format!("after operation {op}: {e}"))?;
        st.step();
        st.state(&l);
    }
    if !l.is_empty() {
        st.nontrivial();
    }
    Ok(())
}

/// Reference CTCP parser: (command, body).
fn m_ctcp(l: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let Some(r) = l.strip_prefix(b"\x01") else { return (vec![], l.to_vec()) };
    let r = &r[..r.iter().position(|c| *c == 1).unwrap_or(r.len())];
    let e = r.iter().position(|c| *c == b' ').unwrap_or(r.len());
    if e == 0 {
        return (vec![], l.to_vec());
    }
    (r[..e].to_ascii_uppercase(), r.get(e + 1..).unwrap_or_default().to_vec())
}
fn ctcp_line(l: &[u8], st: &mut Stats) -> R {
    let (c, b) = m_ctcp(l);
    for o in [Own::Borrow, Own::Owned] {
        let p = MaybeCtcp::parse(Line::from_bytes(mkb(l, o)).unwrap());
        if p.cmd.as_bytes() != c || p.body.as_bytes() != b {
            return Err(format!("parsed as ({}, {}), expected ({}, {})", show(&p.cmd), show(&p.body), show(&c), show(&b)));
        }
        ctcp_back(p, st)?;
    }
    if !c.is_empty() {
        st.nontrivial();
    }
    st.outcome(&(c, b));
    Ok(())
}
/// Converting back and parsing again is lossless.
fn ctcp_back(p: MaybeCtcp<'_, Line<'_>>, st: &mut Stats) -> R {
    let (c, b) = (p.cmd.to_vec(), p.body.to_vec());
    if p.is_ctcp() != !c.is_empty() || p.is_empty() != (c.is_empty() && b.is_empty()) {
        return Err("is_ctcp / is_empty".into());
    }
    let n = p.len();
    let secret = p.cmd.is_secret() || p.body.is_secret();
    let l: Line = p.clone().into_line();
    if l.len() != n {
        return Err(format!("len() = {n} but the line {} has {} bytes", show(&l), l.len()));
    }
    if secret && !l.is_secret() {
        return Err("secret payload became public".into());
    }
    let want = if c.is_empty() { b.clone() } else { [b"\x01", &c[..], b" ", &b, b"\x01"].concat() };
    if l.as_bytes() != want {
        return Err(format!("converted to {}, expected {}", show(&l), show(&want)));
    }
    let q = MaybeCtcp::from(Line::from_bytes(l.as_bytes()).unwrap());
    if q.cmd.as_bytes() != c || q.body.as_bytes() != b {
        return Err(format!("({}, {}) -> {} -> ({}, {})", show(&c), show(&b), show(&l), show(&q.cmd), show(&q.body)));
    }
    let m = p.clone().map(|b| b.len());
    let e: Result<MaybeCtcp<usize>, ()> = p.clone().map_result(|b| Ok(b.len()));
    if m.cmd.as_bytes() != c || m.body != b.len() || e != Ok(m) || p.clone().map_result(|_| Err::<(), _>(7)) != Err(7) {
        return Err("map / map_result".into());
    }
    let it: Vec<(Vec<u8>, u8)> = p.map_iter(|b| b.to_vec()).map(|m| (m.cmd.to_vec(), m.body)).collect();
    if it.len() != b.len() || it.iter().zip(&b).any(|(m, x)| m.0 != c || m.1 != *x) {
        return Err("map_iter".into());
    }
    st.steps(5);
    Ok(())
}
/// Typed views of PRIVMSG-like messages.
fn typed(k: &str, args: &[usize], src: usize, tags: usize, st: &mut Stats) -> R {
    let m = MMsg {
        kind: k.as_bytes().to_vec(),
        args: args.iter().map(|i| VALS[*i].to_vec()).collect(),
        source: (src > 0).then(|| MSource { nick: b"n".to_vec(), user: (src > 2).then(|| b"~u".to_vec()), host: (src > 1).then(|| b"h".to_vec()) }),
        tags: [(b"t", &b"v"[..]), (b"u", b""), (b"z", b"; ")][..tags].iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect(),
    };
    let s = b_server(&m, Own::Borrow);
    let targeted = !matches!(k, "QUIT" | "WALLOPS");
    let n = 1 + targeted as usize;
    macro_rules! go {
        ($n:expr) => {{
            let r = s.parse_as($n);
            let want = m.args.len() == n;
            if r.is_ok() != want {
                return Err(format!("parse_as({k}): {:?}", r.map(|r| r.value)));
            }
            if let Ok(r) = r {
                st.nontrivial();
                let t: &[u8] = if targeted { &m.args[0] } else { b"*" };
                if r.target.as_bytes() != t || r.value.as_bytes() != &m.args[n - 1][..] || r.source != s.source || r.tags != s.tags {
                    return Err(format!("parse_as({k}) gives {r:?}"));
                }
                let c = b_client(&m, Own::Borrow);
                let r2 = c.parse_as($n).map_err(|e| e.to_string())?;
                if r2.target != r.target || r2.value != r.value || r2.source.is_some() {
                    return Err(format!("client parse_as({k}) gives {r2:?}"));
                }
                let mapped = r.clone().map(|v| v.len());
                if mapped.value != r.value.len() || mapped.target != r.target || mapped.tags != r.tags || mapped.source != r.source {
                    return Err("TargetedMsg::map".into());
                }
                let same = |x: &TargetedMsg<usize>, v: usize| x.value == v && x.target == r.target && x.tags == r.tags && x.source == r.source;
                let ok = r.clone().map_result(|v| Ok::<_, u8>(v.len()));
                if !ok.is_ok_and(|x| same(&x, r.value.len())) || r.clone().map_result(|_| Err::<usize, u8>(7)) != Err(7) {
                    return Err("TargetedMsg::map_result".into());
                }
                for k in 0..4usize {
                    let all: Vec<_> = r.clone().map_iter(|_| (0..k).map(|i| 10 + i)).collect();
                    if all.len() != k || all.iter().enumerate().any(|(i, x)| !same(x, 10 + i)) {
                        return Err(format!("TargetedMsg::map_iter over {k} values"));
                    }
                }
            }
        }};
    }
    match k {
        "NOTICE" => go!(cmd::NOTICE),
        "PART" => go!(cmd::PART),
        "PRIVMSG" => go!(cmd::PRIVMSG),
        "QUIT" => go!(cmd::QUIT),
        "TOPIC" => go!(cmd::TOPIC),
        _ => go!(cmd::WALLOPS),
    }
    if k == "PART" {
        let r = s.parse_as(cmd::JOIN);
        let want = m.args.len() == 1 && is_arg(&m.args[0]);
        if r.is_ok() != want || r.is_ok_and(|r| r.target.as_bytes() != &m.args[0][..]) {
            return Err("parse_as(JOIN)".into());
        }
    }
    st.steps(2);
    Ok(())
}

fn m_case(c: u8, map: u8) -> u8 {
    match (map, c) {
        (0, _) => c.to_ascii_uppercase(),
        (1 | 2, _) => c.to_ascii_lowercase(),
        (_, b'[') => b'{',
        (_, b'\\') => b'|',
        (_, b']') => b'}',
        (4, b'~') => b'^',
        _ => c.to_ascii_lowercase(),
    }
}
fn casemap(v: &[u8], st: &mut Stats) -> R {
    for map in 0..5u8 {
        let want: Vec<u8> = v.iter().map(|c| m_case(*c, map)).collect();
        let nt = want != v;
        for o in [Own::Borrow, Own::Owned, Own::Secret] {
            let mut b = mkb(v, o);
            match map {
                0 => b.transform(AsciiCasemap::<true>),
                1 => b.transform(AsciiCasemap::<false>),
                2 => b.transform(IrcCasemap::Ascii),
                3 => b.transform(IrcCasemap::Rfc1459Strict),
                _ => b.transform(IrcCasemap::Rfc1459),
            };
            if b.as_bytes() != want {
                return Err(format!("case map {map}: {}, expected {}", show(&b), show(&want)));
            }
            st.step();
        }
        if nt {
            st.nontrivial();
        }
    }
    Ok(())
}
fn trims(v: &[u8], st: &mut Stats) -> R {
    let ws = |c: &u8| b" \t\n\r\x0c".contains(c);
    for (i, side) in [StringSide::Start, StringSide::End, StringSide::StartFirst, StringSide::EndFirst].into_iter().enumerate() {
        let mut w = v;
        if i != 1 {
            while w.first().is_some_and(ws) {
                w = &w[1..];
            }
        }
        if i != 0 {
            while w.last().is_some_and(ws) {
                w = &w[..w.len() - 1];
            }
        }
        if w != v {
            st.nontrivial();
        }
        for o in [Own::Borrow, Own::Owned, Own::Secret] {
            let mut b = mkb(v, o);
            b.transform(TrimAscii(side));
            if b.as_bytes() != w {
                return Err(format!("trim {side:?}: {}, expected {}", show(&b), show(w)));
            }
            st.step();
        }
    }
    Ok(())
}

fn last_value(v: &[u8], st: &mut Stats) -> R {
    let Ok(l) = Line::from_bytes(v.to_vec()) else { return Ok(()) };
    st.nontrivial();
    for others in if v.len() < 3 { vec![0usize, 1, 2, 3, 4, 13, 14, 15, 16, 17] } else { vec![0, 1, 2] } {
        let words: Vec<Arg<'static>> = (0..others).map(|i| arg(i % 2)).collect();
        let mut want: Vec<Vec<u8>> = words.iter().map(|w| w.to_vec()).collect();
        want.push(v.to_vec());
        views(&Args::new(words.clone(), Some(l.clone())), &want).map_err(|e| format!("new: {e}"))?;
        for start in 0..7 {
            let mut a = starts(start);
            a.set(words.clone(), Some(l.clone()));
            views(&a, &want).map_err(|e| format!("set on {start}: {e}"))?;
        }
        let mut a = Args::from(words.clone());
        a.edit().add(l.clone());
        views(&a, &want).map_err(|e| format!("add: {e}"))?;
        let mut t = words.iter().map(|w| w.to_vec()).collect::<Vec<_>>().join(&b' ');
        if !t.is_empty() {
            t.push(b' ');
        }
        t.push(b':');
        t.extend(v);
        views(&Args::parse(Line::from_bytes(t).unwrap()), &want).map_err(|e| format!("parse: {e}"))?;
        if is_arg(v) {
            let w = Arg::from_bytes(v.to_vec()).unwrap();
            let mut a = Args::from(words.clone());
            a.edit().add_word(w.clone());
            views(&a, &want).map_err(|e| format!("add_word: {e}"))?;
            let mut x = words.clone();
            x.push(w.clone());
            views(&Args::from(x), &want).map_err(|e| format!("from: {e}"))?;
            let mut a = Args::from(words.clone());
            a.edit().add_before_last(w);
            let n = want.len();
            if n > 1 {
                want.swap(n - 1, n - 2);
            }
            views(&a, &want).map_err(|e| format!("add_before_last: {e}"))?;
        }
        st.steps(5);
    }
    st.outcome(&is_arg(v));
    Ok(())
}
fn starts(start: usize) -> Args<'static> {
    match start {
        0 => Args::empty(),
        1 => Args::new(vec![arg(0), arg(1)], None),
        2 => Args::new(vec![arg(0)], Some(line(4))),
        3 => Args::new(vec![arg(1)], Some(line(0))),
        4 => Args::from(vec![arg(0)]),
        5 => Args::parse(Line::from_str("x  y :z")),
        _ => Args::parse(Line::from_str(":")),
    }
}

pub fn run(ctx: &mut Ctx) {
    let n = ctx.pick(3, 4);
    ctx.section("edits", &format!("all sequences of up to {n} of {OPS} operations from 7 starting lists"));
    for start in 0..7 {
        seqs(OPS, 0, n, |ix| {
            ctx.case(|| format!("start {start} ops {ix:?}"), |st| edit(start, ix, st));
        });
    }
    let n = ctx.pick(6, 8);
    ctx.section("ctcp lines", &format!("all bodies over 01 a B space . up to length {n}"));
    words(b"\x01aB .", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| ctcp_line(&w, st));
    });
    ctx.section("ctcp pairs", "commands x bodies from pools, including secrets, and non-CTCP bodies");
    for c in [&b"VERSION"[..], b"A", b"X.Y", b"9", b"\xff"] {
        for b in [&b""[..], b" ", b"x", b"  lead", b"a b c", b"\xff", b"trail "] {
            for o in [Own::Borrow, Own::Owned, Own::Secret] {
                ctx.case(|| format!("{} {}", show(c), show(b)), |st| {
                    st.nontrivial();
                    ctcp_back(MaybeCtcp { cmd: Word::from_bytes(c).unwrap(), body: Line::from_bytes(mkb(b, o)).unwrap() }, st)?;
                    ctcp_back(MaybeCtcp { cmd: Word::default(), body: Line::from_bytes(mkb(b, o)).unwrap() }, st)
                });
            }
        }
    }
    let n = ctx.pick(3, 4);
    ctx.section("typed", &format!("PRIVMSG, NOTICE, PART, QUIT, TOPIC, WALLOPS, JOIN with every argument list of up to {n} x 4 sources x 0..=3 tags"));
    for k in ["NOTICE", "PART", "PRIVMSG", "QUIT", "TOPIC", "WALLOPS"] {
        seqs(VALS.len(), 0, n, |ix| {
            if ix.iter().rev().skip(1).any(|i| *i > 1) {
                return;
            }
            for src in 0..4 {
                for tags in 0..4 {
                    ctx.case(|| format!("{k} {ix:?} source {src} tags {tags}"), |st| typed(k, ix, src, tags, st));
                }
            }
        });
    }
    let n = ctx.pick(3, 4);
    ctx.section("case maps", &format!("all 256 bytes alone and between letters; all strings over 12 bytes up to length {n}"));
    for c in 0..=255u8 {
        ctx.case(|| format!("byte {c}"), |st| {
            casemap(&[c], st)?;
            casemap(&[b'a', c, b'Z'], st)?;
            casemap(&[b'A', c, b'z', c], st)
        });
    }
    words(b"aZ[]\\{|}~^@\xc3", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| casemap(&w, st));
    });
    ctx.case(|| "names".into(), |_| {
        let f = IrcCasemap::from_name;
        if f(b"ascii") != Some(IrcCasemap::Ascii) || f(b"rfc1459") != Some(IrcCasemap::Rfc1459) || f(b"rfc1459-strict") != Some(IrcCasemap::Rfc1459Strict) || f(b"").is_some() || f(b"utf8").is_some() {
            return Err("IrcCasemap::from_name".into());
        }
        Ok(())
    });
    let n = ctx.pick(6, 7);
    ctx.section("trims", &format!("all strings over whitespace and ordinary bytes up to length {n} x 4 sides"));
    words(b" \ta\x0c\xff\x0b", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| trims(&w, st));
    });
    ctx.section("long", "strings of length 4..=70 with each special byte at each position (case maps), each run of blanks at either end (trims); lists of 5..=45 arguments x all pairs of operations (thorough: triples)");
    for len in 4..=70usize {
        for fill in [b'a', b'Z', b'.'] {
            ctx.case(|| format!("case map length {len} fill {fill}"), |st| {
                for c in *b"aZ[]\\{|}~^@\xc3\xff" {
                    for at in 0..len {
                        let mut v = vec![fill; len];
                        v[at] = c;
                        casemap(&v, st)?;
                    }
                }
                Ok(())
            });
        }
        ctx.case(|| format!("trim length {len}"), |st| {
            for a in (0..=len).filter(|a| len <= 24 || *a < 10 || len - *a < 10) {
                for b in 0..=(len - a).min(9) {
                    let mut v = vec![b'x'; len];
                    v[..a].fill(b' ');
                    v[len - b..].fill(b'\t');
                    trims(&v, st)?;
                    if a + b + 2 < len {
                        v[a + 1] = b' ';
                        trims(&v, st)?;
                    }
                }
            }
            Ok(())
        });
    }
    let d = ctx.pick(1, 2);
    for start in 10..90usize {
        seqs(OPS, 0, d, |ix| {
            ctx.case(|| format!("list of {} arguments, long last {}, ops {ix:?}", start / 2, start % 2 == 1), |st| edit(start, ix, st));
        });
    }
    ctx.section("values", "every last argument of no or one byte, of two bytes over 40, and of every length to 300, through every way of setting it, with 0 to 2 (short values: to 17) others");
    let mut vals: Vec<Vec<u8>> = vec![vec![]];
    vals.extend((0..=255u8).map(|c| vec![c]));
    let two = b"aZ09:;,=!@#&+-*%$~^_.?/\\|'\"`(){}[]<> \x01\t\xff";
    for a in two {
        for b in two {
            vals.push(vec![*a, *b]);
        }
    }
    for n in 3..=300usize {
        for c in [b'x', b' ', b':', b'#', 0xc3] {
            let mut v = vec![b'y'; n];
            v[0] = c;
            vals.push(v.clone());
            v.swap(0, n - 1);
            vals.push(v);
        }
    }
    for v in vals {
        ctx.case(|| show(&v), |st| last_value(&v, st));
    }
}
