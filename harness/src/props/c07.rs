//! C07: UTF-8 knowledge about byte strings is always truthful.
use crate::engine::*;
use std::borrow::Cow;
use vinezombie::string::tf::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C07",
    rule: "every operation sequence up to the bound, from every starting string and initial UTF-8 knowledge; after every operation the remaining bytes equal the model's and every claim is compared with a real UTF-8 check; non-trivial: the string holds multi-byte or invalid bytes and a claim was made",
    assumptions: &["std's from_utf8 and from_utf8_lossy are the definition of UTF-8 validity and lossy decoding", "user-written Transform implementations (an unsafe trait) are truthful about their own policy"],
};

fn real(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}

/// Every claim of `b` is true.
fn truth(what: &str, b: &Bytes, st: &mut Stats) -> R {
    let r = real(b.as_bytes());
    st.step();
    match b.is_utf8_lazy() {
        Some(c) => {
            if c != r {
                return Err(format!("{what}: {} claims utf8={c}", show(b.as_bytes())));
            }
            if !b.as_bytes().is_ascii() {
                st.nontrivial();
            }
        }
        None => (),
    }
    let c = b.clone();
    if c.is_utf8_lazy().is_some_and(|v| v != r) {
        return Err(format!("{what}: a clone of {} claims otherwise", show(b)));
    }
    if c.to_utf8().map(|s| s.as_bytes()) != r.then_some(b.as_bytes()) {
        return Err(format!("{what}: to_utf8 of {} is {:?}", show(b), c.to_utf8()));
    }
    if c.is_utf8_lazy() != Some(r) {
        return Err(format!("{what}: after to_utf8 of {} the claim is {:?}", show(b), c.is_utf8_lazy()));
    }
    let c = b.clone();
    let want = String::from_utf8_lossy(b.as_bytes());
    if c.to_utf8_lossy() != want {
        return Err(format!("{what}: lossy view of {} is {:?}", show(b), c.to_utf8_lossy()));
    }
    if c.is_utf8_lazy() != Some(r) {
        return Err(format!("{what}: after to_utf8_lossy of {} the claim is {:?}", show(b), c.is_utf8_lazy()));
    }
    let l = b.clone().into_utf8_lossy();
    if l.as_bytes() != want.as_bytes() || l.is_utf8_lazy() == Some(false) {
        return Err(format!("{what}: into_utf8_lossy of {} is {}", show(b), show(&l)));
    }
    if !b.is_secret() {
        let d = b.to_string();
        if r && d.as_bytes() != b.as_bytes() || !r && d != DISPLAY_PLACEHOLDER {
            return Err(format!("{what}: Display of {} is {d:?}", show(b)));
        }
    }
    if r {
        let s = std::str::from_utf8(b.as_bytes()).unwrap();
        if b != s || *b != *s {
            return Err(format!("{what}: {} != its own text", show(b)));
        }
    }
    Ok(())
}

/// A string with one of four levels of initial knowledge.
fn start<'a>(b: &'a [u8], k: usize) -> Option<Bytes<'a>> {
    Some(match k {
        0 => Bytes::from_bytes(b),
        1 => Bytes::from_str(std::str::from_utf8(b).ok()?),
        2 => {
            let v = Bytes::from(b.to_vec());
            let _ = v.to_utf8();
            v
        }
        3 => Bytes::from(String::from_utf8(b.to_vec()).ok()?),
        4 => {
            let v = Bytes::from_secret(b.to_vec());
            let _ = v.to_utf8_lossy();
            v
        }
        _ => return None,
    })
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Next,
    RNext,
    Count(usize),
    UntilA,
    UntilHigh,
    Eq(u8),
    Check,
    Ws,
    InvWord,
    InvNick,
    Str,
    StrKey,
    StrAll,
    Rest,
    Save(bool, bool),
    Restore,
}
const OPS: &[Op] = &[
    Op::Next,
    Op::RNext,
    Op::Count(1),
    Op::Count(2),
    Op::Count(3),
    Op::UntilA,
    Op::UntilHigh,
    Op::Eq(b'b'),
    Op::Eq(0xa9),
    Op::Check,
    Op::Ws,
    Op::InvWord,
    Op::InvNick,
    Op::Str,
    Op::StrKey,
    Op::StrAll,
    Op::Rest,
    Op::Save(true, true),
    Op::Save(true, false),
    Op::Save(false, true),
    Op::Restore,
];

struct M<'a> {
    b: &'a [u8],
    s: usize,
    e: usize,
}

fn look<T: BytesNewtypePub>(sp: &Splitter<T>, m: &M, op: &dyn std::fmt::Debug) -> R
where
    Splitter<T>: Sized,
    T: AsRef<[u8]>,
{
    let want = &m.b[m.s..m.e];
    if sp.as_slice() != want || sp.len() != want.len() || sp.is_empty() != want.is_empty() {
        return Err(format!("after {op:?}: splitter holds {}, expected {}", show(sp.as_slice()), show(want)));
    }
    if sp.is_utf8_lazy() && !real(want) {
        return Err(format!("after {op:?}: splitter over {} claims UTF-8", show(want)));
    }
    if sp.peek_byte() != want.first().copied() || sp.rpeek_byte() != want.last().copied() {
        return Err(format!("after {op:?}: peek"));
    }
    Ok(())
}
trait BytesNewtypePub {}
impl<T> BytesNewtypePub for T {}

fn split(sp: &mut Splitter<Bytes<'_>>, ops: &[Op], m: &mut M, nested: bool, st: &mut Stats) -> Result<usize, String> {
    let mut i = 0;
    while i < ops.len() {
        let op = ops[i];
        i += 1;
        let cur = &m.b[m.s..m.e];
        match op {
            Op::Next => {
                if sp.next_byte() != cur.first().copied() {
                    return Err("next_byte".into());
                }
                m.s += !cur.is_empty() as usize;
            }
            Op::RNext => {
                if sp.rnext_byte() != cur.last().copied() {
                    return Err("rnext_byte".into());
                }
                m.e -= !cur.is_empty() as usize;
            }
            Op::Count(n) => {
                sp.until_count(n);
                m.e = m.e.min(m.s + n);
            }
            Op::UntilA => {
                sp.until_byte(|c| *c == b'a');
                if let Some(p) = cur.iter().position(|c| *c == b'a') {
                    m.e = m.s + p;
                }
            }
            Op::UntilHigh => {
                sp.until_byte(|c| *c >= 0xa0 && *c < 0xc0);
                if let Some(p) = cur.iter().position(|c| *c >= 0xa0 && *c < 0xc0) {
                    m.e = m.s + p;
                }
            }
            Op::Eq(x) => {
                sp.until_byte_eq(x);
                if let Some(p) = cur.iter().position(|c| *c == x) {
                    m.e = m.s + p;
                }
            }
            Op::Check => {
                let r = sp.check_encoding().is_ok();
                if r != real(cur) {
                    return Err(format!("check_encoding of {} = {r}", show(cur)));
                }
                if r && !sp.is_utf8_lazy() {
                    return Err("check_encoding succeeded without effect".into());
                }
            }
            Op::Ws => {
                sp.consume_whitespace();
                m.s += cur.iter().position(|c| !c.is_ascii_whitespace()).unwrap_or(cur.len());
            }
            Op::InvWord => {
                sp.consume_invalid::<Word>();
                m.s += cur.iter().position(|c| !b"\0\r\n ".contains(c)).unwrap_or(cur.len());
            }
            Op::InvNick => {
                sp.consume_invalid::<Nick>();
                m.s += cur.iter().position(|c| !b"\0\r\n ,!@".contains(c)).unwrap_or(cur.len());
            }
            Op::Str => {
                let w = sp.string_or_default::<Word>(false);
                let n = cur.iter().position(|c| b"\0\r\n ".contains(c)).unwrap_or(cur.len());
                if w.as_bytes() != &cur[..n] {
                    return Err(format!("string::<Word> of {} is {}", show(cur), show(&w)));
                }
                truth("string::<Word>", &w.into_bytes(), st)?;
                m.s += n;
            }
            Op::StrKey => {
                let n = cur.iter().position(|c| b"\0\r\n =;".contains(c)).unwrap_or(cur.len());
                let ok = n > 0 && cur[0] != b':';
                match sp.string::<Key>(false) {
                    Ok(w) if ok && w.as_bytes() == &cur[..n] => {
                        truth("string::<Key>", &w.into_bytes(), st)?;
                        m.s += n;
                    }
                    Err(_) if !ok => (),
                    x => return Err(format!("string::<Key> of {} is {x:?}", show(cur))),
                }
            }
            Op::StrAll => {
                let ok = !cur.iter().any(|c| b"\0\r\n".contains(c));
                match sp.string::<Line>(true) {
                    Ok(w) if ok && w.as_bytes() == cur => {
                        truth("string::<Line>", &w.into_bytes(), st)?;
                        m.s = m.e;
                    }
                    Err(_) if !ok => (),
                    x => return Err(format!("string::<Line>(true) of {} is {x:?}", show(cur))),
                }
            }
            Op::Rest => {
                let w = sp.rest::<Bytes>().map_err(|e| format!("rest: {e:?}"))?;
                if w.as_bytes() != cur {
                    return Err(format!("rest of {} is {}", show(cur), show(&w)));
                }
                truth("rest", &w, st)?;
                m.s = m.e;
            }
            Op::Save(a, b) => {
                let (s0, e0) = (m.s, m.e);
                let mut g = sp.save(a, b);
                let n = split(&mut g, &ops[i..], m, true, st)?;
                i += n;
                drop(g);
                if a {
                    m.s = s0;
                }
                if b {
                    m.e = e0;
                }
            }
            Op::Restore => {
                if nested {
                    return Ok(i);
                }
                // Not nested: a copy of the splitter is independent.
                let mut c = sp.clone();
                c.next_byte();
            }
        }
        look(sp, m, &op)?;
        let cur = &m.b[m.s..m.e];
        let p = sp.peek_rest::<Bytes>().map_err(|e| format!("peek_rest: {e:?}"))?;
        if p.as_bytes() != cur {
            return Err(format!("peek_rest of {} is {}", show(cur), show(&p)));
        }
        truth(&format!("peek_rest after {op:?}"), &p, st)?;
        let p = sp.peek_string::<Bytes>(true).map_err(|e| format!("{e:?}"))?;
        truth(&format!("peek_string after {op:?}"), &p, st)?;
        st.state(&(m.b, m.s, m.e, sp.is_utf8_lazy()));
    }
    Ok(i)
}

/// A transformation with a truthful policy.
struct Tf(u8);
unsafe impl Transform for Tf {
    type Value = usize;
    fn transform<'a>(self, bytes: &Bytes<'a>) -> Transformation<'a, usize> {
        let b = unsafe { bytes.as_bytes_unsafe() };
        let (transformed, utf8): (Cow<'a, [u8]>, Utf8Policy) = match self.0 {
            // Borrowed halves, cut anywhere.
            0 => (Cow::Borrowed(&b[b.len() / 2..]), Utf8Policy::Recheck),
            1 => (Cow::Borrowed(&b[..b.len() / 2]), Utf8Policy::Recheck),
            // Owned, an invalid byte appended.
            2 => (Cow::Owned([b, b"\xff"].concat()), Utf8Policy::Invalid),
            // A static string.
            3 => (Cow::Borrowed("ünï".as_bytes()), Utf8Policy::Valid),
            // Appends a valid character: valid iff the input was... valid before an ASCII start.
            4 => (Cow::Owned([b, "é".as_bytes()].concat()), Utf8Policy::PreserveStrict),
            // Drops a leading invalid byte or ASCII: valid if the input was, maybe valid otherwise.
            5 => {
                let n = b.iter().take_while(|c| c.is_ascii()).count();
                match b.get(n) {
                    Some(c) if *c >= 0xf8 || (0x80..0xc0).contains(c) => (Cow::Borrowed(&b[n + 1..]), Utf8Policy::Preserve),
                    _ => (Cow::Borrowed(&b[n..]), Utf8Policy::Preserve),
                }
            }
            6 => {
                let v: Vec<u8> = b.iter().copied().filter(|c| c.is_ascii()).collect();
                (Cow::Owned(v), Utf8Policy::Preserve)
            }
            7 => (Cow::Borrowed(&[0xc3u8][..]), Utf8Policy::Invalid),
            8 => {
                let v: Vec<u8> = b.iter().copied().filter(|c| !(0x80..0xc0).contains(c) ).collect();
                (Cow::Owned(v), Utf8Policy::Recheck)
            }
            _ => (Cow::Borrowed(&b[b.len()..]), Utf8Policy::Valid),
        };
        Transformation { value: b.len(), transformed, utf8 }
    }
}
fn tf_model(k: u8, b: &[u8]) -> Vec<u8> {
    Tf(k).transform(&Bytes::from_bytes(b)).transformed.into_owned()
}

const CHAIN: usize = 22;
fn chain(init: Bytes<'_>, ops: &[usize], st: &mut Stats) -> R {
    let mut v = init;
    let mut m = v.as_bytes().to_vec();
    truth("start", &v, st)?;
    for o in ops {
        let what = format!("chain op {o}");
        match *o {
            k @ 0..=9 => {
                let n = v.transform(Tf(k as u8));
                if n != m.len() {
                    return Err("transform value".into());
                }
                m = tf_model(k as u8, &m);
            }
            10 => {
                v.transform(AsciiCasemap::<true>);
                m.make_ascii_uppercase();
            }
            11 => {
                v.transform(IrcCasemap::Rfc1459);
                for c in m.iter_mut() {
                    *c = match *c {
                        b'[' => b'{',
                        b']' => b'}',
                        b'\\' => b'|',
                        b'~' => b'^',
                        c => c.to_ascii_lowercase(),
                    }
                }
            }
            12 => {
                v.transform(TrimAscii(StringSide::EndFirst));
                m = m.trim_ascii().to_vec();
            }
            13 => v = v.owning(),
            14 => v = v.clone(),
            15 => {
                let _ = v.to_utf8();
            }
            16 => {
                v = v.into_utf8_lossy();
                m = String::from_utf8_lossy(&m).into_owned().into_bytes();
            }
            17 => v = v.secret(),
            18 => v = Bytes::from(Vec::<u8>::from(v)),
            19 => {
                let c: Cow<[u8]> = v.into();
                v = Bytes::from(c.into_owned());
            }
            20 => {
                if let Ok(n) = NoNul::from_bytes(v.clone()) {
                    v = n.into_bytes();
                    v = unescape(escape(NoNul::from_bytes(v).unwrap())).into_bytes();
                    // Which bytes these yield is C04's business.
                    m = v.as_bytes().to_vec();
                }
            }
            _ => {
                let s = v.to_utf8_lossy();
                let s: Cow<str> = s.into_owned().into();
                v = Bytes::from(s);
                m = String::from_utf8_lossy(&m).into_owned().into_bytes();
            }
        }
        if v.as_bytes() != &m[..] {
            return Err(format!("{what}: got {}, expected {}", show(&v), show(&m)));
        }
        truth(&what, &v, st)?;
    }
    st.outcome(&m);
    Ok(())
}

fn builder(init: NoNul<'_>, ops: &[(usize, &[u8])], st: &mut Stats) -> R {
    let mut m = init.as_bytes().to_vec();
    let mut b = Builder::<NoNul>::new(init);
    for (k, p) in ops {
        match k {
            0 => {
                b.try_append(p).map_err(|e| format!("{e:?}"))?;
                m.extend_from_slice(p);
            }
            1 => {
                let Ok(s) = std::str::from_utf8(p) else { continue };
                b.try_append_str(s).map_err(|e| format!("{e:?}"))?;
                m.extend_from_slice(p);
            }
            2 => {
                for c in *p {
                    b.try_push(*c).map_err(|e| format!("{e:?}"))?;
                }
                m.extend_from_slice(p);
            }
            3 => {
                let Ok(s) = std::str::from_utf8(p) else { continue };
                for c in s.chars() {
                    b.try_push_char(c).map_err(|e| format!("{e:?}"))?;
                }
                m.extend_from_slice(p);
            }
            4 => {
                let Some(v) = start(p, 2) else { continue };
                b.append(NoNul::from_bytes(v).unwrap());
                m.extend_from_slice(p);
            }
            5 => {
                b.append(NoNul::from_bytes(*p).unwrap());
                m.extend_from_slice(p);
            }
            8 => {
                let mut v = vec![Bytes::from_secret(p.to_vec()), Bytes::from_bytes(p)];
                let w = v.remove((m.len() % 2 == 1 && !m.is_empty()) as usize);
                b.append(NoNul::from_bytes(w.secret()).unwrap());
                m.extend_from_slice(p);
            }
            6 => {
                if !p.is_empty() {
                    continue;
                }
                let r = b.check_utf8().is_ok();
                if r != real(&m) {
                    return Err(format!("Builder::check_utf8 of {} = {r}", show(&m)));
                }
            }
            _ => {
                if !p.is_empty() {
                    continue;
                }
                b = Builder::new(b.build());
            }
        }
        let built = b.clone().build();
        if built.as_bytes() != &m[..] {
            return Err(format!("Builder holds {}, expected {}", show(&built), show(&m)));
        }
        truth(&format!("Builder after op {k} {}", show(p)), &built.into_bytes(), st)?;
        st.state(&(&m, b.check_utf8().is_ok()));
    }
    Ok(())
}

fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    h64(t)
}

pub fn run(ctx: &mut Ctx) {
    let strings: Vec<&[u8]> = vec![
        b"",
        b"ab",
        b" a b",
        "é".as_bytes(),
        "aé".as_bytes(),
        "éa".as_bytes(),
        "aéb".as_bytes(),
        "é é".as_bytes(),
        b"\xc3",
        b"a\xc3",
        b"\xa9b",
        b"\xc3\xa9\xc3",
        b"a\xffb",
        "€".as_bytes(),
        "a€b".as_bytes(),
        "😀=é".as_bytes(),
        b"\xe2\x82 a",
        b"\ta\r\n\xc3\xa9",
        b",!@\xc3\xa9=;",
    ];
    ctx.section("splitter", "19 strings x 5 kinds of initial knowledge x every sequence of 21 splitter operations (nested save/restore) to depth 3 (thorough 4)");
    let d = ctx.pick(3, 4);
    for s in &strings {
        for k in 0..5 {
            if start(s, k).is_none() || (k >= 3 && !ctx.thorough() && s.len() > 4) {
                continue;
            }
            seqs(OPS.len(), 0, d, |ix| {
                let ops: Vec<Op> = ix.iter().map(|i| OPS[*i]).collect();
                ctx.case(
                    || format!("{} knowledge {k} ops {ops:?}", show(s)),
                    |st| {
                        let mut sp = Splitter::new(start(s, k).unwrap());
                        let mut m = M { b: s, s: 0, e: s.len() };
                        look(&sp, &m, &"new")?;
                        split(&mut sp, &ops, &mut m, false, st)?;
                        Ok(())
                    },
                );
            });
        }
    }
    ctx.section("splitter-save", "deeper: save .. op op .. restore .. op patterns, all pairs inside and all operations after");
    let inner: Vec<usize> = (0..17).collect();
    for s in &strings {
        for k in [0, 2] {
            for save in 17..20 {
                seqs(inner.len(), 1, ctx.pick(2, 3), |ix| {
                    for after in 0..17 {
                        let mut v = vec![OPS[save]];
                        v.extend(ix.iter().map(|i| OPS[*i]));
                        v.push(Op::Restore);
                        v.push(OPS[after]);
                        ctx.case(
                            || format!("{} knowledge {k} ops {v:?}", show(s)),
                            |st| {
                                let mut sp = Splitter::new(start(s, k).unwrap());
                                let mut m = M { b: s, s: 0, e: s.len() };
                                split(&mut sp, &v, &mut m, false, st)?;
                                Ok(())
                            },
                        );
                    }
                });
            }
        }
    }
    ctx.section("builder", "6 initial values x 5 kinds of initial knowledge x every sequence of (operation, piece) to depth 3 (thorough 4)");
    let pieces: [&[u8]; 6] = [b"", b"a", b"\xc3", b"\xa9", "é".as_bytes(), b"\xff"];
    for init in [&b""[..], b"a", b"\xc3", "é".as_bytes(), b"\xe2\x82", b"\xff"] {
        for k in 0..5 {
            let Some(s0) = start(init, k) else { continue };
            let depth = ctx.pick(if k < 3 || k == 4 { 3 } else { 2 }, if k == 0 { 4 } else { 3 });
            seqs(9 * pieces.len(), 0, depth, |ix| {
                if ix.iter().any(|i| matches!(i % 9, 6 | 7) && i / 9 != 0) {
                    return;
                }
                let ops: Vec<(usize, &[u8])> = ix.iter().map(|i| (i % 9, pieces[i / 9])).collect();
                ctx.case(
                    || format!("init {} ({k}) ops {:?}", show(init), ops.iter().map(|(k, p)| format!("{k}:{}", show(p))).collect::<Vec<_>>()),
                    |st| builder(NoNul::from_bytes(s0.clone()).unwrap(), &ops, st),
                );
            });
        }
    }
    ctx.section("chain", "every start x every chain of 22 derivations (casemaps, trims, custom transforms of each UTF-8 policy, ownership, lossy) to depth 3 (thorough 4)");
    for s in &strings {
        for k in 0..5 {
            if start(s, k).is_none() {
                continue;
            }
            seqs(CHAIN, 0, ctx.pick(3, 4), |ix| {
                ctx.case(|| format!("{} knowledge {k} chain {ix:?}", show(s)), |st| chain(start(s, k).unwrap(), ix, st));
            });
        }
    }
    ctx.section("long", "strings of length 4..=40 (thorough 70) with one odd character (1 to 4 bytes, or a broken one) at each position: every derivation, every splitter operation after each offset, builders fed in two parts");
    let odd: [&[u8]; 7] = ["é".as_bytes(), "€".as_bytes(), "😀".as_bytes(), b"\xff", b"\xc3", b"\xa9", b"\xe2\x82"];
    let top = ctx.pick(40, 70);
    for len in 4..=top {
        for o in odd {
            for at in 0..=len {
                let mut s = vec![b'a'; len];
                s.splice(at..at, o.iter().copied());
                ctx.case(
                    || format!("length {len} odd {} at {at}", show(o)),
                    |st| {
                        for k in 0..5 {
                            let Some(b) = start(&s, k) else { continue };
                            for d in 0..CHAIN {
                                chain(b.clone(), &[d], st)?;
                            }
                            for op in OPS.iter().take(17) {
                                let mut sp = Splitter::new(b.clone());
                                let mut m = M { b: &s, s: 0, e: s.len() };
                                split(&mut sp, &[*op, *op], &mut m, false, st)?;
                            }
                            let (x, y) = s.split_at(at.min(s.len()));
                            for how in [0, 1, 2, 3, 4, 5, 8] {
                                builder(NoNul::from_bytes(b.clone()).unwrap(), &[(how, y)], st)?;
                                builder(NoNul::from_bytes(Bytes::from(x.to_vec())).unwrap(), &[(how, y)], st)?;
                                builder(NoNul::default(), &[(how, x), (how, y)], st)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    ctx.section("order", "all pairs of byte strings of length 0..=2 over 7 bytes with every knowledge: equality, order, hash agree with the bytes");
    let mut ws = Vec::new();
    words(b"\0aA \xc3\xa9\xff", 0, 2, |w| ws.push(w.to_vec()));
    for a in &ws {
        for b in &ws {
            ctx.case(
                || format!("{} vs {}", show(a), show(b)),
                |st| {
                    for k in 0..5 {
                        for j in 0..5 {
                            let (Some(x), Some(y)) = (start(a, k), start(b, j)) else { continue };
                            st.step();
                            if (x == y) != (a == b) || x.cmp(&y) != a.cmp(b) || x.partial_cmp(&y) != Some(a.cmp(b)) {
                                return Err(format!("comparison ({k},{j})"));
                            }
                            if hash(&x) != hash(&a[..]) {
                                return Err("hash differs from the byte slice's".into());
                            }
                            if (x == b[..]) != (a == b) || (x == &b[..]) != (a == b) {
                                return Err("comparison with a slice".into());
                            }
                            if let Ok(s) = std::str::from_utf8(b) {
                                if (x == *s) != (a == b) || (x == s) != (a == b) {
                                    return Err("comparison with str".into());
                                }
                            }
                            macro_rules! nt { ($($t:ident),*) => {$(
                                if let (Ok(x), Ok(y)) = ($t::from_bytes(x.clone()), $t::from_bytes(y.clone())) {
                                    if (x == y) != (a == b) || x.cmp(&y) != a.cmp(b) || x.partial_cmp(&y) != Some(a.cmp(b)) || hash(&x) != hash(&a[..]) {
                                        return Err(format!("{} comparison", stringify!($t)));
                                    }
                                    if let Ok(s) = std::str::from_utf8(b) { if (x == *s) != (a == b) { return Err("newtype vs str".into()); } }
                                }
                            )*}; }
                            nt!(NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd);
                            st.nontrivial();
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
