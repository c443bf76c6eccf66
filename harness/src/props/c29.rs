//! C29: values keep their contents, whatever happens to what they were derived from.
use super::c08::{derive, Half, NOPS};
use super::irc::*;
use crate::alloc;
use crate::engine::*;
use std::borrow::Cow;
use vinezombie::ircmsg::*;
use vinezombie::owning::MakeOwning;
use vinezombie::string::tf::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C29",
    rule: "every history, up to the bound, of cloning, splitting, transforming, converting and dropping strings that share storage, and of taking owning forms of every part of every message of a grid; contents are compared with a snapshot after every step, after the source buffer was overwritten and after it was freed (freed memory is poisoned), and nothing may remain allocated; non-trivial: at least two values were alive at once",
    assumptions: &["a read of freed memory is only seen when it shows in the contents (freed memory is poisoned and quarantined)"],
};

/// A buffer on the heap that values may borrow from; the harness decides when it dies.
struct Src(*mut [u8]);
impl Src {
    fn new(b: &[u8]) -> Self {
        Src(Box::into_raw(b.to_vec().into_boxed_slice()))
    }
    fn get(&self) -> &'static [u8] {
        unsafe { &*self.0 }
    }
    fn scribble(&mut self) {
        unsafe { (*self.0).fill(0xEE) }
    }
    fn free(self) {
        drop(unsafe { Box::from_raw(self.0) })
    }
}

const KINDS: usize = 7;
fn make(kind: usize, src: &Src) -> Bytes<'static> {
    let b = src.get();
    match kind {
        0 => Bytes::from_bytes(b),
        1 => Bytes::from(b.to_vec()),
        2 => {
            let mut v = Vec::with_capacity(b.len() + 5);
            v.extend_from_slice(b);
            Bytes::from(v)
        }
        3 => Bytes::from_secret(b.to_vec()),
        4 => {
            let mut s = SecretBuf::with_capacity(3);
            s.push_slice(b);
            s.into_bytes()
        }
        5 => Bytes::from_bytes(b).secret(),
        _ => {
            // Storage shared with a part that is already gone.
            let mut v = b"xx".to_vec();
            v.extend_from_slice(b);
            let mut s = Splitter::new(Bytes::from(v));
            s.next_byte();
            s.next_byte();
            s.rest::<Bytes>().unwrap()
        }
    }
}

struct Pool {
    v: Vec<(Bytes<'static>, Vec<u8>)>,
}
impl Pool {
    fn check(&self, when: &str) -> R {
        for (i, (b, c)) in self.v.iter().enumerate() {
            if b.as_bytes() != c.as_slice() {
                return Err(format!("{when}: value {i} holds {}, expected {}", show(b), show(c)));
            }
        }
        Ok(())
    }
    fn push(&mut self, b: Bytes<'static>) {
        if self.v.len() < 3 {
            let c = b.as_bytes().to_vec();
            self.v.push((b, c));
        }
    }
}

const POPS: usize = 15;
const POP_NAMES: [&str; POPS] = [
    "clone", "drop", "owning", "into_vec+scribble", "into_vec+push", "split", "uppercase", "half", "build", "secret", "cow", "lossy", "make_owning",
    "halves", "into line",
];
fn pool_op(p: &mut Pool, op: usize, i: usize) -> R {
    let i = if i < p.v.len() { i } else { return Ok(()) };
    match op {
        0 => {
            let c = p.v[i].0.clone();
            p.push(c);
        }
        1 => drop(p.v.remove(i)),
        2 => {
            let (b, c) = p.v.remove(i);
            let o: Bytes<'static> = b.owning();
            if !o.is_empty() && !o.is_owning() {
                return Err("owning() gives a string that is not owning".into());
            }
            p.v.insert(i, (o, c));
        }
        3 => {
            let (b, c) = p.v.remove(i);
            let mut v = b.into_vec();
            if v != c {
                return Err(format!("into_vec gives {}, expected {}", show(&v), show(&c)));
            }
            v.fill(0xEE);
            let n = v.capacity() - v.len();
            v.extend(std::iter::repeat(0xEE).take(n));
        }
        4 => {
            let (b, mut c) = p.v.remove(i);
            let mut v: Vec<u8> = b.into();
            v.push(b'!');
            c.push(b'!');
            p.v.insert(i, (Bytes::from(v), c));
        }
        5 => {
            let mut s = Splitter::new(p.v[i].0.clone());
            let c = p.v[i].1.clone();
            let a = s.save_end().until_count(1).rest::<Bytes>().unwrap();
            let r = s.rest::<Bytes>().unwrap();
            let cut = c.len().min(1);
            if a.as_bytes() != &c[..cut] || r.as_bytes() != &c[cut..] {
                return Err(format!("split of {} gives {} and {}", show(&c), show(&a), show(&r)));
            }
            p.push(r);
            p.push(a);
        }
        6 => {
            let (b, c) = &mut p.v[i];
            b.transform(AsciiCasemap::<true>);
            c.make_ascii_uppercase();
        }
        7 => {
            let (b, c) = &mut p.v[i];
            b.transform(Half);
            *c = c[c.len() / 2..].to_vec();
        }
        8 => {
            let (b, c) = p.v.remove(i);
            let mut bd = Builder::<Bytes>::new(b.clone());
            let _ = bd.try_push(b'.');
            bd.append(b);
            let mut e = c.clone();
            e.push(b'.');
            e.extend(c);
            p.v.insert(i, (bd.build(), e));
        }
        9 => {
            let (b, c) = p.v.remove(i);
            p.v.insert(i, (b.secret(), c));
        }
        10 => {
            let (b, c) = p.v.remove(i);
            let w: Cow<'static, [u8]> = b.into();
            p.v.insert(i, (Bytes::from(w), c));
        }
        11 => {
            let (b, c) = p.v.remove(i);
            p.v.insert(i, (b.into_utf8_lossy(), String::from_utf8_lossy(&c).into_owned().into_bytes()));
        }
        12 => {
            let (b, _) = &mut p.v[i];
            b.make_owning();
            if !b.is_empty() && !b.is_owning() {
                return Err("make_owning() gives a string that is not owning".into());
            }
        }
        13 => {
            let (b, c) = p.v.remove(i);
            let mut s = Splitter::new(b);
            let n = c.len() / 2;
            let a = s.save_end().until_count(n).rest::<Bytes>().unwrap();
            let r = s.rest::<Bytes>().unwrap();
            drop(s);
            p.push(a);
            p.push(r);
        }
        _ => {
            let (b, c) = p.v.remove(i);
            match Line::from_bytes(b) {
                Ok(l) => p.v.insert(i, (l.into_bytes(), c)),
                Err(_) => (),
            }
        }
    }
    Ok(())
}

fn pool(data: &[u8], kind: usize, ops: &[usize], st: &mut Stats) -> R {
    alloc::track_leaks();
    let r = (|| {
        let mut src = Src::new(data);
        let mut p = Pool { v: Vec::new() };
        p.push(make(kind, &src));
        for (k, o) in ops.iter().enumerate() {
            pool_op(&mut p, o % POPS, o / POPS).map_err(|e| format!("step {k}: {e}"))?;
            p.check(POP_NAMES[o % POPS])?;
            st.step();
            if p.v.len() > 1 {
                st.nontrivial();
            }
        }
        let v = std::mem::take(&mut p.v);
        p.v = v.into_iter().map(|(b, c)| (b.owning(), c)).collect();
        src.scribble();
        p.check("after overwriting the source")?;
        src.free();
        p.check("after freeing the source")?;
        while !p.v.is_empty() {
            drop(p.v.remove(0));
            p.check("while dropping the rest")?;
        }
        Ok(())
    })();
    if r.is_ok() && alloc::stop_track() != 0 {
        return Err(format!("{} blocks leaked", alloc::live()));
    }
    alloc::stop_track();
    r
}

/// Chains of the derivations of C08; every intermediate and by-product stays alive.
fn chain(data: &[u8], kind: usize, ops: &[usize], fate: usize, st: &mut Stats) -> R {
    let mut src = Src::new(data);
    let mut all: Vec<(Bytes<'static>, Vec<u8>, String)> = Vec::new();
    let look = |all: &[(Bytes<'static>, Vec<u8>, String)], when: &str| -> R {
        for (b, c, how) in all {
            if b.as_bytes() != c.as_slice() {
                return Err(format!("{when}: the result of {how} holds {}, expected {}", show(b), show(c)));
            }
        }
        Ok(())
    };
    let mut v = make(kind, &src);
    let mut f = String::new();
    for (k, op) in ops.iter().enumerate() {
        f.clear();
        let ds = derive(v.clone(), *op, &mut f);
        st.step();
        if fate == 2 {
            // The origin goes away at once.
            let old = std::mem::replace(&mut v, Bytes::empty());
            if kind == 0 || kind == 5 {
                all.push((old, v.to_vec(), "origin".into()));
                let l = all.last_mut().unwrap();
                l.1 = l.0.to_vec();
            } else {
                let mut x = old.into_vec();
                x.fill(0xEE);
            }
        }
        let mut it = ds.into_iter();
        let first = it.next();
        for (j, d) in it.enumerate() {
            let c = d.to_vec();
            all.push((d, c, format!("derivation {op} (step {k}, output {})", j + 1)));
        }
        let Some(d) = first else { break };
        let c = d.to_vec();
        all.push((d.clone(), c, format!("derivation {op} (step {k}, output 0)")));
        v = d;
        look(&all, "after the next derivation")?;
    }
    drop(v);
    if all.len() > 1 {
        st.nontrivial();
    }
    let mut all: Vec<_> = all.into_iter().map(|(b, c, h)| (b.owning(), c, h)).collect();
    look(&all, "after owning")?;
    for (b, _, h) in &all {
        if !b.is_empty() && !b.is_owning() {
            return Err(format!("owning form of the result of {h} is not owning"));
        }
    }
    src.scribble();
    look(&all, "after overwriting the source")?;
    src.free();
    look(&all, "after freeing the source")?;
    while !all.is_empty() {
        let (b, c, _) = if fate == 1 { all.pop().unwrap() } else { all.remove(0) };
        let mut x = b.into_vec();
        if x != c {
            return Err("into_vec changed the contents".into());
        }
        x.fill(0xEE);
        drop(x);
        look(&all, "after another one was taken over")?;
    }
    Ok(())
}

fn vsrc(s: &Source) -> String {
    format!("{:?}|{s}|{}", v_source(s), s.len())
}
fn vline(l: &[u8]) -> String {
    show(l)
}

/// Everything kept from one message: a rendering taken now and one to be taken later.
type Kept = (&'static str, String, Box<dyn Fn() -> String>);
fn keep<T: 'static>(out: &mut Vec<Kept>, name: &'static str, want: String, v: T, f: fn(&T) -> String) {
    out.push((name, want, Box::new(move || f(&v))));
}
fn look(k: &[Kept], when: &str) -> R {
    for (n, w, f) in k {
        let g = f();
        if g != *w {
            return Err(format!("{n} {when}: {g}, expected {w}"));
        }
    }
    Ok(())
}
fn dmsg(m: &ServerMsg) -> String {
    dm(&v_server(m))
}
fn dcmsg(m: &ClientMsg) -> String {
    dm(&v_client(m))
}
fn dtags(t: &Tags) -> String {
    format!("{:?}", v_tags(t))
}
fn dargs(a: &Args) -> String {
    format!("{:?} {:?}", v_args(a), a.is_last_long())
}

fn parts_args(out: &mut Vec<Kept>, a: &Args<'static>) {
    keep(out, "args", dargs(a), a.clone().owning(), dargs);
    for w in a.words() {
        keep(out, "argument", vline(w), w.clone().owning(), |x| vline(x));
        let mut x = w.clone();
        x.make_owning();
        keep(out, "argument", vline(w), x, |x| vline(x));
        if let Ok(n) = Nick::from_arg(w.clone()) {
            keep(out, "nick", vline(w), n.owning(), |x| vline(x));
        }
        if let Ok(k) = Key::from_bytes(w.clone()) {
            keep(out, "key", vline(w), k.owning(), |x| vline(x));
        }
        if let Ok(s) = Source::parse(w.clone()) {
            keep(out, "parsed source", vsrc(&s), s.clone().owning(), |x| vsrc(x));
            keep(out, "merged parsed source", vsrc(&s), s.clone().owning_merged(), |x| vsrc(x));
        }
    }
    if let Some(l) = a.split_last().1 {
        keep(out, "last argument", vline(l), l.clone().owning(), |x| vline(x));
        keep(out, "words of the last argument", {
            let mut s = Splitter::new(l.clone());
            let mut o = String::new();
            while !s.is_empty() {
                s.consume_whitespace();
                o += &vline(&s.string_or_default::<Word>(false));
            }
            o
        }, {
            let mut s = Splitter::new(l.clone());
            let mut o = Vec::new();
            while !s.is_empty() {
                s.consume_whitespace();
                o.push(s.string_or_default::<Word>(false).owning());
            }
            o
        }, |x| x.iter().map(|x| vline(x)).collect());
        let c = MaybeCtcp::parse(l.clone());
        let cl = c.clone().into_line::<'static>();
        let snap = vline(&cl);
        keep(out, "CTCP line", snap, cl, |x| vline(x));
        keep(out, "CTCP body", vline(&c.body), c.body.clone().owning(), |x| vline(x));
        keep(out, "CTCP command", vline(&c.cmd), c.cmd.clone().owning(), |x| vline(x));
    }
}
fn parts_tags(out: &mut Vec<Kept>, t: &Tags<'static>) {
    keep(out, "tags", dtags(t), t.clone().owning(), |x| dtags(x));
    for k in ["a", "k", "x", "b", "+c/d"] {
        let Some(v) = t.get(k) else { continue };
        keep(out, "tag value", vline(v), v.clone().owning(), |x| vline(x));
    }
    let mut e = t.clone();
    e.edit().insert_pair(Key::from_str("new"), NoNul::from_str("a b;c"));
    let snap = dtags(&e);
    keep(out, "edited tags", snap, e.owning(), |x| dtags(x));
}

/// `order`: which of the original message, the source buffer and the copies go first.
fn message(line: &[u8], owned: bool, order: usize, st: &mut Stats) -> R {
    alloc::track_leaks();
    let r = (|| {
        let mut src = Src::new(line);
        let mut out: Vec<Kept> = Vec::new();
        let mk = |s: &Src| if owned { Line::from_bytes(s.get().to_vec()).unwrap() } else { Line::from_bytes(Bytes::from_bytes(s.get())).unwrap() };
        let sm = ServerMsg::parse(mk(&src)).ok();
        let cm = ClientMsg::parse(mk(&src)).ok();
        if let Some(m) = &sm {
            keep(&mut out, "message", dmsg(m), m.clone().owning(), |x| dmsg(x));
            parts_tags(&mut out, &m.tags);
            parts_args(&mut out, &m.args);
            let k = m.kind.clone().owning();
            keep(&mut out, "kind", vline(&m.kind.as_arg()), k, |k| vline(&k.as_arg()));
            if let Some(s) = &m.source {
                keep(&mut out, "source", vsrc(s), (**s).clone().owning(), |x| vsrc(x));
                keep(&mut out, "merged source", vsrc(s), (**s).clone().owning_merged(), |x| vsrc(x));
                keep(&mut out, "shared source", vsrc(s), s.clone().owning(), |x| vsrc(x));
                keep(&mut out, "merged shared source", vsrc(s), s.clone().owning_merged(), |x| vsrc(x));
                let one = SharedSource::new((**s).clone());
                keep(&mut out, "unshared source", vsrc(s), one.owning(), |x| vsrc(x));
                let one = SharedSource::new((**s).clone());
                keep(&mut out, "merged unshared source", vsrc(s), one.owning_merged(), |x| vsrc(x));
                if let Some(u) = &s.userhost {
                    keep(&mut out, "userhost", format!("{u}|{}", u.len()), u.clone().owning(), |u| format!("{u}|{}", u.len()));
                }
            }
            // A copy edited does not change the original.
            let snap = dmsg(m);
            let mut e = m.clone();
            e.args.edit().clear();
            e.args.edit().add_literal("other");
            e.tags.edit().clear();
            e.source = None;
            if dmsg(m) != snap {
                return Err(format!("editing a copy changed the original to {}", dmsg(m)));
            }
            let mut e = m.clone();
            for w in e.args.edit().words() {
                w.transform(AsciiCasemap::<true>);
            }
            if let Some(v) = e.tags.get_mut("a") {
                *v = NoNul::from_str("changed");
            }
            if dmsg(m) != snap {
                return Err(format!("editing a copy changed the original to {}", dmsg(m)));
            }
            let snap = dmsg(&e);
            keep(&mut out, "edited copy", snap, e.owning(), |x| dmsg(x));
            st.step();
        }
        if let Some(m) = &cm {
            keep(&mut out, "client message", dcmsg(m), m.clone().owning(), |x| dcmsg(x));
            parts_tags(&mut out, &m.tags);
            parts_args(&mut out, &m.args);
            keep(&mut out, "command", vline(&m.cmd), m.cmd.clone().owning(), |x| vline(x));
            st.step();
        }
        if out.len() > 1 {
            st.nontrivial();
        }
        look(&out, "right after")?;
        if order & 1 != 0 {
            drop((sm, cm));
            look(&out, "after the message was dropped")?;
            src.scribble();
            look(&out, "after overwriting the buffer")?;
            src.free();
        } else {
            src.scribble();
            look(&out, "after overwriting the buffer")?;
            drop((sm, cm));
            src.free();
        }
        look(&out, "after freeing the buffer")?;
        while !out.is_empty() {
            if order & 2 != 0 {
                out.pop();
            } else {
                out.remove(0);
            }
            look(&out, "while others are dropped")?;
        }
        Ok(())
    })();
    let l = alloc::stop_track();
    if r.is_ok() && l != 0 {
        return Err(format!("{l} blocks leaked"));
    }
    r
}

pub fn run(ctx: &mut Ctx) {
    let d = ctx.pick(4, 5);
    ctx.section("pool", &format!("7 representations x every sequence of 15 operations on any of up to 3 strings sharing storage, to depth {d}; depth 3 for 5 more contents"));
    let contents: &[&[u8]] = &[b"aB c", b"", b"x", b"\xc3\xa9\xff", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", b" a"];
    for (n, data) in contents.iter().enumerate() {
        for kind in 0..KINDS {
            seqs(3 * POPS, 0, if n == 0 { d } else { 3 }, |ix| {
                // The first operation has only one string to act on, the second at most three.
                if ix.first().is_some_and(|o| *o >= POPS) || (ix.len() == 5 && kind > 2) {
                    return;
                }
                ctx.case(|| format!("{} representation {kind} operations {:?}", show(data), ix.iter().map(|o| format!("{}:{}", POP_NAMES[o % POPS], o / POPS)).collect::<Vec<_>>()), |st| pool(data, kind, ix, st));
            });
        }
    }
    ctx.section("chains", "5 contents x 7 representations x every chain of 34 derivations to depth 2 (thorough 3) x 3 fates of the originals, all by-products kept");
    for data in [&b"Zq7 Zq8 "[..], b"Zq7\\sZq8;\\", b"n!u@h", "Zq\u{e9}7".as_bytes(), b"x"] {
        for kind in 0..KINDS {
            seqs(NOPS, 1, ctx.pick(2, 3), |ix| {
                for fate in 0..3 {
                    ctx.case(|| format!("{} representation {kind} derivations {ix:?} fate {fate}", show(data)), |st| chain(data, kind, ix, fate, st));
                }
            });
        }
    }
    ctx.section("messages", "owning forms of messages and all their parts for a grid of tags x source x kind x arguments, borrowed or owned, 4 orders of dropping");
    let tags: &[&str] = &["", "@a=b ", "@k;x=\\s\\:y ", "@a=;b=\\\\;+c/d=e\\ ", "@a=1;a=2 "];
    let sources: &[&str] = &["", ":srv.x ", ":n!u@h ", ":n@h.y ", ":n!~u@h "];
    let kinds: &[&str] = &["PRIVMSG", "001", "ping", "X"];
    let args: &[&str] = &["", " a", " a b", " a :x y", " :", " a :\u{1}version x\u{1}", " a :\u{1}A b\u{1}", " n!u@h b@c :d e", " a b c d e :f", " :one"];
    for t in tags {
        for s in sources {
            for k in kinds {
                for a in args {
                    let line = format!("{t}{s}{k}{a}").into_bytes();
                    for owned in [false, true] {
                        for order in 0..4 {
                            ctx.case(|| format!("{} owned {owned} order {order}", show(&line)), |st| message(&line, owned, order, st));
                        }
                    }
                }
            }
        }
    }
    ctx.section("field sizes", "every field, and every pair of fields, of every length from a list around powers of two and the limits; usual messages");
    for m in super::irc::sized(ctx.thorough()) {
        let line = super::irc::m_write(&m);
        for owned in [false, true] {
            for order in ctx.pick(1, 0)..ctx.pick(2, 4) {
                ctx.case(|| format!("{} owned {owned} order {order}", show(&line)), |st| message(&line, owned, order, st));
            }
        }
    }
}
