//! C19: nickname generators yield exactly the documented nicknames.
use crate::engine::*;
use super::irc::is_nick;
use vinezombie::client::nick::*;
use vinezombie::client::register::{default_bot_nicks, default_client_nicks};
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C19",
    rule: "every list of up to the bound of suffix types x strategy x prefix, run to exhaustion and compared with the documented enumeration; every composition of generators up to depth 2, every interleaving of next and invalid reports up to the bound against a list model; non-trivial: more than one nick is generated",
    assumptions: &["the pseudorandom strategy is checked for its documented ranges, determinism per seed and termination, not for particular nicks (its documentation forbids relying on them)"],
};

fn nick(s: &str) -> Nick<'static> {
    Nick::from_bytes(s.to_string()).unwrap()
}
fn types() -> Vec<SuffixType> {
    use SuffixType::*;
    vec![
        Letter(true),
        Letter(false),
        Base8,
        Base10,
        Base16(true),
        Base16(false),
        NonZeroBase8,
        NonZeroBase10,
        NonZeroBase16(true),
        NonZeroBase16(false),
        Choice(vec![]),
        Choice(vec![nick("x")]),
        Choice(vec![nick("foo"), nick("bar"), nick("z")]),
        Char('_'),
        Char('\u{e9}'),
        Char('!'),
    ]
}
/// The documented values of a suffix, in order.
fn values(t: &SuffixType) -> Vec<Vec<u8>> {
    use SuffixType::*;
    let chars = |s: &str| s.bytes().map(|b| vec![b]).collect::<Vec<_>>();
    match t {
        Letter(true) => chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        Letter(false) => chars("abcdefghijklmnopqrstuvwxyz"),
        Base8 => chars("01234567"),
        Base10 => chars("0123456789"),
        Base16(true) => chars("0123456789ABCDEF"),
        Base16(false) => chars("0123456789abcdef"),
        NonZeroBase8 => chars("1234567"),
        NonZeroBase10 => chars("123456789"),
        NonZeroBase16(true) => chars("123456789ABCDEF"),
        NonZeroBase16(false) => chars("123456789abcdef"),
        Choice(c) => c.iter().take(256).map(|n| n.to_vec()).collect(),
        // A character that no nick may hold adds nothing.
        Char('!') => vec![vec![]],
        Char(c) => vec![c.to_string().into_bytes()],
        _ => unreachable!(),
    }
}
/// All nicks of the sequential strategy: the values of the first suffix, then of the first two, ...
fn seq(prefix: &[u8], sfx: &[SuffixType], count: usize) -> Vec<Vec<u8>> {
    let vals: Vec<Vec<Vec<u8>>> = sfx.iter().map(values).filter(|v| !v.is_empty()).collect();
    let mut out = Vec::new();
    for k in 1..=vals.len() {
        let mut ix = vec![0; k];
        loop {
            if out.len() >= count {
                return out;
            }
            let mut n = prefix.to_vec();
            for (i, v) in ix.iter().enumerate() {
                n.extend(&vals[i][*v]);
            }
            out.push(n);
            // The first suffix varies fastest.
            let mut i = 0;
            while i < k {
                ix[i] += 1;
                if ix[i] < vals[i].len() {
                    break;
                }
                ix[i] = 0;
                i += 1;
            }
            if i == k {
                break;
            }
        }
    }
    out
}
fn drain(mut g: Box<dyn NickGen>, max: usize, st: &mut Stats) -> Result<Vec<Vec<u8>>, String> {
    let mut out = Vec::new();
    loop {
        let peek = g.peek();
        if g.peek() != peek {
            return Err("peek changes what comes next".into());
        }
        let (n, next) = g.next_nick();
        st.step();
        if n != peek {
            return Err(format!("announced {} but yielded {}", show(&peek), show(&n)));
        }
        if !is_nick(&n) {
            return Err(format!("yielded the invalid nick {}", show(&n)));
        }
        out.push(n.to_vec());
        if out.len() > max {
            return Err(format!("still yielding after {max} nicks"));
        }
        match next {
            Some(n) => g = n,
            None => return Ok(out),
        }
    }
}
fn suffix(prefix: &str, sfx: &[SuffixType], st: &mut Stats) -> R {
    let total: usize = sfx.iter().map(|s| values(s).len().min(255)).sum();
    let p = prefix.as_bytes();
    // Sequential.
    let s = Suffix { strategy: SuffixStrategy::Seq, suffixes: sfx.to_vec().into() };
    let got = drain(s.transform(nick(prefix)), 300, st)?;
    let want = if total == 0 { vec![p.to_vec()] } else { seq(p, sfx, total.min(255)) };
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("sequential: {} nicks (expected {}), at {i}: {:?}, expected {:?}", got.len(), want.len(), got.get(i).map(|g| show(g)), want.get(i).map(|g| show(g))));
    }
    if got.len() > 1 {
        st.nontrivial();
    }
    // Pseudorandom.
    for seed in [Some(0), Some(1337), Some(u32::MAX), None] {
        let s = Suffix { strategy: SuffixStrategy::Rng(seed), suffixes: sfx.to_vec().into() };
        let got = drain(s.transform(nick(prefix)), 300, st)?;
        if seed.is_some() && drain(s.transform(nick(prefix)), 300, st)? != got {
            return Err(format!("seed {seed:?} gives different nicks"));
        }
        for g in &got {
            let Some(mut rest) = g.strip_prefix(p).map(|r| vec![r]) else {
                return Err(format!("random: {} lacks the prefix", show(g)));
            };
            for s in sfx {
                let v = values(s);
                if v.is_empty() {
                    continue;
                }
                rest = rest.iter().flat_map(|r| v.iter().filter_map(|v| r.strip_prefix(&v[..]))).collect();
            }
            if !rest.iter().any(|r| r.is_empty()) {
                return Err(format!("random: {} has a suffix outside the documented ranges", show(g)));
            }
        }
    }
    Ok(())
}

/// Generator descriptions, and what they promise.
#[derive(Clone, Debug)]
enum D {
    One(&'static str),
    Iter(Vec<&'static str>),
    /// Endless iterator cycling through nicks.
    Endless(&'static str),
    Or(&'static str, Vec<&'static str>),
    Suf(&'static str),
    Chain(Box<D>, Box<D>),
    Using(Box<D>),
}
fn sfx() -> Suffix {
    Suffix { strategy: SuffixStrategy::Seq, suffixes: vec![SuffixType::Char('_'), SuffixType::NonZeroBase8].into() }
}
fn build(d: &D) -> Box<dyn NickGen> {
    match d {
        D::One(n) => Box::new(nick(n)),
        D::Iter(l) => Box::new(from_iter(l.iter().map(|n| nick(n)).collect::<Vec<_>>()).unwrap()),
        D::Endless(n) => Box::new(from_iter(std::iter::repeat(nick(n))).unwrap()),
        D::Or(n, l) => Box::new(from_iter_or(nick(n), l.iter().map(|n| nick(n)).collect::<Vec<_>>())),
        D::Suf(p) => sfx().transform(nick(p)),
        D::Chain(a, b) => Box::new(build(a)).chain(build(b)),
        D::Using(a) => Box::new(build(a)).chain_using(&sfx()),
    }
}
/// Model: a flat list of segments, each with its pending nicks and its reaction to an invalid nick.
#[derive(Clone, Debug, Hash, PartialEq)]
enum Seg {
    One(String),
    Finite(Vec<String>),
    Endless(String),
    Suf(String, Vec<String>),
}
fn segs(d: &D) -> Vec<Seg> {
    let sf = |p: &str| Seg::Suf(p.to_string(), seq(p.as_bytes(), &sfx().suffixes, 8).into_iter().map(|v| String::from_utf8(v).unwrap()).collect());
    match d {
        D::One(n) => vec![Seg::One(n.to_string())],
        D::Iter(l) => vec![Seg::Finite(l.iter().map(|s| s.to_string()).collect())],
        D::Endless(n) => vec![Seg::Endless(n.to_string())],
        D::Or(n, l) if l.is_empty() => vec![Seg::Finite(vec![n.to_string()])],
        D::Or(_, l) => vec![Seg::Finite(l.iter().map(|s| s.to_string()).collect())],
        D::Suf(p) => vec![sf(p)],
        D::Chain(a, b) => [segs(a), segs(b)].concat(),
        D::Using(a) => {
            let a = segs(a);
            let b = sf(&peek(&a));
            [a, vec![b]].concat()
        }
    }
}
fn peek(s: &[Seg]) -> String {
    match &s[0] {
        Seg::One(n) | Seg::Endless(n) => n.clone(),
        Seg::Finite(l) | Seg::Suf(_, l) => l[0].clone(),
    }
}
fn pop(s: &mut Vec<Seg>) -> String {
    let n = peek(s);
    let gone = match &mut s[0] {
        Seg::One(_) => true,
        Seg::Endless(_) => false,
        Seg::Finite(l) | Seg::Suf(_, l) => {
            l.remove(0);
            l.is_empty()
        }
    };
    if gone {
        s.remove(0);
    }
    n
}
fn compose(d: &D, ops: &[usize], st: &mut Stats) -> R {
    let mut g = Some(build(d));
    let mut m = segs(d);
    let mut last = "zz".to_string();
    for op in ops {
        st.step();
        st.state(&m);
        let Some(cur) = g.take() else { return Ok(()) };
        if *op == 0 {
            let want_peek = peek(&m);
            if cur.peek() != *want_peek.as_str() {
                return Err(format!("announces {}, expected {want_peek}", show(&cur.peek())));
            }
            let (n, next) = cur.next_nick();
            let want = pop(&mut m);
            if n != *want.as_str() {
                return Err(format!("yielded {}, expected {want}", show(&n)));
            }
            last = want;
            g = next;
        } else {
            let bad = match op {
                1 => last.clone(),
                2 => "unrelated".to_string(),
                _ => peek(&m),
            };
            g = cur.handle_invalid(&nick(&bad));
            m.retain(|s| match s {
                Seg::One(n) => *n != bad,
                Seg::Finite(_) => true,
                Seg::Endless(_) => false,
                Seg::Suf(p, _) => !bad.starts_with(p.as_str()),
            });
        }
        if g.is_some() == m.is_empty() {
            return Err(format!("generator is {}, expected {}", if g.is_some() { "alive" } else { "exhausted" }, if m.is_empty() { "exhausted" } else { "alive" }));
        }
        if *op == 0 {
            st.nontrivial();
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = types();
    let n = ctx.pick(2, 3);
    ctx.section("suffix", &format!("all lists of up to {n} of {} suffix types x 3 prefixes x strategies, run to exhaustion", t.len()));
    seqs(t.len(), 0, n, |ix| {
        let s: Vec<SuffixType> = ix.iter().map(|i| t[*i].clone()).collect();
        for p in ["Foo", "x", "_"] {
            ctx.case(|| format!("prefix {p} suffixes {s:?}"), |st| suffix(p, &s, st));
        }
    });
    ctx.section("long suffix lists", "repetitions of each type up to 9, and choices of 1 to 300 nicks");
    for s in &t {
        for k in 3..=9 {
            let l = vec![s.clone(); k];
            ctx.case(|| format!("{k} x {s:?}"), |st| suffix("N", &l, st));
        }
    }
    for k in 1..=300usize {
        let c = SuffixType::Choice((0..k).map(|i| nick(&format!("c{i}"))).collect());
        ctx.case(|| format!("choice of {k}"), |st| suffix("N", &[c.clone()], st));
        ctx.case(|| format!("choice of {k}, then a digit"), |st| suffix("N", &[SuffixType::Char('_'), c.clone(), SuffixType::Base10], st));
    }
    let base = vec![
        D::One("a"),
        D::One("b"),
        D::Iter(vec!["a"]),
        D::Iter(vec!["b", "c"]),
        D::Iter(vec!["a", "a", "d"]),
        D::Endless("e"),
        D::Or("q", vec![]),
        D::Or("q", vec!["r", "s"]),
        D::Suf("a"),
        D::Suf("b"),
    ];
    let mut one = base.clone();
    for a in &base {
        one.push(D::Using(Box::new(a.clone())));
        for b in &base {
            one.push(D::Chain(Box::new(a.clone()), Box::new(b.clone())));
        }
    }
    let n = ctx.pick(6, 8);
    ctx.section("composition", &format!("{} generators: bases, chains and transformed chains x every sequence of up to {n} of next / previous nick invalid / unrelated nick invalid / upcoming nick invalid", one.len()));
    for d in &one {
        seqs(4, n, n, |ops| {
            ctx.case(|| format!("{d:?} ops {ops:?}"), |st| compose(d, ops, st));
        });
    }
    let n = ctx.pick(4, 5);
    ctx.section("nested", &format!("chains of two chains x every sequence of {n} operations after draining 0 to 6 nicks"));
    for a in one.iter().skip(10).step_by(3) {
        for b in one.iter().skip(11).step_by(7) {
            for skip in [0, 1, 3, 6] {
                seqs(4, n, n, |ops| {
                    let d = D::Chain(Box::new(a.clone()), Box::new(b.clone()));
                    let o: Vec<usize> = std::iter::repeat(0).take(skip).chain(ops.iter().copied()).collect();
                    ctx.case(|| format!("{d:?} ops {o:?}"), |st| compose(&d, &o, st));
                });
            }
        }
    }
    ctx.section("defaults", "the default nick lists for clients and bots, for every list of up to 3 nicks");
    seqs(3, 0, 3, |ix| {
        let l: Vec<Nick<'static>> = ix.iter().map(|i| nick(["ann", "bob", "cy"][*i])).collect();
        ctx.case(|| format!("{l:?}"), |st| {
            st.nontrivial();
            let c = drain(default_client_nicks(l.clone()), 400, st)?;
            let b = drain(default_bot_nicks(l.clone()), 400, st)?;
            for (what, g) in [("client", &c), ("bot", &b)] {
                for (i, n) in l.iter().enumerate() {
                    if g[i] != n.as_bytes() {
                        return Err(format!("{what}: nick {i} is {}", show(&g[i])));
                    }
                }
                if g.len() <= l.len() {
                    return Err(format!("{what}: no fallback nicks"));
                }
            }
            if let Some(f) = l.first() {
                // Fallbacks: the first nick with a backtick, then digits.
                let want = seq(f, &[SuffixType::Char('`'), SuffixType::Base10, SuffixType::Base8], 19);
                if c[l.len()..] != want[..] {
                    return Err(format!("client fallbacks are {:?}", c[l.len()..].iter().map(|g| show(g)).collect::<Vec<_>>()));
                }
            } else if c[0] != b"Guest" || !c[1..].iter().all(|n| n.len() == 9 && n.starts_with(b"Guest") && n[5..].iter().all(|c| c.is_ascii_digit())) {
                return Err("guest nicks differ".into());
            }
            for n in &b[l.len()..] {
                if !(n.len() == 10 && n.starts_with(b"VNZB") && n[4].is_ascii_digit() && n[5..].iter().all(|c| b"0123456789abcdef".contains(c))) {
                    return Err(format!("bot fallback {}", show(n)));
                }
            }
            Ok(())
        });
    });
}
