//! C06: keyed collections behave as maps under any edit sequence.
use crate::engine::*;
use std::collections::BTreeMap;
use vinezombie::client::{state::ClientStateKey, ClientState};
use vinezombie::ircmsg::Tags;
use vinezombie::names::{Cap, ISupport, NameMap};
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C06",
    rule: "every sequence of edit operations up to the bound from every initial content, every key read back after every operation (inside the guard and after it); non-trivial: the sequence inserts a key out of order or removes one and continues",
    assumptions: &["the allocator checks (red zones, poisoned and quarantined frees, live-block count) stand for memory safety"],
};

const KEYS: [&str; 4] = ["a", "b", "c", "d"];
type Model = BTreeMap<&'static str, u32>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Insert(usize),
    Update(usize),
    Try(usize),
    Remove(usize),
    Mutate(usize),
    Clear,
    Reopen,
    Leak,
}

fn val(n: u32) -> Vec<u8> {
    format!("v{n}").into_bytes()
}
fn nn(n: u32) -> NoNul<'static> {
    NoNul::from_bytes(val(n)).unwrap()
}
fn key(i: usize) -> Key<'static> {
    Key::from_str(KEYS[i])
}
fn cmp(what: &str, op: &Op, k: &str, want: Option<u32>, got: Option<&[u8]>) -> R {
    if want.map(val).as_deref() != got {
        return Err(format!("after {op:?}, {what} {k}: expected {:?}, got {:?}", want.map(|n| show(&val(n))), got.map(show)));
    }
    Ok(())
}

fn tags_wire(m: &Model) -> Vec<u8> {
    let mut w = Vec::new();
    for (i, (k, v)) in m.iter().enumerate() {
        w.push(if i == 0 { b'@' } else { b';' });
        w.extend(k.as_bytes());
        w.push(b'=');
        w.extend(val(*v));
    }
    w
}

fn tags_whole(t: &mut Tags<'static>, m: &Model, op: &Op) -> R {
    for k in KEYS {
        cmp("Tags::get", op, k, m.get(k).copied(), t.get(k).map(|v| v.as_bytes()))?;
        cmp("Tags::get_mut", op, k, m.get(k).copied(), t.get_mut(k).map(|v| v.as_bytes()))?;
    }
    if t.len() != m.len() || t.is_empty() != m.is_empty() {
        return Err(format!("after {op:?}: Tags::len is {}, expected {}", t.len(), m.len()));
    }
    let mut w = Vec::new();
    t.write_to(&mut w).unwrap();
    if w != tags_wire(m) {
        return Err(format!("after {op:?}: Tags hold {}, expected {}", show(&w), show(&tags_wire(m))));
    }
    let other: Tags = m.iter().map(|(k, v)| (Key::from_str(k), nn(*v))).collect();
    if *t != other || h64(t) != h64(&other) || t.cmp(&&mut other.clone()) != std::cmp::Ordering::Equal {
        return Err(format!("after {op:?}: Tags differ from freshly built ones"));
    }
    Ok(())
}

fn tags(init: &[usize], ops: &[Op], st: &mut Stats) -> R {
    crate::alloc::track_leaks();
    let leaked = ops.contains(&Op::Leak);
    let r = tags_inner(init, ops, st);
    let live = crate::alloc::stop_track();
    r?;
    if !leaked && live != 0 {
        return Err(format!("{live} heap blocks leaked"));
    }
    Ok(())
}
fn tags_inner(init: &[usize], ops: &[Op], st: &mut Stats) -> R {
    let mut n = 0;
    let mut m = Model::new();
    let mut t: Tags<'static> = init
        .iter()
        .map(|i| {
            n += 1;
            m.insert(KEYS[*i], n);
            (key(*i), nn(n))
        })
        .collect();
    tags_whole(&mut t, &m, &Op::Reopen)?;
    let mut i = 0;
    loop {
        let mut g = t.edit();
        let mut leak = false;
        let mut last = Op::Reopen;
        while i < ops.len() {
            let op = ops[i];
            last = op;
            i += 1;
            st.step();
            n += 1;
            match op {
                Op::Insert(k) => {
                    let old = g.insert_pair(key(k), nn(n));
                    cmp("insert_pair returned", &op, KEYS[k], m.insert(KEYS[k], n), old.as_ref().map(|v| v.as_bytes()))?;
                }
                Op::Remove(k) => {
                    let old = g.remove(key(k));
                    cmp("remove returned", &op, KEYS[k], m.remove(KEYS[k]), old.as_ref().map(|v| v.as_bytes()))?;
                }
                Op::Mutate(k) => {
                    if let Some(v) = g.get_mut(KEYS[k]) {
                        *v = nn(n);
                    }
                    if let Some(v) = m.get_mut(KEYS[k]) {
                        *v = n;
                    }
                }
                Op::Clear => {
                    g.clear();
                    m.clear();
                }
                Op::Reopen => break,
                Op::Leak => {
                    leak = true;
                    break;
                }
                _ => unreachable!(),
            }
            for k in KEYS {
                cmp("TagsEditGuard::get", &op, k, m.get(k).copied(), g.get(k).map(|v| v.as_bytes()))?;
            }
            if g.len() != m.len() || g.is_empty() != m.is_empty() {
                return Err(format!("after {op:?}: TagsEditGuard::len is {}, expected {}", g.len(), m.len()));
            }
            st.state(&m.keys().copied().collect::<Vec<_>>());
        }
        if leak {
            std::mem::forget(g);
            // Edits may be lost, but what remains is part of the edited content.
            let mut rest = Model::new();
            for (k, v) in &m {
                if t.get(*k).is_some() {
                    rest.insert(k, *v);
                }
            }
            tags_whole(&mut t, &rest, &last)?;
            m = rest;
        } else {
            drop(g);
            tags_whole(&mut t, &m, &last)?;
        }
        if i >= ops.len() {
            break;
        }
    }
    st.outcome(&tags_wire(&m));
    Ok(())
}

fn word(n: u32) -> Word<'static> {
    Word::from_bytes(val(n)).unwrap()
}
type MM = BTreeMap<&'static str, (u32, u32)>;

macro_rules! namemap {
    ($fname:ident, $inner:ident, $whole:ident, $class:ident) => {
        fn $whole(t: &mut NameMap<$class, u32>, m: &MM, op: &Op) -> R {
            for k in KEYS {
                let kk = Key::from_str(k);
                let want = m.get(k).copied();
                cmp("NameMap::get_union_raw", op, k, want.map(|v| v.0), t.get_union_raw(&kk).map(|v| v.1.as_bytes()))?;
                if t.get_union_raw(&kk).is_some_and(|u| u.0 != kk) {
                    return Err("wrong entry".into());
                }
                if t.get_extra_raw(&kk).copied() != want.map(|v| v.1) || t.get_extra_raw_mut(&kk).copied() != want.map(|v| v.1) {
                    return Err(format!("after {op:?}: extra of {k} is {:?}, expected {:?}", t.get_extra_raw(&kk), want));
                }
            }
            if t.len() != m.len() || t.is_empty() != m.is_empty() {
                return Err(format!("after {op:?}: NameMap::len is {}, expected {}", t.len(), m.len()));
            }
            let ks: Vec<String> = t.keys().map(|k| k.to_string()).collect();
            let want: Vec<String> = m.keys().map(|k| k.to_string()).collect();
            let mut rev: Vec<String> = t.keys().rev().map(|k| k.to_string()).collect();
            rev.reverse();
            if ks != want || rev != want || t.keys().len() != want.len() {
                return Err(format!("after {op:?}: keys {ks:?} (reversed {rev:?}), expected {want:?}"));
            }
            // From both ends.
            let mut it = t.keys();
            let mut lo = 0;
            let mut hi = want.len();
            while lo < hi {
                if it.len() != hi - lo { return Err("iterator length".into()); }
                if it.next().map(|k| k.to_string()).as_ref() != Some(&want[lo]) { return Err("mixed iteration".into()); }
                lo += 1;
                if lo < hi {
                    hi -= 1;
                    if it.next_back().map(|k| k.to_string()).as_ref() != Some(&want[hi]) { return Err("mixed iteration (back)".into()); }
                }
            }
            if it.next().is_some() || it.next_back().is_some() { return Err("iterator does not end".into()); }
            Ok(())
        }
        fn $inner(init: &[usize], ops: &[Op], st: &mut Stats) -> R {
            let mut n = 0;
            let mut m = MM::new();
            let mut t: NameMap<$class, u32> = NameMap::new();
            {
                let mut e = t.edit();
                for i in init {
                    n += 1;
                    e.insert((key(*i), word(n)), n);
                    m.insert(KEYS[*i], (n, n));
                }
            }
            $whole(&mut t, &m, &Op::Reopen)?;
            let mut i = 0;
            loop {
                let mut g = t.edit();
                let mut leak = false;
                let mut last = Op::Reopen;
                while i < ops.len() {
                    let op = ops[i];
                    last = op;
                    i += 1;
                    st.step();
                    n += 1;
                    match op {
                        Op::Insert(k) => {
                            let old = g.insert((key(k), word(n)), n);
                            let want = m.insert(KEYS[k], (n, n));
                            cmp("insert returned", &op, KEYS[k], want.map(|v| v.0), old.as_ref().map(|v| v.0 .1.as_bytes()))?;
                            if old.map(|v| v.1) != want.map(|v| v.1) { return Err("insert returned the wrong extra".into()); }
                        }
                        Op::Update(k) => {
                            let back = g.insert_or_update((key(k), word(n)), n);
                            match m.get_mut(KEYS[k]) {
                                Some(v) => {
                                    v.1 = n;
                                    if back.is_none() { return Err("insert_or_update lost the unused union".into()); }
                                }
                                None => {
                                    m.insert(KEYS[k], (n, n));
                                    if back.is_some() { return Err("insert_or_update returned a union".into()); }
                                }
                            }
                        }
                        Op::Try(k) => {
                            let back = g.try_insert((key(k), word(n)), n);
                            if back.is_some() != m.contains_key(KEYS[k]) { return Err(format!("try_insert success is {}", back.is_none())); }
                            m.entry(KEYS[k]).or_insert((n, n));
                        }
                        Op::Remove(k) => {
                            let old = g.remove_raw(&key(k));
                            let want = m.remove(KEYS[k]);
                            cmp("remove returned", &op, KEYS[k], want.map(|v| v.0), old.as_ref().map(|v| v.0 .1.as_bytes()))?;
                            if old.map(|v| v.1) != want.map(|v| v.1) { return Err("remove returned the wrong extra".into()); }
                        }
                        Op::Mutate(k) => {
                            if let Some(v) = g.get_extra_raw_mut(&key(k)) { *v = n; }
                            if let Some(v) = m.get_mut(KEYS[k]) { v.1 = n; }
                        }
                        Op::Clear => { g.clear(); m.clear(); }
                        Op::Reopen => break,
                        Op::Leak => { leak = true; break; }
                    }
                    for k in KEYS {
                        let want = m.get(k).copied();
                        cmp("guard get_union_raw", &op, k, want.map(|v| v.0), g.get_union_raw(&Key::from_str(k)).map(|v| v.1.as_bytes()))?;
                        if g.get_extra_raw(&Key::from_str(k)).copied() != want.map(|v| v.1) {
                            return Err(format!("after {op:?}: guard extra of {k}"));
                        }
                    }
                    if g.len() != m.len() || g.is_empty() != m.is_empty() {
                        return Err(format!("after {op:?}: guard len is {}, expected {}", g.len(), m.len()));
                    }
                    st.state(&m.keys().copied().collect::<Vec<_>>());
                }
                if leak {
                    std::mem::forget(g);
                    m.retain(|k, _| t.get_union_raw(&Key::from_str(k)).is_some());
                    $whole(&mut t, &m, &last)?;
                } else {
                    drop(g);
                    $whole(&mut t, &m, &last)?;
                }
                if i >= ops.len() { break; }
            }
            st.outcome(&m.keys().copied().collect::<Vec<_>>());
            t.clear();
            if !t.is_empty() || t.keys().next().is_some() { return Err("clear left entries".into()); }
            Ok(())
        }
        fn $fname(init: &[usize], ops: &[Op], st: &mut Stats) -> R {
            crate::alloc::track_leaks();
            let r = $inner(init, ops, st);
            let live = crate::alloc::stop_track();
            r?;
            if !ops.contains(&Op::Leak) && live != 0 {
                return Err(format!("{live} heap blocks leaked"));
            }
            Ok(())
        }
    };
}
namemap!(caps, caps_inner, caps_whole, Cap);
namemap!(isup, isup_inner, isup_whole, ISupport);

macro_rules! skey { ($($n:ident),*) => {$(
    #[derive(Default, Clone, Copy)]
    struct $n;
    impl ClientStateKey for $n { type Value = String; }
)*}; }
skey!(S0, S1, S2, S3);

fn state(ops: &[usize], st: &mut Stats) -> R {
    let mut s = ClientState::new();
    let mut m: [Option<String>; 4] = Default::default();
    for (n, o) in ops.iter().enumerate() {
        let (k, kind) = (o % 4, o / 4);
        let v = format!("v{n}");
        macro_rules! go { ($t:ident) => {
            if kind == 0 {
                s.insert::<$t>(v.clone());
                m[k] = Some(v.clone());
            } else {
                if let Some(r) = s.get_mut::<$t>() { r.push('x'); }
                if let Some(r) = &mut m[k] { r.push('x'); }
            }
        }; }
        match k {
            0 => go!(S0),
            1 => go!(S1),
            2 => go!(S2),
            _ => go!(S3),
        }
        st.step();
        if s.get::<S0>() != m[0].as_ref() || s.get::<S1>() != m[1].as_ref() || s.get::<S2>() != m[2].as_ref() || s.get::<S3>() != m[3].as_ref() {
            return Err(format!("client state differs from {m:?}"));
        }
    }
    st.nontrivial();
    st.outcome(&m);
    Ok(())
}

fn interesting(ops: &[Op]) -> bool {
    ops.len() > 1
        && ops[..ops.len() - 1].iter().enumerate().any(|(i, o)| match o {
            Op::Remove(_) => true,
            Op::Insert(k) | Op::Update(k) | Op::Try(k) => ops[i + 1..].iter().any(|p| matches!(p, Op::Insert(j) if j < k)),
            _ => false,
        })
}

pub fn run(ctx: &mut Ctx) {
    let inits: [&[usize]; 6] = [&[], &[1], &[0, 2], &[3, 1], &[0, 1, 2, 3], &[2, 0, 2, 0]];
    let mut ops = Vec::new();
    for k in 0..4 {
        ops.push(Op::Insert(k));
        ops.push(Op::Remove(k));
    }
    ops.extend([Op::Mutate(1), Op::Mutate(3), Op::Clear, Op::Reopen, Op::Leak]);
    ctx.section("tags", "Tags: 6 initial contents x every sequence of 13 operations over 4 keys to depth 5 (thorough 6)");
    for init in inits {
        seqs(ops.len(), 0, ctx.pick(5, 6), |ix| {
            let o: Vec<Op> = ix.iter().map(|i| ops[*i]).collect();
            ctx.case(|| format!("init {init:?} ops {o:?}"), |st| {
                if interesting(&o) {
                    st.nontrivial();
                }
                tags(init, &o, st)
            });
        });
    }
    for k in 0..4 {
        ops.push(Op::Update(k));
        ops.push(Op::Try(k));
    }
    ctx.section("namemap", "NameMap<Cap,_> and NameMap<ISupport,_>: 6 initial contents x every sequence of 21 operations over 4 keys to depth 4 (thorough 5)");
    for init in inits {
        seqs(ops.len(), 0, ctx.pick(4, 5), |ix| {
            let o: Vec<Op> = ix.iter().map(|i| ops[*i]).collect();
            ctx.case(|| format!("init {init:?} ops {o:?}"), |st| {
                if interesting(&o) {
                    st.nontrivial();
                }
                caps(init, &o, st)?;
                if o.len() < 4 {
                    isup(init, &o, st)?;
                }
                Ok(())
            });
        });
    }
    ctx.section("insert-remove", "longer runs of insertions and removals only (8 operations, 4 keys) to depth 6 (thorough 7) from the empty map");
    let ir: Vec<Op> = (0..4).flat_map(|k| [Op::Insert(k), Op::Remove(k)]).collect();
    seqs(ir.len(), 6, ctx.pick(6, 7), |ix| {
        let o: Vec<Op> = ix.iter().map(|i| ir[*i]).collect();
        ctx.case(|| format!("ops {o:?}"), |st| {
            st.nontrivial();
            tags(&[], &o, st)?;
            caps(&[0, 3], &o, st)
        });
    });
    ctx.section("client-state", "ClientState: every sequence of insert / get_mut over 4 keys to depth 6");
    seqs(8, 0, ctx.pick(5, 6), |ix| {
        ctx.case(|| format!("ops {ix:?}"), |st| state(ix, st));
    });
    ctx.section("from-list", "Tags collected and parsed from every list of up to 6 keys over 3 names: the last value wins");
    seqs(3, 0, ctx.pick(6, 8), |ix| {
        ctx.case(|| format!("keys {ix:?}"), |st| {
            let mut m = Model::new();
            let mut raw = Vec::new();
            let mut pairs = Vec::new();
            for (n, k) in ix.iter().enumerate() {
                m.insert(KEYS[*k], n as u32);
                if n > 0 {
                    raw.push(b';');
                }
                raw.extend(KEYS[*k].as_bytes());
                raw.push(b'=');
                raw.extend(val(n as u32));
                pairs.push((key(*k), nn(n as u32)));
            }
            let mut a: Tags<'static> = pairs.into_iter().collect();
            tags_whole(&mut a, &m, &Op::Reopen)?;
            let mut b: Tags<'static> = Tags::parse(Word::from_bytes(raw).unwrap());
            tags_whole(&mut b, &m, &Op::Reopen)?;
            st.steps(2);
            st.nontrivial();
            Ok(())
        });
    });
    let top = ctx.pick(72, 160);
    ctx.section("long", &format!("lists of every length up to {top} whose keys follow i*stride mod m for every m and 4 strides: parsed, collected, inserted under one guard, then thinned out by removals"));
    for n in 1..=top {
        for m in 1..=n.min(48) {
            for stride in [1, m - 1, 7, 5] {
                ctx.case(|| format!("length {n} modulus {m} stride {stride}"), |st| {
                    st.nontrivial();
                    long(n, m, stride, st)
                });
            }
        }
    }
}

fn long(n: usize, m: usize, stride: usize, st: &mut Stats) -> R {
    let name = |i: usize| format!("k{:02}", (i * stride) % m);
    let mut model: BTreeMap<String, u32> = BTreeMap::new();
    let mut raw = Vec::new();
    let mut pairs = Vec::new();
    for i in 0..n {
        model.insert(name(i), i as u32);
        raw.extend(name(i).as_bytes());
        raw.push(b'=');
        raw.extend(val(i as u32));
        raw.push(b';');
        pairs.push((Key::from_bytes(name(i).into_bytes()).unwrap(), nn(i as u32)));
    }
    let check = |what: &str, t: &Tags<'static>, model: &BTreeMap<String, u32>| -> R {
        for i in 0..m {
            let k = format!("k{i:02}");
            let got = t.get(Key::from_bytes(k.clone().into_bytes()).unwrap()).map(|v| v.to_vec());
            if got != model.get(&k).map(|v| val(*v)) {
                return Err(format!("{what}: {k} is {:?}, expected {:?}", got.map(|g| show(&g)), model.get(&k).map(|v| show(&val(*v)))));
            }
        }
        if t.len() != model.len() {
            return Err(format!("{what}: length {}, expected {}", t.len(), model.len()));
        }
        Ok(())
    };
    let a: Tags<'static> = pairs.clone().into_iter().collect();
    check("collected", &a, &model)?;
    check("parsed", &Tags::parse(Word::from_bytes(raw).unwrap()), &model)?;
    let mut c: Tags<'static> = Tags::new();
    let mut g = c.edit();
    for (k, v) in pairs {
        g.insert_pair(k, v);
    }
    for i in (0..m).step_by(3) {
        let k = format!("k{i:02}");
        let got = g.remove(Key::from_bytes(k.clone().into_bytes()).unwrap()).map(|v| v.to_vec());
        if got != model.remove(&k).map(val) {
            return Err(format!("removing {k} gave {:?}", got.map(|g| show(&g))));
        }
    }
    drop(g);
    check("inserted and removed", &c, &model)?;
    st.steps(n as u64 * 3);
    Ok(())
}
