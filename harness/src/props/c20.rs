//! C20: mode sets and mode tables implement their set semantics.
use crate::engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU8;
use vinezombie::names::{ISupport, NameMap};
use vinezombie::state::*;

pub const META: Meta = Meta {
    id: "C20",
    rule: "all 256 bytes as modes; all operation sequences on a mode set up to the bound; all pairs of subsets of 7 letters under the set operations; all next/next_back interleavings over subsets; all quadruples of subsets of 3 letters and all CHANMODES strings and PREFIX strings up to the bound, each compared with sets/maps of letters; non-trivial: the result is non-empty or a rejection",
    assumptions: &["letters outside the sampled ones behave alike (all 52 are tried singly and in pairs)"],
};

fn md(c: u8) -> Mode {
    Mode::new(c).unwrap()
}
/// Alphabetical first, lowercase before uppercase (documented order).
fn key(c: u8) -> (u8, bool) {
    (c.to_ascii_lowercase(), c.is_ascii_uppercase())
}
type S = BTreeSet<(u8, bool)>;
fn letter(k: (u8, bool)) -> u8 {
    if k.1 {
        k.0.to_ascii_uppercase()
    } else {
        k.0
    }
}
fn same(ms: &ModeSet, s: &S) -> R {
    let want: Vec<u8> = s.iter().map(|k| letter(*k)).collect();
    let it: Vec<u8> = ms.into_iter().map(|m| m.into()).collect();
    let mut rev: Vec<u8> = (*ms).into_iter().rev().map(|m| m.into()).collect();
    rev.reverse();
    if it != want || rev != want {
        return Err(format!("iterates {} / reversed {}, expected {}", show(&it), show(&rev), show(&want)));
    }
    if ms.len() != want.len() || ms.is_empty() != want.is_empty() || ms.into_iter().len() != want.len() {
        return Err(format!("len() = {} of {}", ms.len(), show(&want)));
    }
    if ms.to_string().as_bytes() != &want[..] {
        return Err(format!("prints {ms}, expected {}", show(&want)));
    }
    for c in (b'a'..=b'z').chain(b'A'..=b'Z') {
        if ms.contains(md(c)) != s.contains(&key(c)) {
            return Err(format!("contains({}) wrong in {}", c as char, show(&want)));
        }
    }
    let re: ModeSet = want.iter().map(|c| md(*c)).collect();
    if re != *ms {
        return Err("collecting the modes gives an unequal set".into());
    }
    Ok(())
}
fn build(s: &S) -> ModeSet {
    s.iter().fold(ModeSet::new(), |m, k| m.with(md(letter(*k))))
}
fn subset(letters: &[u8], mask: usize) -> S {
    letters.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, c)| key(*c)).collect()
}

fn types_eq(t: &ModeTypes, want: &BTreeMap<(u8, bool), usize>) -> R {
    let ty = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];
    for c in (b'a'..=b'z').chain(b'A'..=b'Z') {
        let w = want.get(&key(c)).map(|i| ty[*i]);
        if t.get(md(c)) != w {
            return Err(format!("type of {}: {:?}, expected {:?}", c as char, t.get(md(c)), w));
        }
    }
    let mut text = String::new();
    for i in 0..4 {
        if i > 0 {
            text.push(',');
        }
        for (k, j) in want {
            if i == *j {
                text.push(letter(*k) as char);
            }
        }
    }
    if t.to_string() != text {
        return Err(format!("prints {t}, expected {text}"));
    }
    let s = t.to_string();
    let (back, ov, rest) = ModeTypes::parse(s.as_bytes());
    if back != *t || !ov.is_empty() || !rest.is_empty() {
        return Err(format!("{t} does not parse back"));
    }
    Ok(())
}
/// Modes in exactly one list, and those in several.
fn m_types(lists: &[S]) -> (BTreeMap<(u8, bool), usize>, S) {
    let mut m = BTreeMap::new();
    let mut over = S::new();
    for (i, l) in lists.iter().enumerate() {
        for k in l {
            if over.contains(k) {
                continue;
            }
            if m.insert(*k, i).is_some() {
                m.remove(k);
                over.insert(*k);
            }
        }
    }
    (m, over)
}
fn m_chanmodes(s: &[u8]) -> (Vec<S>, Vec<u8>) {
    let parts: Vec<&[u8]> = s.splitn(5, |c| *c == b',').collect();
    let mut lists: Vec<S> = parts.iter().take(4).map(|p| p.iter().filter(|c| c.is_ascii_alphabetic()).map(|c| key(*c)).collect()).collect();
    lists.resize(4, S::new());
    (lists, parts.get(4).map(|p| p.to_vec()).unwrap_or_default())
}
/// None: malformed.
fn m_prefix(s: &[u8]) -> Option<Vec<(u8, u8)>> {
    let s = s.strip_prefix(b"(")?;
    let i = s.iter().position(|c| *c == b')')?;
    let (modes, pre) = (&s[..i], &s[i + 1..]);
    let ascii = pre.iter().position(|c| !c.is_ascii()).unwrap_or(pre.len());
    let pre = &pre[..ascii];
    let mut out: Vec<(u8, u8)> = Vec::new();
    for (i, m) in modes.iter().enumerate() {
        if !m.is_ascii_alphabetic() {
            continue;
        }
        let p = pre.get(i).copied().unwrap_or(0);
        if out.iter().any(|(a, b)| a == m || (p != 0 && *b == p)) {
            return None;
        }
        out.push((*m, p));
    }
    Some(out)
}
fn prefix_eq(s: &[u8], st: &mut Stats) -> R {
    st.step();
    let want = m_prefix(s);
    let got = StatusModes::parse(s);
    let (Some(w), Ok(g)) = (&want, &got) else {
        if want.is_none() && got.is_err() {
            st.nontrivial();
            return Ok(());
        }
        return Err(format!("StatusModes::parse: {got:?}, expected {want:?}"));
    };
    if !w.is_empty() {
        st.nontrivial();
    }
    for c in (b'a'..=b'z').chain(b'A'..=b'Z') {
        let e = w.iter().find(|(m, _)| *m == c);
        if g.contains(md(c)) != e.is_some() {
            return Err(format!("contains({})", c as char));
        }
        let p = e.and_then(|(_, p)| NonZeroU8::new(*p));
        if g.get_prefix(md(c)) != p {
            return Err(format!("prefix of {}: {:?}, expected {p:?}", c as char, g.get_prefix(md(c))));
        }
    }
    for p in 1..=255u8 {
        let m = w.iter().find(|(_, q)| *q == p).map(|(m, _)| md(*m));
        if g.get_mode(NonZeroU8::new(p).unwrap()) != m {
            return Err(format!("mode of prefix {p}"));
        }
    }
    st.outcome(w);
    Ok(())
}
fn server_modes(cm: Option<&[u8]>, pf: Option<&[u8]>, st: &mut Stats) -> R {
    use vinezombie::string::{Key, Word};
    let mut map: NameMap<ISupport, ()> = NameMap::new();
    {
        let mut e = map.edit();
        for (k, v) in [("CHANMODES", cm), ("PREFIX", pf)] {
            if let Some(v) = v {
                e.insert((Key::from_str(k), Word::from_bytes(v.to_vec()).unwrap()), ());
            }
        }
    }
    let m = ServerChanModes::from_isupport(&map);
    let status = pf.and_then(m_prefix).unwrap_or_default();
    let (types, _) = m_types(&m_chanmodes(cm.unwrap_or_default()).0);
    let ty = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];
    for c in (b'a'..=b'z').chain(b'A'..=b'Z') {
        let w = if status.iter().any(|(m, _)| *m == c) {
            Some(ModeType::Status)
        } else {
            types.get(&key(c)).map(|i| ty[*i])
        };
        if m.get(md(c)) != w {
            return Err(format!("ServerChanModes::get({}) = {:?}, expected {w:?}", c as char, m.get(md(c))));
        }
        st.step();
    }
    st.nontrivial();
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("modes", "all 256 bytes; all 52x52 ordered pairs");
    for c in 0..=255u8 {
        ctx.case(|| format!("byte {c}"), |st| {
            st.step();
            match Mode::new(c) {
                None if !c.is_ascii_alphabetic() => Ok(()),
                Some(m) if c.is_ascii_alphabetic() => {
                    st.nontrivial();
                    if u8::from(m) != c || char::from(m) != c as char || m.into_nonzero_u8().get() != c || m.to_string() != (c as char).to_string() {
                        return Err("mode changes its letter".into());
                    }
                    if vinezombie::string::Arg::from(m).as_bytes() != [c] {
                        return Err("mode as argument".into());
                    }
                    same(&ModeSet::new().with(m), &[key(c)].into())
                }
                _ => Err("Mode::new accepts exactly the letters".into()),
            }
        });
    }
    for a in (b'a'..=b'z').chain(b'A'..=b'Z') {
        for b in (b'a'..=b'z').chain(b'A'..=b'Z') {
            ctx.case(|| format!("{} {}", a as char, b as char), |st| {
                st.nontrivial();
                if md(a).cmp(&md(b)) != key(a).cmp(&key(b)) || (md(a) == md(b)) != (a == b) {
                    return Err("order of modes".into());
                }
                let mut s = ModeSet::new();
                if !s.set(md(a)) || s.set(md(b)) != (a != b) {
                    return Err("set() result".into());
                }
                st.steps(3);
                same(&s, &[key(a), key(b)].into())?;
                if !s.unset(md(a)) || s.unset(md(a)) {
                    return Err("unset() result".into());
                }
                same(&s, &if a == b { S::new() } else { [key(b)].into() })
            });
        }
    }
    let letters = b"aAbmzZy";
    ctx.section("set operations", "all 128x128 pairs of subsets of a A b m z Z y: union, intersection, difference, comparison");
    for x in 0..1usize << letters.len() {
        for y in 0..1usize << letters.len() {
            ctx.case(|| format!("{x:b} {y:b}"), |st| {
                let (a, b) = (subset(letters, x), subset(letters, y));
                let (p, q) = (build(&a), build(&b));
                same(&p.union(q), &a.union(&b).copied().collect())?;
                same(&p.intersection(q), &a.intersection(&b).copied().collect())?;
                same(&p.difference(q), &a.difference(&b).copied().collect())?;
                let want = if a == b {
                    Some(std::cmp::Ordering::Equal)
                } else if a.is_subset(&b) {
                    Some(std::cmp::Ordering::Less)
                } else if b.is_subset(&a) {
                    Some(std::cmp::Ordering::Greater)
                } else {
                    None
                };
                if p.partial_cmp(&q) != want || (p == q) != (a == b) {
                    return Err(format!("partial_cmp {:?}, expected {want:?}", p.partial_cmp(&q)));
                }
                st.steps(4);
                st.nontrivial();
                st.outcome(&(want.map(|o| o as i8), a.len(), b.len()));
                Ok(())
            });
        }
    }
    let n = ctx.pick(6, 7);
    ctx.section("sequences", &format!("all sequences of up to {n} set/unset operations on a, A, Z and z"));
    seqs(8, 0, n, |ix| {
        ctx.case(|| format!("{ix:?}"), |st| {
            let l = b"aAZz";
            let mut m = ModeSet::new();
            let mut s = S::new();
            for i in ix {
                let c = l[i / 2];
                let (g, w) = if i % 2 == 0 { (m.set(md(c)), s.insert(key(c))) } else { (m.unset(md(c)), s.remove(&key(c))) };
                if g != w {
                    return Err(format!("operation on {} returned {g}", c as char));
                }
                st.step();
                st.state(&s);
            }
            if !s.is_empty() {
                st.nontrivial();
            }
            same(&m, &s)
        });
    });
    ctx.section("iteration", "all subsets of 7 letters x all next/next_back patterns");
    for x in 0..1usize << letters.len() {
        let s = subset(letters, x);
        for pat in 0..1usize << s.len() {
            let s = s.clone();
            ctx.case(|| format!("{x:b} {pat:b}"), |st| {
                let mut it = build(&s).into_iter();
                let mut d: std::collections::VecDeque<u8> = s.iter().map(|k| letter(*k)).collect();
                for i in 0..s.len() {
                    if it.len() != d.len() || it.size_hint() != (d.len(), Some(d.len())) {
                        return Err("remaining length".into());
                    }
                    let (g, w) = if pat >> i & 1 == 1 { (it.next_back(), d.pop_back()) } else { (it.next(), d.pop_front()) };
                    if g.map(u8::from) != w {
                        return Err(format!("step {i}: {g:?}, expected {w:?}"));
                    }
                    st.step();
                    st.nontrivial();
                }
                if it.next().is_some() || it.next_back().is_some() || it.next().is_some() {
                    return Err("iterator continues".into());
                }
                Ok(())
            });
        }
    }
    ctx.section("mode types", "all quadruples of subsets of 3 letters; insert and insert_set sequences");
    let l3 = b"aAq";
    for q in 0..8usize.pow(4) {
        ctx.case(|| format!("{q:o}"), |st| {
            let lists: Vec<S> = (0..4).map(|i| subset(l3, q >> (3 * i) & 7)).collect();
            let (want, over) = m_types(&lists);
            let b: Vec<ModeSet> = lists.iter().map(build).collect();
            let (t, o) = ModeTypes::from_sets(b[0], b[1], b[2], b[3]);
            st.step();
            if !over.is_empty() {
                st.nontrivial();
            }
            same(&o, &over).map_err(|e| format!("overlap: {e}"))?;
            types_eq(&t, &want)
        });
    }
    let all_ty = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD, ModeType::Status];
    let n = ctx.pick(4, 5);
    seqs(20, 0, n, |ix| {
        ctx.case(|| format!("inserts {ix:?}"), |st| {
            let mut t = ModeTypes::new();
            let mut w: BTreeMap<(u8, bool), usize> = BTreeMap::new();
            for i in ix {
                let (op, ty) = (i / 5, i % 5);
                let ks: Vec<u8> = match op {
                    0 => vec![b'a'],
                    1 => vec![b'A'],
                    2 => vec![b'q'],
                    _ => vec![b'a', b'q'],
                };
                if op < 3 {
                    t.insert(md(ks[0]), all_ty[ty]);
                } else {
                    t.insert_set(ks.iter().map(|c| md(*c)).collect(), all_ty[ty]);
                }
                for k in ks {
                    if ty < 4 {
                        w.insert(key(k), ty);
                    } else {
                        w.remove(&key(k));
                    }
                }
                st.step();
                st.state(&w);
            }
            if !w.is_empty() {
                st.nontrivial();
            }
            types_eq(&t, &w)
        });
    });
    for (i, ty) in all_ty.iter().enumerate() {
        ctx.case(|| format!("from_set {ty:?}"), |st| {
            st.nontrivial();
            let s = subset(l3, 7);
            let t = ModeTypes::from_set(build(&s), *ty);
            types_eq(&t, &s.iter().filter(|_| i < 4).map(|k| (*k, i)).collect())?;
            let (list, set, unset) = [(true, true, true), (false, true, true), (false, true, false), (false, false, false), (true, true, true)][i];
            if ty.is_listlike() != list || ty.needs_arg_to_set() != set || ty.needs_arg_to_unset() != unset {
                return Err("argument rules of the mode type".into());
            }
            Ok(())
        });
    }
    let n = ctx.pick(6, 8);
    ctx.section("CHANMODES", &format!("all strings over a A q , 1 up to length {n}"));
    words(b"aAq,1", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            let (lists, rest) = m_chanmodes(&w);
            let (want, over) = m_types(&lists);
            let (t, o, r) = ModeTypes::parse(&w);
            st.step();
            if !want.is_empty() {
                st.nontrivial();
            }
            same(&o, &over).map_err(|e| format!("overlap: {e}"))?;
            if r != &rest[..] {
                return Err(format!("rest {}, expected {}", show(r), show(&rest)));
            }
            types_eq(&t, &want)
        });
    });
    let n = ctx.pick(6, 7);
    ctx.section("PREFIX", &format!("all strings over ( ) o v @ + 1 up to length {n}; (modes)prefixes with up to 3 of each over o v h 1 and @ + ( ) \\xff"));
    words(b"()ov@+1", 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| prefix_eq(&w, st));
    });
    words(b"ovh1", 0, 3, |m| {
        let m = m.to_vec();
        words(b"@+()\xff", 0, 4, |p| {
            let s = [b"(", &m[..], b")", p].concat();
            ctx.case(|| show(&s), |st| prefix_eq(&s, st));
        });
    });
    ctx.section("PREFIX bytes", "every byte, and every pair of printable or odd bytes, as prefixes and as modes");
    let some: Vec<u8> = (0..=255u8).step_by(5).chain([0, 1, 9, 10, 13, 31, 32, 33, 127, 128, 255]).chain(b"@+%&~!()abzAZ".iter().copied()).collect();
    for x in 0..=255u8 {
        for y in [None, Some(b'@')].into_iter().chain(some.iter().map(|y| Some(*y))) {
            for t in [[&b"(ov)"[..], &[x]].concat(), [&b"(ohv)+"[..], &[x]].concat(), [&b"("[..], &[x], b"v)+@%"].concat()] {
                let s = [t, y.into_iter().collect()].concat();
                ctx.case(|| show(&s), |st| prefix_eq(&s, st));
            }
        }
    }
    let letters: Vec<u8> = (b'a'..=b'z').chain(b'A'..=b'Z').collect();
    ctx.section("PREFIX long", "1 to 52 modes with 0 to 60 different prefixes, one of each repeated or replaced");
    for n in 1..=52usize {
        for k in (0..=60usize).filter(|k| *k <= 3 || k + 2 >= n && *k <= n + 2 || *k == 60) {
            for odd in 0..4 {
                let mut m = letters[..n].to_vec();
                let mut p: Vec<u8> = (0..k as u8).map(|i| b'!' + i + (i > 7) as u8).collect();
                match odd {
                    1 => m[n - 1] = m[0],
                    2 if k > 1 => p[k - 1] = p[0],
                    3 if k > 0 => p[k / 2] = 0xff,
                    0 => (),
                    _ => continue,
                }
                let s = [b"(", &m[..], b")", &p].concat();
                ctx.case(|| show(&s), |st| prefix_eq(&s, st));
            }
        }
    }
    ctx.section("server modes", "CHANMODES x PREFIX pools through the ISUPPORT table");
    let cms: [Option<&[u8]>; 6] = [None, Some(b""), Some(b"b,k,l,imnpst"), Some(b"be,k,l,imn,xyz,q"), Some(b"a,a,b,c"), Some(b"o,v,h,b")];
    let pfs: [Option<&[u8]>; 7] = [None, Some(b""), Some(b"(ov)@+"), Some(b"(qaohv)~&@%+"), Some(b"(oo)@+"), Some(b"(bk)"), Some(b"ov")];
    for c in cms {
        for p in pfs {
            ctx.case(|| format!("{:?} {:?}", c.map(show), p.map(show)), |st| server_modes(c, p, st));
        }
    }
}
