//! C09: shared strings are memory-safe across threads.
use super::explore;
use crate::engine::*;
use modelstd::rt::{self, Bounds};
use std::borrow::Cow;
use vinezombie::ircmsg::{ClientMsg, SharedSource, Source};
use vinezombie::string::{tf, Bytes, Splitter, Utf8Policy, Word};

pub const META: Meta = Meta {
    id: "C09",
    rule: "every combination of 2-3 thread programs (read, clone, slice, transform, UTF-8 checks, secret, owning, into_vec with mutation, drop) over copies of or references to one string, shared source or message x every schedule within the preemption bound and every stale read within the stale bound, on the real code under a block-level race, use-after-free, double-free and leak monitor; non-trivial: more than one schedule",
    assumptions: &[
        "std's Arc behaves as documented (each operation is one step with the documented synchronisation)",
        "memory accesses are tracked per allocation: atomics, frees, and the harness' own reads and writes of contents",
        "stores enter the modification order in execution order",
    ],
};

static mut LOG: Vec<(usize, u8, u64)> = Vec::new();
#[allow(static_mut_refs)]
fn log(op: u8, r: u64) {
    rt::quiet(|| unsafe { LOG.push((rt::me(), op, r)) });
}
#[allow(static_mut_refs)]
fn reset() {
    unsafe { LOG.clear() }
}
#[allow(static_mut_refs)]
fn outcome() -> u64 {
    let mut l = unsafe { LOG.clone() };
    l.sort_by_key(|x| x.0);
    h64(&l)
}

fn look(b: &[u8], want: &[u8], what: &str) {
    rt::sp();
    if !b.is_empty() {
        rt::read(b.as_ptr() as usize, what);
    }
    rt::check(b == want, || format!("{what}: sees {} instead of {}", show(b), show(want)));
}

/// Takes a vector over: it is exclusively ours, so we may write to it.
fn seize(mut v: Vec<u8>, want: &[u8]) {
    look(&v, want, "vector");
    if !v.is_empty() {
        rt::write(v.as_ptr() as usize, "owned vector");
        for c in v.iter_mut() {
            *c = b'#';
        }
    }
    log(b'v', v.len() as u64);
    rt::sp();
    drop(v);
}

fn thread(prog: &[u8], mut b: Bytes<'static>) {
    let mut want: Vec<u8> = rt::quiet(|| b.as_bytes().to_vec());
    for op in prog {
        match op {
            b'r' => look(&b, &want, "read"),
            b'k' => {
                let c = b.clone();
                look(&c, &want, "clone");
            }
            b'h' => {
                let c = b.clone();
                drop(b);
                b = c;
            }
            b'l' => {
                let s = unsafe { b.using_value(&b.as_bytes_unsafe()[1..], Utf8Policy::Recheck) };
                b = s;
                rt::quiet(|| {
                    want.remove(0);
                });
            }
            b'p' => {
                let n = b.len() - 1;
                let s = unsafe { b.using_value(&b.as_bytes_unsafe()[..n], Utf8Policy::Recheck) };
                b = s;
                rt::quiet(|| {
                    want.pop();
                });
            }
            b'u' => {
                rt::sp();
                let u = b.to_utf8().is_some();
                let w = std::str::from_utf8(&want).is_ok();
                rt::check(u == w, || "wrong UTF-8 verdict".into());
            }
            b'L' => {
                b = b.into_utf8_lossy();
                rt::quiet(|| want = String::from_utf8_lossy(&want).into_owned().into_bytes());
            }
            b'S' => b = b.secret(),
            b'o' => b = b.owning(),
            b'B' => {
                let e = b.to_base64();
                rt::check(!e.is_empty(), || "empty base64".into());
            }
            b'c' => {
                b.transform(tf::AsciiCasemap::<true>);
                rt::quiet(|| want.make_ascii_uppercase());
            }
            b't' => {
                b.transform(tf::TrimAscii(tf::StringSide::Start));
                rt::quiet(|| {
                    let n = want.iter().take_while(|c| c.is_ascii_whitespace()).count();
                    want.drain(..n);
                });
            }
            b'x' => {
                let l: vinezombie::string::NoNul<'static> = b.try_into().expect("no nul");
                let mut sp = Splitter::new(l);
                let w: Word = sp.string(false).expect("word");
                drop(sp);
                b = w.into();
                rt::quiet(|| {
                    let n = want.iter().position(|c| *c == b' ').unwrap_or(want.len());
                    want.truncate(n);
                });
            }
            // Terminal operations.
            b'v' => {
                let v = b.into_vec();
                seize(v, &want);
                rt::quiet(|| drop(want));
                return;
            }
            b'w' => {
                let c: Cow<'static, [u8]> = b.into();
                seize(c.into_owned(), &want);
                rt::quiet(|| drop(want));
                return;
            }
            b'd' => {
                drop(b);
                log(b'd', 0);
                rt::quiet(|| drop(want));
                return;
            }
            _ => unreachable!(),
        }
    }
    unreachable!()
}

fn scenario(content: &'static [u8], secret: bool, progs: Vec<Vec<u8>>, main_keeps: bool) -> Box<dyn FnOnce()> {
    reset();
    Box::new(move || {
        let mut ids = rt::quiet(|| Vec::<usize>::with_capacity(8));
        let mut kept = None;
        rt::held(|| {
            let mut b: Bytes<'static> = content.to_vec().into();
            if secret {
                b = b.secret();
            }
            if main_keeps {
                kept = Some(b.clone());
            }
            let n = progs.len();
            let mut b = Some(b);
            for (i, p) in progs.into_iter().enumerate() {
                let mine = if i + 1 == n { b.take().unwrap() } else { b.as_ref().unwrap().clone() };
                ids.push(rt::spawn(move || thread(&p, mine)));
            }
        });
        for i in ids.iter() {
            rt::join(*i);
        }
        rt::quiet(|| drop(ids));
        if let Some(k) = kept {
            look(&k, content, "kept copy");
        }
    })
}

/// Threads share one `&Bytes`; each clones it or inspects it.
fn by_ref(content: &'static [u8], progs: Vec<Vec<u8>>) -> Box<dyn FnOnce()> {
    reset();
    Box::new(move || {
        let mut ids = rt::quiet(|| Vec::<usize>::with_capacity(8));
        let b: Box<Bytes<'static>> = rt::held(|| Box::new(content.to_vec().into()));
        // The main thread keeps it alive until every thread is joined.
        let r: &'static Bytes<'static> = unsafe { &*(&*b as *const _) };
        rt::held(|| {
            for p in progs {
                ids.push(rt::spawn(move || {
                    // 'u'/'r' before 'C' act on the shared reference.
                    let mut it = p.iter().position(|c| *c == b'C').unwrap();
                    for op in &p[..it] {
                        match op {
                            b'r' => look(r, content, "shared read"),
                            b'u' => {
                                let ok = r.to_utf8().is_some();
                                rt::check(ok == std::str::from_utf8(content).is_ok(), || "wrong UTF-8 verdict".into());
                            }
                            b'L' => {
                                let l = r.to_utf8_lossy();
                                rt::check(l == String::from_utf8_lossy(content), || "wrong lossy text".into());
                            }
                            b'z' => {
                                let z = r.is_utf8_lazy();
                                rt::check(z.is_none_or(|z| z == std::str::from_utf8(content).is_ok()), || "wrong lazy verdict".into());
                            }
                            _ => unreachable!(),
                        }
                    }
                    it += 1;
                    thread(&p[it..], r.clone());
                }));
            }
        });
        for i in ids.iter() {
            rt::join(*i);
        }
        rt::quiet(|| drop(ids));
        look(&b, content, "shared original");
        drop(b);
    })
}

/// Threads share one source: 'r' read, 'k' clone, 'o' owning, 'm' owning_merged, 'd' drop.
fn source(raw: &'static [u8], progs: Vec<Vec<u8>>) -> Box<dyn FnOnce()> {
    reset();
    fn text(s: &Source<'_>) -> Vec<u8> {
        let mut v = Vec::new();
        s.write_to(&mut v).unwrap();
        v
    }
    fn read(s: &Source<'_>, raw: &[u8]) {
        rt::sp();
        rt::read(s.nick.as_bytes().as_ptr() as usize, "nick");
        let t = rt::quiet(|| text(s));
        rt::check(t == raw, || format!("source reads {}", show(&t)));
        rt::quiet(|| drop(t));
    }
    Box::new(move || {
        let mut ids = rt::quiet(|| Vec::<usize>::with_capacity(8));
        rt::held(|| {
            let w: Word<'static> = Word::from_bytes(raw.to_vec()).expect("word");
            let s = SharedSource::new(Source::parse(w).expect("source"));
            let n = progs.len();
            let mut s = Some(s);
            for (i, p) in progs.into_iter().enumerate() {
                let mut mine = if i + 1 == n { s.take().unwrap() } else { s.as_ref().unwrap().clone() };
                ids.push(rt::spawn(move || {
                    for op in &p {
                        match op {
                            b'r' => read(&mine, raw),
                            b'k' => {
                                let c = mine.clone();
                                read(&c, raw);
                            }
                            b'h' => {
                                let c = mine.clone();
                                drop(mine);
                                mine = c;
                            }
                            b'o' | b'm' => {
                                let own = if *op == b'o' { mine.owning() } else { mine.owning_merged() };
                                read(&own, raw);
                                let v = Bytes::from(own.nick).into_vec();
                                let w = raw.split(|c| *c == b'!' || *c == b'@').next().unwrap();
                                seize(v, w);
                                return;
                            }
                            b'd' => return drop(mine),
                            _ => unreachable!(),
                        }
                    }
                }));
            }
        });
        for i in ids.iter() {
            rt::join(*i);
        }
        rt::quiet(|| drop(ids));
    })
}

/// Threads own copies of one parsed message and edit or take them apart.
fn message(line: &'static [u8], progs: Vec<Vec<u8>>) -> Box<dyn FnOnce()> {
    reset();
    fn text(m: &ClientMsg<'_>) -> Vec<u8> {
        let mut v = Vec::new();
        m.write_to(&mut v).unwrap();
        v
    }
    Box::new(move || {
        let mut ids = rt::quiet(|| Vec::<usize>::with_capacity(8));
        rt::held(|| {
            let m = ClientMsg::parse(line.to_vec()).expect("parse").owning();
            let n = progs.len();
            let mut m = Some(m);
            for (i, p) in progs.into_iter().enumerate() {
                let mut mine = if i + 1 == n { m.take().unwrap() } else { m.as_ref().unwrap().clone() };
                ids.push(rt::spawn(move || {
                    let base = rt::quiet(|| text(&mine));
                    for op in &p {
                        match op {
                            b'r' => {
                                rt::sp();
                                let t = rt::quiet(|| text(&mine));
                                rt::check(t == base, || "message changed".into());
                                rt::quiet(|| drop(t));
                            }
                            b'k' => drop(mine.clone()),
                            b'o' => mine = mine.owning(),
                            b'e' => {
                                // Editing one copy leaves the others alone.
                                let mut c = mine.clone();
                                c.args.edit().add_literal("x");
                                rt::sp();
                                drop(c);
                            }
                            b'v' => {
                                let a: Vec<Vec<u8>> = mine.args.words().iter().map(|a| Bytes::from(a.clone()).into_vec()).collect();
                                let a2: Vec<Vec<u8>> = rt::quiet(|| mine.args.words().iter().map(|a| a.as_bytes().to_vec()).collect());
                                rt::check(a == a2, || "arguments differ".into());
                                rt::quiet(|| drop(a2));
                                drop(mine);
                                rt::quiet(|| drop(base));
                                return;
                            }
                            b'd' => {
                                drop(mine);
                                rt::quiet(|| drop(base));
                                return;
                            }
                            _ => unreachable!(),
                        }
                    }
                }));
            }
        });
        for i in ids.iter() {
            rt::join(*i);
        }
        rt::quiet(|| drop(ids));
    })
}

fn sw(b: &[&[u8]]) -> Vec<Vec<u8>> {
    b.iter().map(|x| x.to_vec()).collect()
}
fn sl(p: &[Vec<u8>]) -> Vec<String> {
    p.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect()
}

/// All unordered pairs.
fn pairs(a: &[Vec<u8>], mut f: impl FnMut(Vec<Vec<u8>>)) {
    for i in 0..a.len() {
        for j in i..a.len() {
            f(vec![a[i].clone(), a[j].clone()]);
        }
    }
}

const TXT: &[u8] = b" hey you";
const BAD: &[u8] = b" h\xffy you";

pub fn run(cx: &mut Ctx) {
    let b2 = Bounds { preempt: cx.pick(3, 4), stale: 1, spurious: 0, weak: 1 };
    let mut progs = Vec::new();
    for pre in [&b""[..], b"r", b"k", b"h", b"l", b"p", b"u", b"L", b"S", b"o", b"B", b"c", b"t", b"tx", b"lr", b"kr", b"hr", b"Sr"] {
        for t in [b'v', b'w', b'd'] {
            if t == b'w' && pre.len() > 1 {
                continue;
            }
            let mut p = pre.to_vec();
            p.push(t);
            progs.push(p);
        }
    }
    cx.section("two threads with copies", &format!("all pairs of {} programs on copies of one string, {b2:?}", progs.len()));
    pairs(&progs, |p| {
        cx.case(|| format!("programs {:?} on {}", sl(&p), show(TXT)), |st| explore(st, b2, || scenario(TXT, false, p.clone(), false), outcome));
    });
    let small = sw(&[b"rv", b"rd", b"kv", b"hd", b"lv", b"pv", b"Sv", b"Lv", b"ud", b"cv", b"rw"]);
    cx.section("variants", &format!("pairs of {} programs on a secret string, a non-UTF-8 string, and with a third copy kept by the creating thread, {b2:?}", small.len()));
    pairs(&small, |p| {
        for (c, s, k) in [(TXT, true, false), (BAD, false, false), (TXT, false, true)] {
            cx.case(|| format!("programs {:?} on {}, secret {s}, kept {k}", sl(&p), show(c)), |st| explore(st, b2, || scenario(c, s, p.clone(), k), outcome));
        }
    });
    let b3 = Bounds { preempt: cx.pick(2, 3), stale: cx.pick(0, 1), spurious: 0, weak: 0 };
    let three = sw(&[b"v", b"d", b"rv", b"kd", b"hv", b"lv"]);
    cx.section("three threads with copies", &format!("all triples of {} programs, {b3:?}", three.len()));
    seqs(three.len(), 3, 3, |ix| {
        if ix[0] > ix[1] || ix[1] > ix[2] {
            return;
        }
        let p: Vec<Vec<u8>> = ix.iter().map(|i| three[*i].clone()).collect();
        cx.case(|| format!("programs {:?}", sl(&p)), |st| explore(st, b3, || scenario(TXT, false, p.clone(), false), outcome));
    });
    let bref = Bounds { preempt: cx.pick(3, 5), stale: 2, spurious: 0, weak: 1 };
    let refs = sw(&[b"Cd", b"Cv", b"Crv", b"uCd", b"uCv", b"ruCrd", b"uzCud", b"LCLv", b"zuCv", b"zCuv"]);
    cx.section("shared reference", &format!("pairs of {} programs on one shared reference, UTF-8 and not, {bref:?}", refs.len()));
    pairs(&refs, |p| {
        for c in [TXT, BAD] {
            cx.case(|| format!("programs {:?} on {}", sl(&p), show(c)), |st| explore(st, bref, || by_ref(c, p.clone()), outcome));
        }
    });
    let bsrc = Bounds { preempt: cx.pick(2, 4), stale: cx.pick(0, 1), spurious: 0, weak: 0 };
    let sp = sw(&[b"o", b"m", b"d", b"ro", b"rm", b"rd", b"ko", b"hm", b"kd"]);
    cx.section("shared sources", &format!("pairs of {} programs on SharedSource copies, {bsrc:?}", sp.len()));
    pairs(&sp, |p| {
        for raw in [&b"nick!user@host"[..], b"nick"] {
            cx.case(|| format!("programs {:?} on {}", sl(&p), show(raw)), |st| explore(st, bsrc, || source(raw, p.clone()), outcome));
        }
    });
    let bm = Bounds { preempt: cx.pick(1, 2), stale: 0, spurious: 0, weak: 0 };
    let mp = sw(&[b"d", b"rd", b"kd", b"od", b"ed", b"rv", b"ev", b"ov"]);
    cx.section("messages", &format!("pairs of {} programs on copies of one message, {bm:?}", mp.len()));
    pairs(&mp, |p| {
        let line = b"@k=v PRIVMSG #c :hello there";
        cx.case(|| format!("programs {:?}", sl(&p)), |st| explore(st, bm, || message(line, p.clone()), outcome));
    });
    crate::litmus::run(cx);
}
