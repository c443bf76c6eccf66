//! C10: secret buffers are an exact, overflow-free and zeroing vector.
use crate::engine::*;
use std::io::Read;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C10",
    rule: "every sequence of buffer operations up to the bound, with every short-read/error answer of the reader, against a plain vector; the checking allocator verifies bounds on every free and scans released memory for the secret; non-trivial: the buffer was reallocated or read from",
    assumptions: &["out-of-bounds reads are only seen when they change a result or hit a red zone value", "memory release is observed at the global allocator"],
};

const MARK: &[u8] = b"\xf1SECR\xf2";

/// A reader answering from a script: n = up to n bytes, 0 = end, 255 = error, 254 = interrupted.
struct Rd<'a> {
    script: &'a [u8],
    at: usize,
    sent: usize,
    /// Bytes given so far, never more than what was asked in total.
    limit: usize,
    over: bool,
    got: Vec<u8>,
}
impl Read for Rd<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.sent + buf.len() > self.limit {
            self.over = true;
        }
        let a = self.script.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        match a {
            255 => Err(std::io::ErrorKind::Other.into()),
            n => {
                let n = (n as usize).min(buf.len());
                for b in buf[..n].iter_mut() {
                    *b = MARK[self.sent % MARK.len()];
                    crate::alloc::untracked(|| self.got.push(*b));
                    self.sent += 1;
                }
                Ok(n)
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Push(usize),
    CStr(usize),
    Slice(usize),
    Reserve(usize),
    Clear,
    Read(usize, Vec<u8>),
    Clone,
    View,
    Into(u8),
    Take,
}

fn data(n: usize) -> Vec<u8> {
    MARK.iter().cycle().take(n).copied().collect()
}

fn look(b: &SecretBuf, m: &[u8], op: &str) -> R {
    if b.as_ref() != m || b.is_empty() != m.is_empty() || b.as_bytes().as_bytes() != m {
        return Err(format!("after {op}: buffer holds {}, expected {}", show(b.as_ref()), show(m)));
    }
    if !b.as_bytes().is_secret() {
        return Err("as_bytes is not secret".into());
    }
    Ok(())
}

fn make(kind: usize) -> (SecretBuf, Vec<u8>) {
    match kind {
        0 => (SecretBuf::default(), vec![]),
        1 => (SecretBuf::with_capacity(1), vec![]),
        2 => (SecretBuf::with_capacity(8), vec![]),
        3 => (SecretBuf::from(data(6)), data(6)),
        4 => {
            let mut v = Vec::with_capacity(20);
            v.extend(data(7));
            (SecretBuf::from(v), data(7))
        }
        5 => (data(9).into_iter().collect(), data(9)),
        6 => {
            // Size hint far from the truth.
            let it = data(12).into_iter().filter(|c| *c != b'E');
            let m: Vec<u8> = data(12).into_iter().filter(|c| *c != b'E').collect();
            (it.collect(), m)
        }
        7 => {
            let mut n = 0;
            let it = std::iter::from_fn(move || {
                n += 1;
                (n <= 13).then(|| MARK[(n - 1) % MARK.len()])
            });
            (it.collect(), data(13))
        }
        _ => (SecretBuf::from(Vec::new()), vec![]),
    }
}

fn seq(kind: usize, ops: &[Op], st: &mut Stats) -> R {
    // Models and scripts live outside the watched allocations.
    crate::alloc::track_leaks();
    crate::alloc::watch_secret(MARK);
    let r = run_seq(kind, ops, st);
    let live = crate::alloc::stop_track();
    let hits = crate::alloc::unwatch_secret();
    r?;
    if hits != 0 {
        return Err(format!("released memory held the secret ({hits} block(s))"));
    }
    if live != 0 {
        return Err(format!("{live} heap blocks leaked"));
    }
    Ok(())
}
fn un<T>(f: impl FnOnce() -> T) -> T {
    crate::alloc::untracked(f)
}
fn run_seq(kind: usize, ops: &[Op], st: &mut Stats) -> R {
    let mut b;
    let mut m;
    {
        let (x, y) = match kind {
            // The source vector of From<Vec> is taken over; iterators own their copy, which is not the buffer's.
            5..=7 => un(|| make(kind)),
            _ => make_watched(kind),
        };
        b = x;
        m = y;
    }
    un(|| look(&b, &m, "creation"))?;
    for op in ops {
        st.step();
        match op {
            Op::Push(extra) => {
                let c = MARK[m.len() % MARK.len()];
                b.push(c, *extra);
                un(|| m.push(c));
            }
            Op::CStr(n) => {
                let d = un(|| data(*n));
                b.push_cstr(&d);
                un(|| {
                    m.extend(&d);
                    m.push(0);
                    drop(d);
                });
            }
            Op::Slice(n) => {
                let d = un(|| data(*n));
                b.push_slice(&d);
                un(|| {
                    m.extend(&d);
                    drop(d);
                });
                st.nontrivial();
            }
            Op::Reserve(n) => {
                b.reserve(*n);
                st.nontrivial();
            }
            Op::Clear => {
                b.clear();
                m.clear();
            }
            Op::Read(expect, script) => {
                let mut rd = Rd { script, at: 0, sent: 0, limit: *expect, over: false, got: Vec::new() };
                let r = b.read_from(*expect, &mut rd);
                st.nontrivial();
                if rd.over {
                    return Err(format!("{op:?}: the reader was offered more than the requested bytes"));
                }
                match r {
                    Ok(n) => {
                        if n != rd.sent {
                            return Err(format!("{op:?}: returned {n}, the reader gave {}", rd.sent));
                        }
                        // It stops only at the requested count or the end of the stream.
                        if n < *expect && script.get(rd.at - 1).copied().unwrap_or(0) != 0 {
                            return Err(format!("{op:?}: stopped after {n} bytes"));
                        }
                        un(|| m.extend(&rd.got));
                    }
                    Err(_) => {
                        if script.get(rd.at.wrapping_sub(1)) != Some(&255) {
                            return Err(format!("{op:?}: error without a reader error"));
                        }
                    }
                }
                un(|| drop(std::mem::take(&mut rd.got)));
            }
            Op::Clone => {
                let c = b.clone();
                un(|| look(&c, &m, "clone"))?;
                let old = std::mem::replace(&mut b, c);
                un(|| look(&old, &m, "original of a clone"))?;
            }
            Op::View => {
                let v = b.as_bytes();
                if v.as_bytes() != &m[..] || !v.is_secret() {
                    return Err("as_bytes differs".into());
                }
                let c = v.clone().owning();
                if c.as_bytes() != &m[..] || !c.is_secret() {
                    return Err("owned copy of as_bytes differs".into());
                }
            }
            Op::Take => {
                let old = std::mem::take(&mut b);
                un(|| look(&old, &m, "taken"))?;
                m.clear();
            }
            Op::Into(k) => {
                let v = std::mem::take(&mut b).into_bytes();
                if v.as_bytes() != &m[..] || !v.is_secret() {
                    return Err(format!("into_bytes gives {}", show(&v)));
                }
                match k {
                    0 => (),
                    1 => {
                        let a = v.clone();
                        drop(v);
                        if a.as_bytes() != &m[..] {
                            return Err("clone of into_bytes changed".into());
                        }
                    }
                    2 => {
                        // Back to a vector, which becomes a buffer again.
                        let vec = Vec::<u8>::from(v);
                        if vec != m {
                            return Err("vector differs".into());
                        }
                        b = SecretBuf::from(vec);
                        continue;
                    }
                    3 => {
                        // A sub-slice as a vector: the rest must not linger.
                        let mut s = Splitter::new(v);
                        s.next_byte();
                        let rest = s.rest::<Bytes>().unwrap();
                        drop(s);
                        let vec = Vec::<u8>::from(rest);
                        if vec != m[m.len().min(1)..] {
                            return Err("vector of a slice differs".into());
                        }
                        b = SecretBuf::from(vec);
                        un(|| {
                            m.drain(..m.len().min(1));
                        });
                        continue;
                    }
                    _ => {
                        let mut v = v;
                        v.transform(vinezombie::string::tf::AsciiCasemap::<false>);
                        let l = v.into_utf8_lossy();
                        drop(l);
                    }
                }
                m.clear();
            }
        }
        un(|| look(&b, &m, &format!("{op:?}")))?;
        st.state(&(m.len(), kind));
    }
    drop(b);
    un(|| {
        st.outcome(&m);
        m = Vec::new();
    });
    Ok(())
}
fn make_watched(kind: usize) -> (SecretBuf, Vec<u8>) {
    // From<Vec>: the vector handed over is the only copy.
    let m = un(|| make(kind).1);
    let b = match kind {
        3 => SecretBuf::from(data(6)),
        4 => {
            let mut v = Vec::with_capacity(20);
            let d = un(|| data(7));
            v.extend_from_slice(&d);
            un(|| drop(d));
            SecretBuf::from(v)
        }
        k => make(k).0,
    };
    (b, m)
}

pub fn run(ctx: &mut Ctx) {
    let mut ops = vec![
        Op::Push(0),
        Op::Push(3),
        Op::CStr(0),
        Op::CStr(6),
        Op::Slice(1),
        Op::Slice(7),
        Op::Reserve(0),
        Op::Reserve(1),
        Op::Reserve(9),
        Op::Clear,
        Op::Clone,
        Op::View,
        Op::Take,
    ];
    for k in 0..5 {
        ops.push(Op::Into(k));
    }
    for s in [&[9u8][..], &[2, 0], &[1, 3, 9], &[3, 255]] {
        ops.push(Op::Read(7, s.to_vec()));
    }
    ctx.section("sequences", "9 creations x every sequence of 22 operations to depth 4 (thorough 5)");
    for kind in 0..9 {
        seqs(ops.len(), 0, ctx.pick(3, 4), |ix| {
            let o: Vec<Op> = ix.iter().map(|i| ops[*i].clone()).collect();
            ctx.case(|| format!("creation {kind} ops {o:?}"), |st| seq(kind, &o, st));
        });
    }
    ctx.section("growth", "every sequence of 6 growing operations to depth 6 (thorough 7) from small capacities");
    let small = [Op::Push(0), Op::Push(1), Op::CStr(2), Op::Slice(3), Op::Reserve(2), Op::Clear];
    for kind in [0, 1, 3] {
        seqs(small.len(), 4, ctx.pick(5, 6), |ix| {
            let o: Vec<Op> = ix.iter().map(|i| small[*i].clone()).collect();
            ctx.case(|| format!("creation {kind} ops {o:?}"), |st| seq(kind, &o, st));
        });
    }
    ctx.section("reads", "read_from with every reader script of up to 4 answers (0,1,2,3,9 bytes or an error) for every requested count 0..=8, before and after other content");
    let answers = [0u8, 1, 2, 3, 9, 255];
    for expect in 0..=8usize {
        seqs(answers.len(), 0, ctx.pick(4, 5), |ix| {
            let script: Vec<u8> = ix.iter().map(|i| answers[*i]).collect();
            for kind in [0, 2, 4] {
                let o = vec![Op::Read(expect, script.clone()), Op::Push(0), Op::Read(expect, script.clone()), Op::Slice(2)];
                ctx.case(|| format!("creation {kind} ops {o:?}"), |st| seq(kind, &o, st));
            }
        });
    }
    ctx.section("push-n", "buffers pushed byte by byte to 70 from every capacity 0..=16 with every extra 0..=4");
    for cap in 0..=16usize {
        for extra in 0..=4usize {
            ctx.case(|| format!("capacity {cap} extra {extra}"), |st| {
                crate::alloc::track_leaks();
                crate::alloc::watch_secret(MARK);
                let mut b = SecretBuf::with_capacity(cap);
                for i in 0..70usize {
                    b.push(MARK[i % MARK.len()], extra);
                    st.step();
                    if b.as_ref().len() != i + 1 || b.as_ref()[i] != MARK[i % MARK.len()] {
                        return Err("push".into());
                    }
                }
                let same = un(|| b.as_ref() == data(70));
                drop(b);
                if !same {
                    return Err("content".into());
                }
                if crate::alloc::unwatch_secret() != 0 {
                    return Err("released memory held the secret".into());
                }
                if crate::alloc::stop_track() != 0 {
                    return Err("leak".into());
                }
                st.nontrivial();
                Ok(())
            });
        }
    }
}
