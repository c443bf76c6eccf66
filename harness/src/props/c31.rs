//! C31: the storage of secret strings is wiped before it is released.
use super::c08::{derive, NOPS};
use crate::alloc::{wipe_forget, wipe_reset, wipe_watch};
use crate::engine::*;
use vinezombie::client::auth::{sasl, Clear, LoadSecret, Sasl, Secret};
use vinezombie::ircmsg::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C31",
    rule: "every chain of derivations and every history of sharing, converting and dropping up to the bound; the checking allocator knows the storage of every owning secret string seen and, when that block is released, requires every byte of it to be wiped (or never written); non-trivial: a block holding a secret string was released",
    assumptions: &[
        "vectors, strings and views handed out by an explicit conversion belong to the caller and are not wiped",
        "intermediate copies that never were a secret string's storage are not covered",
    ],
};

const SECRETS: &[&[u8]] = &[b"Zq7Zq8", b" Zq7 Zq8 ", b"Zq7\\sZq8;\\", b"Zq\xff7Zq\xfe", b"ZQ7", b"!Z@q,:7", b"Z"];

fn watch(b: &Bytes) {
    if b.is_secret() && b.is_owning() {
        wipe_watch(b.as_bytes());
    }
}
fn finish(what: &str, st: &mut Stats) -> R {
    let (left, freed, bad) = wipe_reset();
    st.steps(freed);
    if freed > 0 {
        st.nontrivial();
    }
    if bad > 0 {
        return Err(format!("{what}: {bad} of {freed} released blocks of secret strings were not wiped"));
    }
    if left > 0 {
        return Err(format!("{what}: the storage of {left} secret strings was never released"));
    }
    st.outcome(&freed);
    Ok(())
}

/// Capacity to spare that holds older content.
fn spare(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v.extend_from_slice(b"oldsecret");
    v.truncate(b.len());
    v
}
const NREP: usize = 9;
fn repr(b: &[u8], rep: usize) -> Bytes<'_> {
    match rep {
        0 => Bytes::from_bytes(b).secret().owning(),
        1 => Bytes::from(b.to_vec()).secret(),
        2 => Bytes::from_secret(b.to_vec()),
        3 => Bytes::from_secret(spare(b)),
        4 => SecretBuf::from(b.to_vec()).into_bytes(),
        5 => {
            let mut s = SecretBuf::with_capacity(1);
            s.push_slice(b);
            s.push_slice(b);
            s.clear();
            s.push_slice(b);
            s.into_bytes()
        }
        6 => {
            let c = Bytes::from(b.to_vec());
            let d = c.clone();
            let s = c.secret();
            drop(d);
            s
        }
        7 => {
            let k = Bytes::from_secret(b.to_vec());
            let _ = k.to_utf8();
            k
        }
        _ => {
            use vinezombie::owning::MakeOwning;
            let mut k = Bytes::from_bytes(b).secret();
            k.make_owning();
            k
        }
    }
}

fn chain(b: &[u8], rep: usize, ops: &[usize], order: usize, st: &mut Stats) -> R {
    wipe_reset();
    {
        let mut fmt = String::new();
        let mut held = vec![repr(b, rep)];
        watch(&held[0]);
        let mut v = held[0].clone();
        for op in ops {
            let r = derive(v.clone(), *op, &mut fmt);
            r.iter().for_each(watch);
            let next = r.first().cloned();
            match order {
                // Everything is kept and dropped from the first or from the last.
                0 | 1 => held.extend(r),
                // Only the newest is kept.
                _ => held = r,
            }
            match next {
                Some(d) => v = d,
                None => break,
            }
        }
        drop(v);
        if order == 1 {
            while held.pop().is_some() {}
        }
    }
    finish("derivations", st)
}

const HOPS: usize = 13;
/// Histories on up to three strings.
fn history(b: &[u8], rep: usize, ops: &[usize], st: &mut Stats) -> R {
    wipe_reset();
    let mut m: Vec<Vec<u8>> = vec![b.to_vec()];
    {
        let first = repr(b, rep);
        watch(&first);
        let mut s: Vec<Bytes> = vec![first];
        for (i, op) in ops.iter().enumerate() {
            st.step();
            if s.is_empty() {
                break;
            }
            let last = s.len() - 1;
            match op {
                0 => {
                    s.push(s[last].clone());
                    m.push(m[last].clone());
                }
                1 => {
                    s.push(s[0].clone());
                    m.push(m[0].clone());
                }
                // Slices sharing the storage.
                2 | 3 | 4 => {
                    let mut sp = Splitter::new(s[last].clone());
                    let mut x = m[last].clone();
                    if *op != 3 && sp.next_byte().is_some() {
                        x.remove(0);
                    }
                    if *op != 2 && sp.rnext_byte().is_some() {
                        x.pop();
                    }
                    s.push(sp.rest::<Bytes>().unwrap());
                    m.push(x);
                }
                5 => {
                    drop(s.remove(0));
                    m.remove(0);
                }
                6 => {
                    drop(s.pop());
                    m.pop();
                }
                // To a vector: either the storage itself or a copy.
                7 | 8 => {
                    let at = if *op == 7 { 0 } else { last };
                    let x = m.remove(at);
                    let v = Vec::<u8>::from(s.remove(at));
                    if v != x {
                        return Err(format!("step {i}: the vector holds {}, expected {}", show(&v), show(&x)));
                    }
                    wipe_forget(v.as_ptr(), v.capacity());
                }
                // From secret to secret through a vector.
                9 => {
                    let x = m.pop().unwrap();
                    let v = Vec::<u8>::from(s.pop().unwrap());
                    wipe_forget(v.as_ptr(), v.capacity());
                    s.push(Bytes::from_secret(v));
                    m.push(x);
                }
                10 => {
                    s[last].transform(tf::AsciiCasemap::<false>);
                    m[last].make_ascii_lowercase();
                }
                11 => {
                    s[last].transform(tf::TrimAscii(tf::StringSide::StartFirst));
                    m[last] = m[last].trim_ascii().to_vec();
                }
                _ => {
                    let x = s.pop().unwrap().into_utf8_lossy();
                    m[last] = String::from_utf8_lossy(&m[last]).into_owned().into_bytes();
                    s.push(x);
                }
            }
            if s.len() > 3 {
                s.remove(0);
                m.remove(0);
            }
            s.iter().for_each(watch);
            for (a, e) in s.iter().zip(&m) {
                if a.as_bytes() != e {
                    return Err(format!("step {i}: a string holds {}, expected {}", show(a), show(e)));
                }
            }
            st.state(&(i, m.len(), op));
        }
    }
    finish("history", st)
}

#[derive(Clone)]
struct Ld(Vec<u8>, usize);
impl LoadSecret for Ld {
    fn size_hint(&self) -> usize {
        self.1
    }
    fn load_secret(self, data: &mut SecretBuf) -> std::io::Result<()> {
        data.push_slice(&self.0);
        Ok(())
    }
}
/// A password from loading to the messages sent with it.
fn login(b: &[u8], hint: usize, route: usize, st: &mut Stats) -> R {
    wipe_reset();
    {
        let e = |e: std::io::Error| e.to_string();
        let Ok(_) = NoNul::from_bytes(b) else { return Ok(()) };
        let sec: NoNul<'static> = match route % 3 {
            0 => Secret::into_inner(Secret::<NoNul<'static>, Ld>::load(Ld(b.to_vec(), hint)).map_err(e)?),
            1 => Secret::into_inner(Secret::<NoNul<'static>, Clear>::load(Clear(SecretBuf::from(spare(b)))).map_err(e)?),
            _ => NoNul::from_bytes(b).unwrap().secret().owning(),
        };
        let sec = Secret::<NoNul<'static>, Clear>::new(sec);
        watch(&NoNul::clone(&sec).into_bytes());
        let mut logic = if route < 3 {
            sasl::Password::new(NoNul::from_str("user"), sec.clone()).logic()
        } else {
            sasl::Plain::new(NoNul::from_str("user"), sec.clone()).logic()
        };
        drop(sec);
        let mut out = SecretBuf::with_capacity(logic[0].size_hint());
        logic[0].reply(b"", &mut out).map_err(|e| e.to_string())?;
        drop(logic);
        let payload = out.into_bytes();
        watch(&payload);
        let mut msgs = Vec::new();
        for chunk in base64::ChunkEncoder::new(&payload, 8, true) {
            watch(&chunk.clone().into_bytes());
            let mut m = ClientMsg::new_cmd(Cmd::from_str("AUTHENTICATE"));
            m.args.edit().add_word(chunk);
            msgs.push(m);
        }
        drop(payload);
        st.step();
        for m in msgs {
            let c = m.clone().owning();
            if let Some(w) = c.args.words().last() {
                watch(&w.clone().into_bytes());
            }
            let mut w = Vec::new();
            m.send_to(&mut w, &mut Vec::new()).map_err(e)?;
        }
    }
    finish("login", st)
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("derivations", "7 secrets x 9 representations x every chain of 34 derivations to depth 3 (thorough 4), kept and dropped first to last, last to first, or dropped at once");
    for b in SECRETS {
        for rep in 0..NREP {
            seqs(NOPS, 0, ctx.pick(2, 3), |ix| {
                for order in 0..3 {
                    ctx.case(|| format!("secret {} representation {rep} derivations {ix:?} order {order}", show(b)), |st| chain(b, rep, ix, order, st));
                }
            });
        }
    }
    ctx.section("histories", "4 secrets x 9 representations x every history of 13 operations (share, slice, drop, to vector, transform) on up to 3 strings to depth 5 (thorough 6)");
    for b in &SECRETS[1..5] {
        for rep in 0..NREP {
            seqs(HOPS, 0, ctx.pick(4, 5), |ix| {
                ctx.case(|| format!("secret {} representation {rep} operations {ix:?}", show(b)), |st| history(b, rep, ix, st));
            });
        }
    }
    ctx.section("logins", "passwords of every length 0..=80 loaded with 5 size hints over 6 routes, through the SASL mechanism, chunks and messages");
    for n in 0..=80usize {
        let b: Vec<u8> = b"Zq7Xk4".iter().cycle().take(n).copied().collect();
        for hint in [0, 1, 7, 32, 200] {
            for route in 0..6 {
                ctx.case(|| format!("{n} bytes hint {hint} route {route}"), |st| login(&b, hint, route, st));
            }
        }
    }
    ctx.section("sizes", "strings of every length 1..=600 in every representation: shared, sliced, dropped");
    for n in 1..=600usize {
        let b: Vec<u8> = b"Zq7Xk4 ".iter().cycle().take(n).copied().collect();
        for rep in 0..NREP {
            for h in [&[0usize, 6, 6][..], &[4, 5, 8], &[2, 5, 10], &[8]] {
                ctx.case(|| format!("{n} bytes representation {rep} operations {h:?}"), |st| history(&b, rep, h, st));
            }
        }
    }
}
