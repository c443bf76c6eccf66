//! C18: chunked base64 encoding and decoding are inverse.
use crate::engine::*;
use vinezombie::string::base64::{ChunkDecoder, ChunkEncoder};

pub const META: Meta = Meta {
    id: "C18",
    rule: "every input length up to the bound x chunk size x byte pattern (all bytes for lengths 0..2, boundary bytes for 3..4), every short chunk sequence over the base64 alphabet plus invalid bytes for the decoder; non-trivial: more than one chunk, or an input the decoder must reject",
    assumptions: &["byte values of long inputs beyond the listed patterns do not influence chunking"],
};

const ABC: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn m_enc(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        o.push(ABC[(n >> 18) as usize & 63]);
        o.push(ABC[(n >> 12) as usize & 63]);
        o.push(if c.len() > 1 { ABC[(n >> 6) as usize & 63] } else { b'=' });
        o.push(if c.len() > 2 { ABC[n as usize & 63] } else { b'=' });
    }
    o
}
/// Canonical decoding only.
pub fn m_dec(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() % 4 != 0 {
        return None;
    }
    let mut o = Vec::new();
    for (i, q) in b.chunks(4).enumerate() {
        let last = i + 1 == b.len() / 4;
        let pad = q.iter().filter(|c| **c == b'=').count();
        if pad > 0 && (!last || pad > 2 || q[4 - pad..].iter().any(|c| *c != b'=')) {
            return None;
        }
        let mut n = 0u32;
        for c in &q[..4 - pad] {
            n = n << 6 | ABC.iter().position(|a| a == c)? as u32;
        }
        n <<= 6 * pad as u32;
        let by = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        o.extend(&by[..3 - pad]);
    }
    if m_enc(&o) != b {
        return None; // non-zero trailing bits
    }
    Some(o)
}
pub fn m_chunks(b: &[u8], max: usize) -> Vec<Vec<u8>> {
    let e = m_enc(b);
    let mut v: Vec<Vec<u8>> = e.chunks(max).map(|c| c.to_vec()).collect();
    if e.len() % max == 0 {
        v.push(b"+".to_vec());
    }
    v
}

fn roundtrip(b: &[u8], max: usize, secret: bool, st: &mut Stats) -> R {
    let want = m_chunks(b, max);
    let mut enc = ChunkEncoder::new(b, max, secret);
    let mut dec = ChunkDecoder::new(max);
    let mut result = None;
    if want.len() > 1 {
        st.nontrivial();
    }
    for (i, w) in want.iter().enumerate() {
        if enc.len() != want.len() - i || enc.size_hint() != (want.len() - i, Some(want.len() - i)) {
            return Err(format!("len() = {} with {} chunks left", enc.len(), want.len() - i));
        }
        if enc.is_empty() {
            return Err("is_empty() with chunks left".into());
        }
        // A clone continues independently.
        let c2 = enc.clone().next().ok_or("clone ended early")?;
        let c = enc.next().ok_or("encoder ended early")?;
        if c.as_bytes() != &w[..] || c2 != c {
            return Err(format!("chunk {i}: expected {}, got {}", show(w), show(&c)));
        }
        if c.is_secret() != secret {
            return Err(format!("chunk {i}: secret = {}", c.is_secret()));
        }
        st.step();
        if max % 4 == 0 && max >= 4 {
            let r = dec.add(c.as_bytes());
            if r.is_some() != (i + 1 == want.len()) {
                return Err(format!("decoder finished = {} at chunk {i} of {}", r.is_some(), want.len()));
            }
            result = r;
        }
    }
    if enc.next().is_some() || enc.next().is_some() || enc.len() != 0 || !enc.is_empty() {
        return Err("encoder continues after its last chunk".into());
    }
    if max % 4 == 0 && max >= 4 {
        match &result {
            Some(Ok(x)) if x.as_bytes() == b => (),
            Some(Ok(x)) => return Err(format!("decoded {}", show(x))),
            Some(Err(e)) => return Err(format!("decoder error {e}")),
            None => return Err("decoder never finished".into()),
        }
        // The decoder is reusable.
        for w in &want {
            result = dec.add(&w[..]);
        }
        if !matches!(&result, Some(Ok(x)) if x.as_bytes() == b) {
            return Err("second use of the decoder".into());
        }
    }
    st.outcome(&(want.len(), want.last().unwrap().len()));
    Ok(())
}

/// All chunk sequences: the decoder returns what the concatenation means or an error.
fn decode_seq(chunks: &[&[u8]], max: usize, st: &mut Stats) -> R {
    let mut d = ChunkDecoder::new(max);
    let mut acc: Vec<u8> = Vec::new();
    for (i, c) in chunks.iter().enumerate() {
        let r = d.add(c);
        st.step();
        if !(c.len() < max && *c == b"+") {
            acc.extend(*c);
        }
        if c.len() >= max {
            if r.is_some() {
                return Err(format!("finished on full chunk {i}"));
            }
            continue;
        }
        let want = m_dec(&acc);
        acc.clear();
        match (r, &want) {
            (None, _) => return Err(format!("not finished on short chunk {i}")),
            (Some(Ok(g)), Some(w)) if g.as_bytes() == &w[..] => st.outcome(w),
            (Some(Err(_)), None) => st.nontrivial(),
            (Some(g), w) => {
                return Err(format!(
                    "chunk {i}: decoder returned {:?}, expected {:?}",
                    g.map(|g| g.to_vec()),
                    w
                ))
            }
        }
    }
    // Explicit decode() of what is pending.
    let want = m_dec(&acc);
    match (d.decode(), want) {
        (Ok(g), Some(w)) if g.as_bytes() == &w[..] => (),
        (Err(_), None) => (),
        _ => return Err("decode() of pending chunks".into()),
    }
    if !matches!(d.decode(), Ok(x) if x.is_empty()) {
        return Err("decode() did not leave the decoder empty".into());
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let maxlen = ctx.pick(420, 1300);
    ctx.section("lengths", &format!("input length 0..={maxlen} x chunk size {{1..=64, 76, 399, 400, 401, 512}} x 2 byte patterns x secret"));
    for len in 0..=maxlen {
        for max in (1..=64).chain([76, 399, 400, 401, 512]) {
            for pat in 0..2u8 {
                let b: Vec<u8> = (0..len).map(|i| if pat == 0 { (i * 7 + len) as u8 } else { 0xff - (i * 31) as u8 }).collect();
                let secret = (len + max) % 2 == 0;
                ctx.case(|| format!("len={len} max={max} pat={pat} secret={secret}"), |st| roundtrip(&b, max, secret, st));
            }
        }
    }
    ctx.section("bytes", "all inputs of 0..=2 bytes, all over 9 boundary bytes of 3..=5 bytes, chunk sizes 1,3,4,5,8,400");
    words(&(0..=255).collect::<Vec<u8>>(), 0, 2, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            for max in [1, 3, 4, 5, 8, 400] {
                roundtrip(&w, max, max == 4, st)?;
            }
            Ok(())
        });
    });
    words(b"\0\x01\x3f\x40\x7f\x80\xbf\xfb\xff", 3, ctx.pick(5, 6), |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            for max in [1, 3, 4, 5, 8, 400] {
                roundtrip(&w, max, max == 4, st)?;
            }
            Ok(())
        });
    });
    ctx.section("empty", "empty encoders");
    ctx.case(|| "empty".into(), |_| {
        for mut e in [ChunkEncoder::empty(), ChunkEncoder::default(), ChunkEncoder::new(b"abc", 0, true)] {
            if !e.is_empty() || e.len() != 0 || e.next().is_some() {
                return Err("empty encoder yields chunks".into());
            }
        }
        Ok(())
    });
    let dl = ctx.pick(5, 6);
    ctx.section("decoder", &format!("every single chunk over an 11-byte alphabet up to length {dl}, chunk sizes 1..=8,400"));
    words(b"AQgw/9+=\x80 \n", 0, dl, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| {
            for max in [1, 2, 3, 4, 5, 8, 400] {
                decode_seq(&[&w], max, st)?;
            }
            Ok(())
        });
    });
    let toks: [&[u8]; 12] = [b"", b"+", b"AAAA", b"QUJD", b"QQ==", b"QUI=", b"Q", b"QU", b"UI=", b"====", b"!", b"AAAABBBB"];
    let sl = ctx.pick(4, 5);
    ctx.section("sequences", &format!("every sequence of up to {sl} chunks from a 12-chunk alphabet, chunk sizes 4 and 8"));
    seqs(toks.len(), 0, sl, |ix| {
        let c: Vec<&[u8]> = ix.iter().map(|i| toks[*i]).collect();
        ctx.case(|| format!("{:?}", c.iter().map(|c| show(c)).collect::<Vec<_>>()), |st| {
            decode_seq(&c, 4, st)?;
            decode_seq(&c, 8, st)
        });
    });
}
