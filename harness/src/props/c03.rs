//! C03: string types accept exactly the bytes they promise, on every safe route.
use super::rules::{self, Ty};
use crate::engine::*;
use vinezombie::string::tf::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C03",
    rule: "every byte string up to the bound, for every string type and every safe route producing that type; non-trivial: accepted by at least one restricted type and rejected by another",
    assumptions: &["bytes beyond the stated alphabets at lengths >= 3 behave like a listed byte of the same class"],
};

fn eqs(what: &str, want: Option<&[u8]>, got: Option<&[u8]>) -> R {
    if want != got {
        return Err(format!(
            "{what}: expected {}, got {}",
            want.map(show).unwrap_or("rejection".into()),
            got.map(show).unwrap_or("rejection".into())
        ));
    }
    Ok(())
}

macro_rules! supers {
    ($t:ident, $ty:ident, $b:ident, [$($s:ident),*]) => {
        $(
            if let Ok(sup) = $s::from_bytes($b) {
                let want = rules::valid(Ty::$ty, $b).then_some($b);
                let got = $t::try_from(sup);
                eqs(concat!(stringify!($t), "::try_from(", stringify!($s), ")"), want, got.as_ref().ok().map(|v| v.as_bytes()))?;
                if let Ok(v) = got {
                    let up: $s = v.into();
                    eqs(concat!("From<", stringify!($t), "> for ", stringify!($s)), Some($b), Some(up.as_bytes()))?;
                }
            }
        )*
    };
}

macro_rules! routes {
    ($fname:ident, $t:ident, $sup:ident, [$($s:ident),*]) => {
        fn $fname(b: &[u8], st: &mut Stats) -> R {
            let ok = rules::valid(Ty::$t, b);
            let want = ok.then_some(b);
            let n = stringify!($t);
            macro_rules! chk { ($what:expr, $e:expr) => {{
                st.step();
                let r = $e;
                eqs(&format!("{}::{}", n, $what), want, r.as_ref().ok().map(|v| v.as_bytes()))?;
                r
            }}; }
            let r = chk!("from_bytes(&[u8])", $t::from_bytes(b));
            let r2 = chk!("from_bytes(Bytes::from_bytes)", $t::from_bytes(Bytes::from_bytes(b)));
            let _ = chk!("from_bytes(Vec)", $t::from_bytes(b.to_vec()));
            let _ = chk!("from_bytes(Bytes::from(Vec).secret())", $t::from_bytes(Bytes::from(b.to_vec()).secret()));
            let _ = chk!("try_from(&[u8])", $t::try_from(b));
            let _ = chk!("try_from(Vec)", $t::try_from(b.to_vec()));
            let _ = chk!("try_from(Bytes)", $t::try_from(Bytes::from_bytes(b)));
            let _ = chk!("from_secret", $t::from_secret(b.to_vec()));
            if let Ok(s) = std::str::from_utf8(b) {
                let _ = chk!("try_from(&str)", $t::try_from(s));
                let _ = chk!("try_from(String)", $t::try_from(s.to_string()));
                if ok || b.len() <= 1 {
                    let r = std::panic::catch_unwind(|| $t::from_str(s).as_bytes().to_vec());
                    eqs(&format!("{n}::from_str"), want, r.as_ref().ok().map(|v| v.as_slice()))?;
                }
            }
            if let Ok(sup) = <$sup>::try_from(b) {
                let _ = chk_super!($t, $sup, sup, want, st);
            }
            supers!($t, $t, b, [$($s),*]);
            // find_invalid / is_invalid agree with the rule.
            if $t::find_invalid(b).is_none() != ok {
                return Err(format!("{n}::find_invalid disagrees with the rule"));
            }
            for c in b {
                if $t::is_invalid(c) != rules::bad_byte(Ty::$t, *c) {
                    return Err(format!("{n}::is_invalid({:?}) disagrees with the rule", *c as char));
                }
            }
            // The value keeps its bytes through every view.
            if let (Ok(v), Ok(v2)) = (r, r2) {
                if v != v2 || v.len() != b.len() || v.is_empty() != b.is_empty() || v2.is_owning() && !b.is_empty() {
                    return Err(format!("{n}: views disagree"));
                }
                if !(v == *b) || !(v == b) { return Err(format!("{n}: != its own bytes")); }
                let o = v2.clone().owning();
                eqs("owning", Some(b), Some(o.as_bytes()))?;
                let o = v2.clone().secret();
                eqs("secret", Some(b), Some(o.as_bytes()))?;
                eqs("into_vec", Some(b), Some(&Vec::<u8>::from(v2.clone())))?;
                eqs("into_bytes", Some(b), Some(v2.clone().into_bytes().as_bytes()))?;
                eqs("into_cstring", Some(b), Some(v2.clone().into_cstring().as_bytes()))?;
                let nz: Vec<u8> = v2.as_bytes_nonzero().iter().map(|n| n.get()).collect();
                eqs("as_bytes_nonzero", Some(b), Some(&nz))?;
                let as_ref: &[u8] = v2.as_ref();
                eqs("as_ref", Some(b), Some(as_ref))?;
            }
            // Splitting.
            let cut = b.iter().position(|c| rules::bad_byte(Ty::$t, *c)).unwrap_or(b.len());
            let pre = &b[..cut];
            let want_pre = rules::first_ok(Ty::$t, pre).then_some(pre);
            let mut sp = Splitter::new(Bytes::from_bytes(b));
            let pk = sp.peek_string::<$t>(false);
            eqs(&format!("peek_string::<{n}>(false)"), want_pre, pk.as_ref().ok().map(|v| v.as_bytes()))?;
            let pk = sp.peek_string::<$t>(true);
            eqs(&format!("peek_string::<{n}>(true)"), want, pk.as_ref().ok().map(|v| v.as_bytes()))?;
            if sp.as_slice() != b { return Err("peek consumed bytes".into()); }
            let g = sp.string::<$t>(false);
            eqs(&format!("string::<{n}>(false)"), want_pre, g.as_ref().ok().map(|v| v.as_bytes()))?;
            let rest = if want_pre.is_some() { &b[cut..] } else { b };
            if sp.as_slice() != rest { return Err(format!("string::<{n}>(false) left {}", show(sp.as_slice()))); }
            let mut sp = Splitter::new(Bytes::from(b.to_vec()));
            let g = sp.string::<$t>(true);
            eqs(&format!("string::<{n}>(true)"), want, g.as_ref().ok().map(|v| v.as_bytes()))?;
            if sp.len() != if ok {0} else {b.len()} { return Err(format!("string::<{n}>(true) consumption")); }
            let mut sp = Splitter::new(Bytes::from_bytes(b));
            sp.consume_invalid::<$t>();
            let first_good = b.iter().position(|c| !rules::bad_byte(Ty::$t, *c)).unwrap_or(b.len());
            if sp.as_slice() != &b[first_good..] { return Err(format!("consume_invalid::<{n}> left {}", show(sp.as_slice()))); }
            // From a string of the same type, any sub-slice obtained by splitting is valid again.
            if ok {
                for skip in 0..=b.len().min(4) {
                    for keep in 0..=(b.len() - skip).min(4) {
                        let mut sp = Splitter::new($t::from_bytes(b).unwrap());
                        for _ in 0..skip { sp.next_byte(); }
                        sp.until_count(keep);
                        let sub = &b[skip..skip + keep];
                        let want = rules::valid(Ty::$t, sub).then_some(sub);
                        let g = sp.peek_rest::<$t>();
                        eqs(&format!("rest of a {n}"), want, g.as_ref().ok().map(|v| v.as_bytes()))?;
                        let g = sp.rest::<$t>();
                        eqs(&format!("rest of a {n}"), want, g.as_ref().ok().map(|v| v.as_bytes()))?;
                        st.step();
                    }
                }
            }
            st.outcome(&(n, ok, cut));
            Ok(())
        }
    };
}
macro_rules! chk_super {
    ($t:ident, Bytes, $sup:ident, $want:ident, $st:ident) => { () };
    ($t:ident, $s:ident, $sup:ident, $want:ident, $st:ident) => {{
        let got = $t::from_super($sup);
        eqs(concat!(stringify!($t), "::from_super"), $want, got.as_ref().ok().map(|v| v.as_bytes()))?;
        if let Ok(v) = got {
            eqs(concat!(stringify!($t), "::into_super"), $want, Some(v.into_super().as_bytes()))?;
        }
        $st.step();
    }};
}
routes!(r_nonul, NoNul, Bytes, []);
routes!(r_line, Line, NoNul, [NoNul]);
routes!(r_word, Word, Line, [NoNul, Line]);
routes!(r_arg, Arg, Word, [NoNul, Line, Word]);
routes!(r_key, Key, Arg, [NoNul, Line, Word, Arg]);
routes!(r_target, Target, Arg, [NoNul, Line, Word, Arg]);
routes!(r_nick, Nick, Target, [NoNul, Line, Word, Arg, Target]);
routes!(r_user, User, Arg, [NoNul, Line, Word, Arg]);
routes!(r_cmd, Cmd, Arg, [NoNul, Line, Word, Arg]);

fn special(b: &[u8], st: &mut Stats) -> R {
    // Named constructors.
    if let Ok(a) = Arg::from_bytes(b) {
        let want = rules::valid(Ty::Nick, b).then_some(b);
        eqs("Nick::from_arg", want, Nick::from_arg(a).as_ref().ok().map(|v| v.as_bytes()))?;
        st.step();
    }
    if let Ok(w) = Word::from_bytes(b) {
        let up = b.to_ascii_uppercase();
        let want = rules::valid(Ty::Cmd, &up).then_some(&up[..]);
        eqs("Cmd::from_word", want, Cmd::from_word(w).as_ref().ok().map(|v| v.as_bytes()))?;
        st.step();
    }
    if let Ok(k) = Key::from_bytes(b) {
        if k.is_client_tag() != (b[0] == b'+') {
            return Err("Key::is_client_tag".into());
        }
    }
    if let Ok(u) = User::from_bytes(b) {
        let nt = b[0] != b'~';
        if u.no_tilde() != nt || u.len_with_tilde() != b.len() + nt as usize {
            return Err("User tilde length".into());
        }
    }
    // Tag escaping yields words / NUL-free strings (the exact values are C04).
    if let Ok(v) = NoNul::from_bytes(b) {
        let e = escape(v.clone());
        if !rules::valid(Ty::Word, &e) {
            return Err(format!("escape yields an invalid Word {}", show(&e)));
        }
        let u = unescape(v);
        if !rules::valid(Ty::NoNul, &u) {
            return Err(format!("unescape yields an invalid NoNul {}", show(&u)));
        }
        st.steps(2);
    }
    let w = Bytes::from_bytes(b).to_base64();
    if !rules::valid(Ty::Word, &w) {
        return Err(format!("to_base64 yields an invalid Word {}", show(&w)));
    }
    let a = Bytes::from_bytes(b).to_base64_plus();
    if !rules::valid(Ty::Arg, &a) {
        return Err(format!("to_base64_plus yields an invalid Arg {}", show(&a)));
    }
    Ok(())
}

fn tf_one(c: IrcCasemap, x: u8) -> u8 {
    match c {
        IrcCasemap::Ascii => x.to_ascii_lowercase(),
        IrcCasemap::Rfc1459Strict => match x {
            b'[' => b'{',
            b']' => b'}',
            b'\\' => b'|',
            x => x.to_ascii_lowercase(),
        },
        _ => match x {
            b'~' => b'^',
            x => tf_one(IrcCasemap::Rfc1459Strict, x),
        },
    }
}

fn transforms(b: &[u8], st: &mut Stats) -> R {
    macro_rules! cm { ($t:ident, $tf:expr, $want:expr) => {
        for own in [false, true] {
            if let Ok(v) = $t::from_bytes(Bytes::from_bytes(b)) {
                let mut v = if own { v.owning() } else { v };
                v.transform($tf);
                let want: Vec<u8> = $want;
                if v.as_bytes() != want || !rules::valid(Ty::$t, v.as_bytes()) {
                    return Err(format!("{}.transform({}) = {}", stringify!($t), stringify!($tf), show(v.as_bytes())));
                }
                st.step();
            }
        }
    };}
    let up = || b.to_ascii_uppercase();
    let low = || b.to_ascii_lowercase();
    cm!(NoNul, AsciiCasemap::<true>, up());
    cm!(Line, AsciiCasemap::<true>, up());
    cm!(Word, AsciiCasemap::<true>, up());
    cm!(Arg, AsciiCasemap::<true>, up());
    cm!(Key, AsciiCasemap::<true>, up());
    cm!(Cmd, AsciiCasemap::<true>, up());
    cm!(NoNul, AsciiCasemap::<false>, low());
    cm!(Line, AsciiCasemap::<false>, low());
    cm!(Word, AsciiCasemap::<false>, low());
    cm!(Arg, AsciiCasemap::<false>, low());
    cm!(Key, AsciiCasemap::<false>, low());
    for c in [IrcCasemap::Ascii, IrcCasemap::Rfc1459Strict, IrcCasemap::Rfc1459] {
        let w = || b.iter().map(|x| tf_one(c, *x)).collect::<Vec<u8>>();
        cm!(NoNul, c, w());
        cm!(Line, c, w());
        cm!(Word, c, w());
        cm!(Arg, c, w());
        cm!(Key, c, w());
        cm!(Target, c, w());
        cm!(Nick, c, w());
        cm!(User, c, w());
    }
    for side in [StringSide::Start, StringSide::End, StringSide::StartFirst, StringSide::EndFirst] {
        let mut w = b;
        if side != StringSide::Start {
            while let Some((l, r)) = w.split_last() {
                if l.is_ascii_whitespace() { w = r } else { break }
            }
        }
        if side != StringSide::End {
            while let Some((l, r)) = w.split_first() {
                if l.is_ascii_whitespace() { w = r } else { break }
            }
        }
        cm!(NoNul, TrimAscii(side), w.to_vec());
        cm!(Line, TrimAscii(side), w.to_vec());
    }
    Ok(())
}

/// Builder: every sequence of appends over short pieces.
macro_rules! builder {
    ($fname:ident, $t:ident) => {
        fn $fname(init: &[u8], ops: &[(usize, &[u8])], st: &mut Stats) -> R {
            let Ok(i) = $t::from_bytes(init) else { return Ok(()) };
            let mut b = Builder::<$t>::new(i);
            let mut m = init.to_vec();
            for (k, p) in ops {
                st.step();
                let allowed = !p.iter().any(|c| rules::bad_byte(Ty::$t, *c));
                let got = match k {
                    0 => b.try_append(p).is_ok(),
                    1 => match std::str::from_utf8(p) {
                        Ok(s) => b.try_append_str(s).is_ok(),
                        Err(_) => continue,
                    },
                    2 => {
                        if p.len() != 1 { continue }
                        b.try_push(p[0]).is_ok()
                    }
                    3 => match std::str::from_utf8(p).ok().and_then(|s| s.chars().next()).filter(|c| c.len_utf8() == p.len()) {
                        Some(c) => b.try_push_char(c).is_ok(),
                        None => continue,
                    },
                    _ => match $t::from_bytes(*p) {
                        Ok(v) => { b.append(v); true }
                        Err(_) => continue,
                    },
                };
                if got != allowed {
                    return Err(format!("Builder<{}> op {k} piece {} accepted={got}", stringify!($t), show(p)));
                }
                if got { m.extend_from_slice(p) }
                if &b[..] != &m[..] { return Err(format!("Builder<{}> holds {}, expected {}", stringify!($t), show(&b), show(&m))); }
            }
            let v = b.build();
            if v.as_bytes() != &m[..] || !rules::valid(Ty::$t, v.as_bytes()) {
                return Err(format!("Builder<{}> built {}", stringify!($t), show(v.as_bytes())));
            }
            st.nontrivial();
            st.outcome(&(stringify!($t), m));
            Ok(())
        }
    };
}
builder!(b_nonul, NoNul);
builder!(b_line, Line);
builder!(b_word, Word);
builder!(b_arg, Arg);
builder!(b_key, Key);
builder!(b_target, Target);
builder!(b_nick, Nick);
builder!(b_user, User);
builder!(b_cmd, Cmd);

fn all(b: &[u8], st: &mut Stats) -> R {
    r_nonul(b, st)?;
    r_line(b, st)?;
    r_word(b, st)?;
    r_arg(b, st)?;
    r_key(b, st)?;
    r_target(b, st)?;
    r_nick(b, st)?;
    r_user(b, st)?;
    r_cmd(b, st)?;
    special(b, st)?;
    transforms(b, st)?;
    let acc = rules::TYPES.iter().filter(|t| rules::valid(**t, b)).count();
    if acc > 1 && acc < 10 {
        st.nontrivial();
    }
    st.state(&rules::TYPES.map(|t| rules::valid(t, b)));
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("routes-1-2", "every byte string of length 0..=2 (all 256 bytes), 9 types, every safe route");
    let every: Vec<u8> = (0..=255).collect();
    words(&every, 0, 2, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| all(&w, st));
    });
    let alpha: &[u8] = if ctx.thorough() {
        b"\0\t\n\x0b\x0c\r !%+,-:;=@AZ[\\]az{|}~^/0\x7f\x80\xc3\xa9\xff"
    } else {
        b"\0\t\n\r !%+,:;=@AZ[az~\x80\xc3\xa9"
    };
    ctx.section("routes-3", "every byte string of length 3 over the class alphabet");
    words(alpha, 3, 3, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| all(&w, st));
    });
    let small: &[u8] = if ctx.thorough() { b"\0\r\n !%,:;=@Aa\xc3\xa9" } else { b"\0\n !%,:;=@Aa" };
    ctx.section("routes-4", "every byte string of length 4 and of a reduced alphabet at 5 over the reduced class alphabet");
    words(small, 4, 4, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| all(&w, st));
    });
    if ctx.thorough() {
        words(b"\0\n :,;@A", 5, 5, |w| {
            let w = w.to_vec();
            ctx.case(|| show(&w), |st| all(&w, st));
        });
    }
    // Long strings with one odd byte at every position (vectorised or chunked checks).
    ctx.section("routes-long", "valid strings of length 1..=70 with every class byte at every position");
    for len in [15usize, 16, 17, 31, 32, 33, 64, 70] {
        for pos in 0..len {
            for c in alpha {
                let mut w = vec![b'A'; len];
                w[pos] = *c;
                ctx.case(|| show(&w), |st| all(&w, st));
            }
        }
    }
    ctx.section("builder", "Builder: all initial values x all sequences of up to 3 (thorough 4) appends of the pieces, all append methods, 9 types");
    let inits: [&[u8]; 7] = [b"", b"a", b"A", b":", b"~x", b"\xc3", "é".as_bytes()];
    let pieces: [&[u8]; 16] = [b"", b"A", b"a", b":", b" ", b"=", b",", b"!", b"@", b"%", b"\0", b"\n", b"\xc3", b"\xa9", "é".as_bytes(), b"A;"];
    let k = pieces.len() * 5;
    let depth = ctx.pick(2, 3);
    for init in inits {
        seqs(k, 0, depth, |s| {
            let ops: Vec<(usize, &[u8])> = s.iter().map(|i| (i % 5, pieces[i / 5])).collect();
            ctx.case(
                || format!("init {} ops {:?}", show(init), ops.iter().map(|(k, p)| format!("{k}:{}", show(p))).collect::<Vec<_>>()),
                |st| {
                    b_nonul(init, &ops, st)?;
                    b_line(init, &ops, st)?;
                    b_word(init, &ops, st)?;
                    b_arg(init, &ops, st)?;
                    b_key(init, &ops, st)?;
                    b_target(init, &ops, st)?;
                    b_nick(init, &ops, st)?;
                    b_user(init, &ops, st)?;
                    b_cmd(init, &ops, st)
                },
            );
        });
    }
    ctx.section("ids", "User::from_id / from_id_short over boundary ids");
    for id in (0..2000u32).chain((0..32).flat_map(|s| [(1u32 << s).wrapping_sub(1), 1 << s, (1u32 << s) + 1])).chain([u32::MAX]) {
        ctx.case(|| format!("id {id}"), |st| {
            let u = User::from_id(id);
            let us = User::from_id_short(id as u16);
            if !rules::valid(Ty::User, &u) || !rules::valid(Ty::User, &us) {
                return Err("invalid User".into());
            }
            if u.as_bytes() != format!("i{id:08x}").as_bytes() {
                return Err(format!("from_id gives {u}"));
            }
            st.step();
            st.nontrivial();
            st.outcome(&u.to_string());
            Ok(())
        });
    }
}
