//! C26: serialisation round-trips and cannot forge invalid values.
use super::irc::*;
use super::rules::{self, Ty};
use crate::engine::*;
use serde::de::value::*;
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vinezombie::client::auth::{sasl, AnySasl, Clear, Sasl, Secret};
use vinezombie::ircmsg::*;
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C26",
    rule: "every byte string up to the bound x every string type, serialised to JSON text and JSON values and read back; every JSON document from the pools (strings, arrays of numbers, other types) read as every string type and as numerics; all 65536 integers as numerics; argument lists, tags, sources and messages from pools; non-trivial: the value is non-empty or the document is of the right shape",
    assumptions: &["serde_json (text and Value) and serde's own value deserializers stand for all formats", "values whose serialisation reports an error (non-UTF-8 tag keys in JSON) are not serialisable"],
};

/// Serialises to JSON and reads back every way JSON offers.
fn json<T: Serialize + DeserializeOwned, V: PartialEq + std::fmt::Debug>(what: &str, v: &T, view: impl Fn(&T) -> V, st: &mut Stats) -> R {
    let want = view(v);
    let text = serde_json::to_string(v).map_err(|e| format!("{what}: {e}"))?;
    let val = serde_json::to_value(v).map_err(|e| format!("{what}: {e}"))?;
    let mut outs: Vec<(&str, Result<T, serde_json::Error>)> = Vec::new();
    outs.push(("from_str", serde_json::from_str(&text)));
    outs.push(("from_slice", serde_json::from_slice(text.as_bytes())));
    outs.push(("from_reader", serde_json::from_reader(text.as_bytes())));
    outs.push(("from_value", serde_json::from_value(val.clone())));
    outs.push(("&Value", T::deserialize(&val)));
    for (how, r) in outs {
        st.step();
        match r {
            Ok(r) if view(&r) == want => (),
            Ok(r) => return Err(format!("{what} written as {text} reads back ({how}) as {:?}, expected {want:?}", view(&r))),
            Err(e) => return Err(format!("{what} written as {text} does not read back ({how}): {e}")),
        }
    }
    Ok(())
}
/// Reads a document that may or may not be acceptable as a value of a string type.
macro_rules! types {
    ($m:ident) => {
        $m!(Bytes, Bytes);
        $m!(NoNul, NoNul);
        $m!(Line, Line);
        $m!(Word, Word);
        $m!(Arg, Arg);
        $m!(Key, Key);
        $m!(Target, Target);
        $m!(Nick, Nick);
        $m!(User, User);
        $m!(Cmd, Cmd);
    };
}
fn string(b: &[u8], st: &mut Stats) -> R {
    let s = std::str::from_utf8(b).ok();
    macro_rules! one {
        ($t:ident, $ty:ident) => {{
            let ok = rules::valid(Ty::$ty, b);
            let by = |v: &$t<'static>| v.as_bytes().to_vec();
            if ok {
                let v: $t<'static> = $t::try_from(Bytes::from(b.to_vec())).unwrap();
                json(stringify!($t), &v, by, st)?;
                json(concat!("secret ", stringify!($t)), &v.secret(), by, st)?;
                let t: $t<'_> = $t::try_from(Bytes::from_bytes(b)).unwrap();
                let x = serde_json::to_value(&t).map_err(|e| e.to_string())?;
                let y: $t<'static> = serde_json::from_value(x).map_err(|e| e.to_string())?;
                if y.as_bytes() != b {
                    return Err(concat!("borrowed ", stringify!($t), " reads back differently").into());
                }
            }
            // Every way a format may offer the same bytes: accepted exactly if valid.
            let mut outs: Vec<(&str, Result<$t<'static>, String>)> = Vec::new();
            type E = serde::de::value::Error;
            let st2 = |r: Result<$t<'static>, E>| r.map_err(|e| e.to_string());
            outs.push(("bytes", st2($t::deserialize(BytesDeserializer::<E>::new(b)))));
            outs.push(("borrowed bytes", st2($t::deserialize(BorrowedBytesDeserializer::<E>::new(b)))));
            if let Some(s) = s {
                outs.push(("str", st2($t::deserialize(StrDeserializer::<E>::new(s)))));
                outs.push(("borrowed str", st2($t::deserialize(BorrowedStrDeserializer::<E>::new(s)))));
                outs.push(("string", st2($t::deserialize(StringDeserializer::<E>::new(s.to_string())))));
                let c: std::borrow::Cow<str> = s.into();
                outs.push(("cow", st2($t::deserialize(CowStrDeserializer::<E>::new(c)))));
            }
            for (how, r) in outs {
                st.step();
                match r {
                    Ok(v) if ok && v.as_bytes() == b => (),
                    Err(_) if !ok => (),
                    Ok(v) => return Err(format!("{} from {how} {} gave {}", stringify!($t), show(b), show(v.as_bytes()))),
                    Err(e) => return Err(format!("{} from {how} {} fails: {e}", stringify!($t), show(b))),
                }
            }
        }};
    }
    types!(one);
    if !b.is_empty() {
        st.nontrivial();
    }
    Ok(())
}
/// Reads an arbitrary document as every type: never an invalid value.
fn forge(doc: &str, st: &mut Stats) -> R {
    let val: Option<serde_json::Value> = serde_json::from_str(doc).ok();
    let mut shape = 0u32;
    macro_rules! one {
        ($t:ident, $ty:ident) => {{
            let mut outs: Vec<(&str, Option<$t<'static>>)> = vec![("text", serde_json::from_str(doc).ok())];
            outs.push(("value", val.clone().and_then(|v| serde_json::from_value(v).ok())));
            outs.push(("newtype option", serde_json::from_str::<Option<$t<'static>>>(doc).ok().flatten()));
            // `false` and nothing stand for the empty string; `true` and numbers for no string.
            if let "false" | "null" | "true" | "0" | "1" = doc {
                let want = matches!(doc, "false" | "null") && rules::valid(Ty::$ty, b"");
                for (how, r) in &outs[..2] {
                    let ok = match r {
                        Some(v) => want && v.as_bytes().is_empty(),
                        None => !want,
                    };
                    if !ok {
                        let r = r.as_ref().map(|v| show(v.as_bytes()));
                        return Err(format!("document {doc} read as {} ({how}) gave {r:?}", stringify!($t)));
                    }
                }
            }
            for (how, r) in outs {
                st.step();
                if let Some(v) = r {
                    shape += 1;
                    if !rules::valid(Ty::$ty, v.as_bytes()) {
                        return Err(format!("document {doc} read as {} ({how}) forged {}", stringify!($t), show(v.as_bytes())));
                    }
                }
            }
        }};
    }
    types!(one);
    let n = |v: &Numeric| -> R {
        if !v.as_bytes().iter().all(|c| c.is_ascii_digit()) || v.into_int() >= 1000 || v.as_str() != format!("{:03}", v.into_int()) {
            return Err(format!("document {doc} forged numeric {:?}", v.as_bytes()));
        }
        Ok(())
    };
    if let Ok(v) = serde_json::from_str::<Numeric>(doc) {
        n(&v)?;
        shape += 1;
    }
    if let Some(v) = val.clone().and_then(|v| serde_json::from_value::<Numeric>(v).ok()) {
        n(&v)?;
    }
    if let Ok(k) = serde_json::from_str::<ServerMsgKindRaw<'static>>(doc) {
        match &k {
            ServerMsgKindRaw::Numeric(v) => n(v)?,
            ServerMsgKindRaw::Cmd(c) if !rules::valid(Ty::Cmd, c.as_bytes()) => return Err(format!("document {doc} forged command {}", show(c))),
            _ => (),
        }
        shape += 1;
    }
    if let Ok(a) = serde_json::from_str::<Args<'static>>(doc) {
        shape += 1;
        let (w, l) = a.split_last();
        if w.iter().any(|w| !rules::valid(Ty::Arg, w.as_bytes())) || l.is_some_and(|l| !rules::valid(Ty::Line, l.as_bytes())) {
            return Err(format!("document {doc} forged arguments {a:?}"));
        }
        args_shape(&a, &v_args(&a))?;
    }
    if shape > 0 {
        st.nontrivial();
    }
    st.outcome(&shape);
    Ok(())
}
fn arglist(l: &[&[u8]], st: &mut Stats) -> R {
    let docs: Vec<serde_json::Value> = l
        .iter()
        .map(|b| match std::str::from_utf8(b) {
            Ok(s) => s.into(),
            Err(_) => b.iter().map(|c| serde_json::Value::from(*c)).collect(),
        })
        .collect();
    let n = l.len();
    let ok = l.iter().enumerate().all(|(i, a)| if i + 1 == n { rules::valid(Ty::Line, a) } else { rules::valid(Ty::Arg, a) });
    let text = serde_json::Value::from(docs).to_string();
    let r: Result<Args<'static>, _> = serde_json::from_str(&text);
    st.step();
    match r {
        Ok(a) if ok => {
            st.nontrivial();
            let want: Vec<Vec<u8>> = l.iter().map(|b| b.to_vec()).collect();
            if v_args(&a) != want {
                return Err(format!("{text} read as {a:?}"));
            }
            args_shape(&a, &want)?;
            json("Args", &a, |a| v_args(a), st)
        }
        Err(_) if !ok => Ok(()),
        Ok(a) => Err(format!("{text} accepted as {a:?}")),
        Err(e) => Err(format!("{text} rejected: {e}")),
    }
}
fn msg(m: &MMsg, st: &mut Stats) -> R {
    st.nontrivial();
    let num = m.kind[0].is_ascii_digit();
    for o in [Own::Owned, Own::Secret] {
        let s = b_server(m, o).owning();
        json("ServerMsg", &s, v_server, st)?;
        let t: Tags<'static> = s.tags.clone();
        json("Tags", &t, v_tags, st)?;
        if let Some(src) = &s.source {
            json("SharedSource", src, |s| v_source(s), st)?;
            json("Source", &Source::clone(src).owning(), v_source, st)?;
        }
        json("ServerMsgKindRaw", &s.kind, |k| (k.as_str().to_string(), matches!(k, ServerMsgKindRaw::Numeric(_))), st)?;
        if !num {
            json("ClientMsg", &b_client(m, o).owning(), v_client, st)?;
        }
    }
    Ok(())
}
/// The bytes a SASL configuration will send as its first reply.
fn payload(s: &dyn Sasl) -> Vec<(Vec<u8>, Vec<u8>)> {
    s.logic()
        .iter_mut()
        .map(|l| {
            let mut b = SecretBuf::with_capacity(0);
            l.reply(b"", &mut b).unwrap();
            (l.name().to_vec(), b.as_ref().to_vec())
        })
        .collect()
}
fn secret(pw: &[u8], cid: &str, zid: Option<&str>, st: &mut Stats) -> R {
    use ::base64::{engine::general_purpose::STANDARD, Engine};
    let b64 = STANDARD.encode(pw);
    let ok = !pw.contains(&0);
    let mut o = serde_json::Map::new();
    o.insert("authcid".into(), cid.into());
    o.insert("passwd".into(), b64.clone().into());
    if let Some(z) = zid {
        o.insert("authzid".into(), z.into());
    }
    let obj = serde_json::Value::Object(o);
    let idok = !cid.contains('\0') && !zid.is_some_and(|z| z.contains('\0'));
    let mut want = zid.unwrap_or("").as_bytes().to_vec();
    want.push(0);
    want.extend(cid.as_bytes());
    want.push(0);
    want.extend(pw);
    let want = vec![(b"PLAIN".to_vec(), want)];
    let chk = |what: &str, r: Result<Vec<(Vec<u8>, Vec<u8>)>, String>| -> R {
        match r {
            Ok(v) if ok && idok && v == want => Ok(()),
            Err(_) if !(ok && idok) => Ok(()),
            Ok(v) => Err(format!("{what} from {obj} sends {v:?}")),
            Err(e) => Err(format!("{what} from {obj}: {e}")),
        }
    };
    st.steps(4);
    if ok {
        st.nontrivial();
    }
    let s: Result<Secret<NoNul<'static>, Clear>, _> = serde_json::from_value(b64.clone().into());
    match s {
        Ok(s) if ok && s.as_bytes() == pw && s.is_secret() => (),
        Err(_) if !ok => (),
        _ => return Err(format!("Secret from {b64}")),
    }
    let c: Clear = serde_json::from_value(b64.clone().into()).map_err(|e| e.to_string())?;
    if c.0.as_ref() as &[u8] != pw {
        return Err(format!("Clear from {b64}"));
    }
    let text: &'static str = Box::leak(obj.to_string().into_boxed_str());
    let p: Result<sasl::Password<Clear>, _> = serde_json::from_str(text);
    chk("Password", p.map(|p| payload(&p)).map_err(|e| e.to_string()))?;
    let p: Result<sasl::Plain<Clear>, _> = serde_json::from_str(text);
    chk("Plain", p.map(|p| payload(&p)).map_err(|e| e.to_string()))?;
    unsafe { drop(Box::from_raw(text as *const str as *mut str)) };
    let any = serde_json::json!({ "Password": obj });
    let p: Result<AnySasl<Clear>, _> = serde_json::from_value(any);
    chk("AnySasl", p.map(|p| payload(&p)).map_err(|e| e.to_string()))?;
    // EXTERNAL carries the authorisation identity only.
    let p: Result<AnySasl<Clear>, _> = serde_json::from_value(serde_json::json!({ "External": cid }));
    match p {
        Ok(p) if !cid.contains('\0') && payload(&p) == [(b"EXTERNAL".to_vec(), cid.as_bytes().to_vec())] => (),
        Err(_) if cid.contains('\0') => (),
        _ => return Err(format!("External from {cid:?}")),
    }
    if let Ok(n) = NoNul::from_bytes(cid.to_string()) {
        json("External", &sasl::External(n), |e| e.0.to_vec(), st)?;
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("strings", "every byte string of length <= 2 over all 256 bytes (quick: length 2 over 22 bytes); lengths 3..=40 with one odd byte");
    let alpha: &[u8] = b"aZ09 :;=,!@%\\\"\r\n\0\x7f\xc3\xa9\xff\xed";
    let n = ctx.pick(2, 3);
    words(alpha, 0, n, |w| {
        let w = w.to_vec();
        ctx.case(|| show(&w), |st| string(&w, st));
    });
    for a in 0..=255u8 {
        ctx.case(|| format!("byte {a}"), |st| {
            string(&[a], st)?;
            string(&[b'x', a], st)?;
            string(&[a, b'X', a], st)
        });
    }
    for len in 3..=40usize {
        for c in [b'a', 0, b' ', b':', b'\n', b',', b'!', b'=', b'A', 0xc3, 0xff] {
            ctx.case(|| format!("length {len} byte {c}"), |st| {
                for at in [0, 1, 2, len / 2, len - 2, len - 1] {
                    let mut v = vec![b'x'; len];
                    v[at] = c;
                    string(&v, st)?;
                    v.fill(b'X');
                    v[at] = c;
                    string(&v, st)?;
                }
                Ok(())
            });
        }
    }
    let scalars = [
        "\"\"", "\"a\"", "\"A\"", "\":\"", "\" \"", "\":a\"", "\"a b\"", "\"\\u0000\"", "\"\\n\"", "\"a\\r\"", "\"a,b\"", "\"a!b\"", "\"a@b\"", "\"a%b\"", "\"a=b\"", "\"a;b\"", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"001\"", "\"PRIVMSG\"", "\"privmsg\"",
        "null", "true", "false", "0", "1", "10", "32", "48", "58", "65", "97", "999", "1000", "65535", "65536", "-1", "1.5", "255", "256", "{}", "[]", "{\"a\":1}",
    ];
    ctx.section("documents", "JSON scalars, arrays of up to 4 (thorough 5) numbers and strings, and nestings, read as every type");
    for s in scalars {
        ctx.case(|| s.to_string(), |st| forge(s, st));
        ctx.case(|| format!("[{s}]"), |st| forge(&format!("[{s}]"), st));
        ctx.case(|| format!("nested {s}"), |st| forge(&format!("[[{s}]]"), st));
        for t in scalars {
            ctx.case(|| format!("[{s},{t}]"), |st| forge(&format!("[{s},{t}]"), st));
        }
    }
    let nums = ["0", "1", "9", "13", "32", "48", "49", "57", "58", "65", "90", "97", "255", "256", "-1", "\"a\""];
    seqs(nums.len(), 3, ctx.pick(3, 4), |ix| {
        ctx.case(|| format!("numbers {ix:?}"), |st| forge(&format!("[{}]", ix.iter().map(|i| nums[*i]).collect::<Vec<_>>().join(",")), st));
    });
    ctx.section("numerics", "all 65536 integers; the 1000 numerics and all their forms");
    for i in 0..=65535u32 {
        ctx.case(|| format!("integer {i}"), |st| {
            st.step();
            let r: Result<Numeric, _> = serde_json::from_str(&i.to_string());
            let r2: Result<Numeric, serde::de::value::Error> = Numeric::deserialize((i as u16).into_deserializer());
            match (Numeric::from_int(i as u16), r, r2) {
                (Some(n), Ok(v), Ok(v2)) if i < 1000 && v == n && v2 == n && v.into_int() as u32 == i => {
                    st.nontrivial();
                    json("Numeric", &n, |n| n.as_bytes().to_vec(), st)?;
                    let back: u16 = serde_json::from_value(serde_json::to_value(n).unwrap()).map_err(|e| e.to_string())?;
                    if back as u32 != i || Numeric::from_bytes(format!("{i:03}").as_bytes()) != Some(n) {
                        return Err("numeric written differently".into());
                    }
                    Ok(())
                }
                (None, Err(_), Err(_)) if i >= 1000 => Ok(()),
                (a, b, c) => Err(format!("from_int {a:?}, JSON {b:?}, serde {c:?}")),
            }
        });
    }
    ctx.section("argument lists", "every list of up to 4 (thorough 5) strings, valid or not");
    let pool: [&[u8]; 11] = [b"a", b"bc", b"", b":x", b"d e", b"\xff", b"\n", b"\0", b"\r", b" ", b"\xc3\xa9"];
    seqs(pool.len(), 0, ctx.pick(3, 4), |ix| {
        ctx.case(|| format!("list {ix:?}"), |st| arglist(&ix.iter().map(|i| pool[*i]).collect::<Vec<_>>(), st));
    });
    ctx.section("messages", "tags x sources x kinds x argument lists from pools");
    let tags: Vec<BTreeMap<Vec<u8>, Vec<u8>>> = [&[][..], &[("k", &b""[..])], &[("k", b"v;\\ \n"), ("+a/b", b"\xff")], &[("a", b"1"), ("b", b""), ("c", b"\xc3\xa9"), ("z", b"\\")]]
        .iter()
        .map(|l: &&[(&str, &[u8])]| l.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.to_vec())).collect())
        .collect();
    let s = |n: &[u8], u: Option<&[u8]>, h: Option<&[u8]>| Some(MSource { nick: n.to_vec(), user: u.map(|u| u.to_vec()), host: h.map(|h| h.to_vec()) });
    let sources = [None, s(b"irc.example", None, None), s(b"n", None, Some(b"h")), s(b"n", Some(b"u"), Some(b"h")), s(b"n\xff", Some(b"\xfe"), Some(b"\xfd!@"))];
    let args: [&[&[u8]]; 8] = [&[], &[b"a"], &[b"a", b"b"], &[b""], &[b"a", b":b c"], &[b"\xff", b"\xfe x"], &[b"a", b"b", b"c", b""], &[b"\t", b" "]];
    for t in &tags {
        for s in &sources {
            for k in ["A", "PRIVMSG", "001", "433", "000", "999"] {
                for a in args {
                    let m = MMsg { tags: t.clone(), source: s.clone(), kind: k.as_bytes().to_vec(), args: a.iter().map(|a| a.to_vec()).collect() };
                    ctx.case(|| dm(&m), |st| msg(&m, st));
                }
            }
        }
    }
    ctx.section("tags", "tag keys over 8 bytes up to length 3 x 6 values; all pairs of keys up to length 2 x 4 pairs of values");
    let mut keys: Vec<Vec<u8>> = Vec::new();
    words(b"+a/.-Z0_", 1, ctx.pick(3, 3), |w| {
        if Key::from_bytes(w.to_vec()).is_ok() {
            keys.push(w.to_vec());
        }
    });
    let one = |t: Vec<(Vec<u8>, &[u8])>| MMsg { tags: t.into_iter().map(|(k, v)| (k, v.to_vec())).collect(), kind: b"CMD".to_vec(), ..Default::default() };
    for k in &keys {
        for v in [&b""[..], b"v", b"+", b"\\", b" ;", b"\xff"] {
            let m = one(vec![(k.clone(), v)]);
            ctx.case(|| dm(&m), |st| msg(&m, st));
        }
        for l in keys.iter().filter(|l| k.len() < 3 && l.len() < 3 && k < *l) {
            for (v, w) in [(&b""[..], &b""[..]), (b"", b"x"), (b"x", b""), (b"x", b"x")] {
                let m = one(vec![(k.clone(), v), (l.clone(), w)]);
                ctx.case(|| dm(&m), |st| msg(&m, st));
            }
        }
    }
    ctx.section("secrets", "secret and SASL configuration documents: passwords over 5 bytes up to length 3 x identities");
    words(b"a\0\xff +", 0, ctx.pick(3, 4), |w| {
        let w = w.to_vec();
        for cid in ["user", "", "a\0b", "\u{e9}"] {
            for zid in [None, Some(""), Some("z"), Some("\0")] {
                ctx.case(|| format!("password {} authcid {cid:?} authzid {zid:?}", show(&w)), |st| secret(&w, cid, zid, st));
            }
        }
    });
    ctx.section("field sizes", "every field, and every pair of fields, of every length from a list around powers of two and the limits; usual messages");
    for m in sized(ctx.thorough()) {
        ctx.case(|| dm(&m), |st| msg(&m, st));
    }
}
