//! C25: pings are answered and sent pings are matched exactly.
use super::irc;
use super::world::{self, Ev, Ran, MS};
use crate::engine::*;
use crate::vclock;
use std::time::Duration;
use vinezombie::client::channel::*;
use vinezombie::client::handlers::*;
use vinezombie::client::*;
use vinezombie::ircmsg::ServerMsg;
use vinezombie::string::Line;

pub const META: Meta = Meta {
    id: "C25",
    rule: "every sequence of server messages over the alphabet (pings, pongs with own, foreign and near-miss payloads, CTCP queries and look-alikes) up to the bound against the stock handlers on the real client; replies compared with a reference; non-trivial: a reply or completion was due",
    assumptions: &["near-miss pong payloads are derived from the ping that was actually sent; two different pings are assumed to get different payloads"],
};

/// What a CTCP query in a PRIVMSG body asks for (upper-cased).
fn ctcp(body: &[u8]) -> Option<String> {
    let b = body.strip_prefix(b"\x01")?;
    let b = b.split(|c| *c == 1).next().unwrap();
    let w = b.split(|c| *c == b' ').next().unwrap();
    (!w.is_empty()).then(|| String::from_utf8_lossy(w).to_ascii_uppercase())
}
fn src(s: &irc::MSource) -> String {
    let mut r = String::from_utf8_lossy(&s.nick).to_string();
    if let Some(u) = &s.user {
        r.push('!');
        r.push_str(&String::from_utf8_lossy(u));
    }
    if let Some(h) = &s.host {
        r.push('@');
        r.push_str(&String::from_utf8_lossy(h));
    }
    r
}
#[derive(Clone)]
struct Cfg {
    pong: bool,
    version: &'static str,
    source: &'static str,
    ctcp: bool,
}
/// Expected replies to one line.
fn replies(cfg: &Cfg, line: &str) -> Vec<String> {
    let mut out = Vec::new();
    let m = irc::m_parse(line.as_bytes(), true).expect("model parse");
    let args: Vec<String> = m.args.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect();
    let kind = String::from_utf8_lossy(&m.kind).to_string();
    if kind == "PING" && cfg.pong {
        match args.last() {
            None => out.push("PONG".into()),
            Some(a) => out.push(format!("PONG {a}")),
        }
    }
    if kind == "PRIVMSG" && cfg.ctcp && args.len() == 2 {
        if let (Some(nick), Some(q)) = (m.source.as_ref().map(|s| String::from_utf8_lossy(&s.nick).to_string()), ctcp(args[1].as_bytes())) {
            let r = match q.as_str() {
                "VERSION" => cfg.version,
                "SOURCE" => cfg.source,
                _ => "",
            };
            if !r.is_empty() {
                out.push(format!("NOTICE {nick} \x01{q} {r}\x01"));
            }
        }
    }
    out
}
/// Writes a line in the form used above: arguments without the long-argument colon.
fn plain(l: &str) -> String {
    match l.find(" :") {
        Some(i) => format!("{} {}", &l[..i], &l[i + 2..]),
        None => l.to_string(),
    }
}

fn auto(cfg: &Cfg, lines: &[String], tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(1)));
    let mut ids = vec![];
    if cfg.pong {
        ids.push(c.add((), AutoPong).unwrap().0);
    }
    if cfg.ctcp {
        let l = |s: &str| Line::from_bytes(s.to_string()).unwrap();
        ids.push(c.add((), CtcpVersion { version: l(cfg.version), source: l(cfg.source) }).unwrap().0);
    }
    let mut want: Vec<String> = Vec::new();
    for l in lines {
        sh.borrow_mut().feed(format!("{l}\r\n"));
        want.extend(replies(cfg, l));
        st.step();
    }
    let r = world::run(&mut c, &sh, tokio);
    if r != Ran::Timeout {
        return Err(format!("run returned {r:?}: an automatic handler finished"));
    }
    let got: Vec<String> = sh.borrow().lines().iter().map(|l| plain(l)).collect();
    if got != want {
        return Err(format!("replied {got:?}, expected {want:?}"));
    }
    if !want.is_empty() {
        st.nontrivial();
    }
    st.outcome(&got);
    Ok(())
}

/// Payload variants of a pong, derived from the ping that was sent.
pub const VARIANTS: usize = 22;
fn variant(p: &str, other: &str, v: usize) -> (String, bool) {
    let pad = |s: &str, n: usize| format!("{}{s}", "0".repeat(n.saturating_sub(s.len())));
    match v {
        0 => (format!(":irc.x PONG irc.x {p}"), true),
        1 => (format!(":irc.x PONG irc.x :{p}"), true),
        2 => (format!("PONG {p}"), true),
        3 => (format!(":irc.x PONG irc.x 0{p}"), false),
        4 => (format!(":irc.x PONG irc.x 4{}", pad(p, 11)), false),
        5 => (format!(":irc.x PONG irc.x 1{}", pad(p, 12)), false),
        6 => (format!(":irc.x PONG irc.x 777{}", pad(p, 11)), false),
        7 => (":irc.x PONG irc.x :".into(), false),
        8 => (":irc.x PONG".into(), false),
        9 => (format!(":irc.x PONG {p} irc.x"), false),
        10 => (format!(":irc.x PONG irc.x :{p} {p}"), false),
        11 => (format!(":irc.x PONG irc.x {p}0"), false),
        12 => (format!(":irc.x PONG irc.x {}", &p[..p.len() - 1]), p.len() == 1 && false),
        13 => (format!(":irc.x PONG irc.x {other}"), other == p),
        14 => (format!(":irc.x PING {p}"), false),
        15 => (format!(":irc.x PONG irc.x {}8", &p[..p.len() - 1]), false),
        16 => (format!(":irc.x PONG irc.x {}", u64::from_str_radix(p, 8).unwrap()), false),
        17 => (format!(":irc.x PONG irc.x x{p}"), false),
        18 => (format!(":n!u@h PRIVMSG me {p}"), false),
        19 => (format!(":irc.x 999 me {p}"), false),
        20 => (format!(":irc.x PONG irc.x {}", pad(p, 22)), p.len() >= 22),
        _ => (format!("@a=b :n!u@h PONG a b c {p}"), true),
    }
}
/// Pings sent at the given times; pongs (ping index, variant, delay before it).
fn ping(starts: &[u64], pongs: &[(usize, usize, u64)], tokio: bool, st: &mut Stats) -> R {
    vclock::on();
    let (conn, sh) = world::net();
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let mut hs = Vec::new();
    let mut rx = Vec::new();
    for s in starts {
        vclock::advance_ns(*s);
        let p = Ping::default();
        let (id, r) = c.add((), p).unwrap();
        hs.push((vclock::now_ns(), id, true));
        rx.push(r);
    }
    // Send them.
    let t_flush = vclock::now_ns();
    if tokio {
        world::block(c.flush_partial_tokio()).unwrap().map_err(|e| e.to_string())?;
    } else {
        c.flush_partial().map_err(|e| e.to_string())?;
    }
    let lines = sh.borrow().lines();
    let pay: Vec<String> = lines.iter().filter_map(|l| l.strip_prefix("PING ").map(|s| s.to_string())).collect();
    if pay.len() != starts.len() || lines.len() != pay.len() {
        return Err(format!("sent {lines:?}"));
    }
    if pay.iter().any(|p| p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit())) {
        return Err(format!("unexpected payloads {pay:?}"));
    }
    for i in 0..pay.len() {
        if pay[..i].contains(&pay[i]) {
            return Ok(()); // Payload collision: outside the assumption.
        }
    }
    c.set_read_timeout(Some(Duration::from_secs(3600)));
    let mut t = t_flush;
    let mut done: Vec<Option<(u64, Option<String>)>> = vec![None; pay.len()];
    for (i, v, d) in pongs {
        let other = &pay[(i + 1) % pay.len()];
        let (line, _) = variant(&pay[*i], other, *v);
        t += d * MS;
        {
            let mut n = sh.borrow_mut();
            n.input.push_back(Ev::Delay(*d));
            n.feed(format!("{line}\r\n"));
            n.feed(":s NOP\r\n");
        }
        // Which pings does this complete? Exactly those whose payload is the last argument of a PONG.
        let m = irc::m_parse(line.as_bytes(), true).expect("model");
        let mut fin = Vec::new();
        if m.kind == b"PONG" {
            for (k, p) in pay.iter().enumerate() {
                if done[k].is_none() && m.args.last().is_some_and(|a| a == p.as_bytes()) {
                    done[k] = Some((t - hs[k].0, m.source.as_ref().map(src)));
                    fin.push(hs[k].1);
                    hs[k].2 = false;
                }
            }
        }
        fin.sort();
        let any_before = hs.iter().any(|h| h.2) || !fin.is_empty();
        if !any_before {
            continue;
        }
        if fin.is_empty() {
            continue; // Consumed by the next run.
        }
        let r = world::run(&mut c, &sh, tokio);
        if r != Ran::Ids(fin.clone(), fin.clone()) {
            return Err(format!("run returned {r:?}, expected {fin:?} to yield and finish (payloads {pay:?}, line {line:?})"));
        }
        if vclock::now_ns() != t {
            return Err("run returned at the wrong time".into());
        }
        st.nontrivial();
        st.step();
    }
    // Nothing else completes.
    if hs.iter().any(|h| h.2) {
        let r = world::run(&mut c, &sh, tokio);
        if r != Ran::Timeout {
            return Err(format!("run returned {r:?} without a matching pong (payloads {pay:?})"));
        }
    }
    for (k, (r, _)) in rx.into_iter().enumerate() {
        let got = r.recv_now();
        match (got, &done[k]) {
            (Some((s, d)), Some((w, src))) => {
                let s = s.map(|s| s.to_string());
                if d != Duration::from_nanos(*w) || s != *src {
                    return Err(format!("ping {k} gave {d:?} from {s:?}, expected {w} ns from {src:?}"));
                }
            }
            (None, None) => {}
            (g, w) => return Err(format!("ping {k} gave {:?}, expected {w:?}", g.map(|g| g.1))),
        }
    }
    st.outcome(&format!("{done:?}"));
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let cfgs = [
        Cfg { pong: true, version: "vz 1.0 (x)", source: "https://x.y/z", ctcp: true },
        Cfg { pong: false, version: "", source: "src", ctcp: true },
        Cfg { pong: false, version: "v", source: "", ctcp: true },
        Cfg { pong: true, version: "", source: "", ctcp: false },
    ];
    let lines: Vec<String> = [
        "PING", "PING :", "PING x", ":irc.x PING :a b", "PING s1 s2", "@t=v :irc.x PING ::x", "PONG x", "ping x", "PINGX y", ":s 001 n :w",
        ":n!u@h PRIVMSG me :\x01VERSION\x01", ":n!u@h PRIVMSG #c :\x01version\x01", ":n PRIVMSG me :\x01SOURCE x\x01", ":n@h PRIVMSG me \x01Source",
        "PRIVMSG me :\x01VERSION\x01", ":n!u@h NOTICE me :\x01VERSION\x01", ":n!u@h PRIVMSG me :VERSION", ":n!u@h PRIVMSG me :\x01VERSIONX\x01",
        ":n!u@h PRIVMSG me :\x01 VERSION\x01", ":n!u@h PRIVMSG me :x\x01VERSION\x01", ":n!u@h PRIVMSG me", ":n!u@h PRIVMSG me :\x01\x01", ":n!u@h PRIVMSG me extra :\x01VERSION\x01",
        ":n!u@h PRIVMSG me :\x01PING 123\x01",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    c.section("autoreply", "all sequences of messages against AutoPong and CtcpVersion");
    for cfg in &cfgs {
        seqs(lines.len(), 1, c.pick(3, 4), |ix| {
            let l: Vec<String> = ix.iter().map(|i| lines[*i].clone()).collect();
            for tokio in [false, true] {
                if tokio && l.len() > 2 {
                    continue;
                }
                c.case(|| format!("pong={} version={:?} source={:?} {l:?} tokio={tokio}", cfg.pong, cfg.version, cfg.source), |st| auto(cfg, &l, tokio, st));
            }
        });
    }
    c.section("payloads", "PING payloads and CTCP bodies over the structural alphabet");
    words(b"a: \x01", 0, c.pick(5, 7), |w| {
        let s = String::from_utf8_lossy(w).to_string();
        for l in [format!("PING :{s}"), format!(":n!u@h PRIVMSG me :\x01VERSION{s}"), format!(":n PRIVMSG x :{s}VERSION\x01")] {
            c.case(|| format!("{l:?}"), |st| auto(&cfgs[0], &[l.clone()], false, st));
        }
    });
    c.section("ping", "pongs of every near-miss kind for one ping, at many send times");
    for s in 0..c.pick(400u64, 4000) {
        for v in 0..VARIANTS {
            c.case(|| format!("start {s} variant {v}"), |st| ping(&[s * 7_919 + 1], &[(0, v, 250)], v % 2 == 0, st));
        }
    }
    c.section("pings", "two pings in flight: all sequences of pong variants");
    let vs: Vec<(usize, usize)> = (0..2).flat_map(|i| (0..VARIANTS).map(move |v| (i, v))).collect();
    seqs(vs.len(), 1, c.pick(2, 3), |ix| {
        let p: Vec<(usize, usize, u64)> = ix.iter().enumerate().map(|(k, i)| (vs[*i].0, vs[*i].1, [17, 400, 1303][k % 3])).collect();
        for tokio in [false, true] {
            c.case(|| format!("pongs (ping, variant, delay) {p:?} tokio {tokio}"), |st| ping(&[5 * MS, 90 * MS], &p, tokio, st));
        }
    });
    c.section("ping-scan", "send times scanned: own pong completes, and pongs of any other ping in the scan do not");
    let n = c.pick(2000u64, 20000);
    for s in 0..n {
        c.case(|| format!("start {s}"), |st| ping(&[s * 1_000_003, 1 + s], &[(0, 13, 1), (0, 3, 5), (0, 0, 9)], false, st));
    }
    c.section("ping-payloads", "pings sent at different times carry different payloads (up to one chance collision in a hundred)");
    for step in [1u64, 999, 1_000_003, 1_000_000_000, 60_000_000_007] {
        c.case(|| format!("5000 pings {step} ns apart"), |st| {
            vclock::on();
            let (conn, _sh) = world::net();
            let mut c = Client::new(conn, SyncChannels);
            c.queue_mut().set_rate_limit(Duration::ZERO, 0);
            let mut seen = std::collections::HashSet::new();
            let mut again = 0;
            for _ in 0..5000 {
                vclock::advance_ns(step);
                use vinezombie::client::SelfMadeHandler;
                Ping::default().queue_msgs(&vinezombie::client::ClientState::new(), c.queue_mut().edit());
                let m = c.queue_mut().pop(|_| ()).ok_or("no message")?;
                st.step();
                again += !seen.insert(m.to_string()) as u32;
            }
            if again > 50 {
                return Err(format!("{again} of 5000 pings carry the payload of an earlier one"));
            }
            st.nontrivial();
            Ok(())
        });
    }
    c.section("sizes", "PING payloads, CTCP bodies, senders and advertised texts of every length to 460");
    let t = |n: usize, ch: char| -> &'static str { Box::leak(ch.to_string().repeat(n).into_boxed_str()) };
    for n in 1..=460usize {
        let w = t(n, 'w');
        for l in [
            format!("PING {w}"), format!("PING :{w} {w}"), format!("PING a{w} :{w}"), format!("@x={w} :{w} PING {w}"), format!(":{w}!u@h PRIVMSG me :\x01VERSION\x01"), format!(":n!{w}@{w} PRIVMSG {w} :\x01VERSION\x01"),
            format!(":n PRIVMSG me :\x01VERSION {w}\x01"), format!(":n PRIVMSG me :\x01VERSION{w}\x01"), format!(":n PRIVMSG me :\x01SOURCE {w}"),
        ] {
            c.case(|| l.clone(), |st| auto(&cfgs[0], &[l.clone()], false, st));
        }
        let cfg = Cfg { pong: true, version: w, source: w, ctcp: true };
        for l in [":n PRIVMSG me :\x01VERSION\x01", ":n PRIVMSG me :\x01SOURCE\x01"] {
            c.case(|| format!("{n} bytes advertised: {l:?}"), |st| auto(&cfg, &[l.to_string()], false, st));
        }
    }
    let _ = ServerMsg::parse("x");
}
