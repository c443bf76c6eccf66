//! C13: the send queue never exceeds its rate limit and never stalls.
use crate::engine::*;
use crate::vclock;
use std::time::Duration;
use vinezombie::client::queue::Queue;
use vinezombie::ircmsg::ClientMsg;
use vinezombie::string::Cmd;

pub const META: Meta = Meta {
    id: "C13",
    rule: "every sequence of pushes, pops, clock advances (including exactly to and one nanosecond before the announced time), rate-limit changes, clears and resets up to the bound, on a virtual clock, compared with a token-bucket model and with the window bound computed from the release times alone; non-trivial: a pop was refused",
    assumptions: &["the virtual clock replaces clock_gettime; time does not advance inside a call"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Push,
    Pop,
    /// Advance to `n` nanoseconds before the announced availability.
    Wait(u64),
    Adv(u64),
    Limit(u64, u32),
    Clear,
    Reset,
    Burst,
}
use Op::*;
const S: u64 = 1_000_000_000;

/// Token bucket: `credit` nanoseconds of sending time saved up, at most `burst * delay`.
#[derive(Hash)]
struct Model {
    delay: u64,
    burst: u64,
    /// Nanoseconds (relative to now) at which the bucket would be full again.
    debt: u64,
    len: u64,
}
impl Model {
    fn wait(&self) -> u64 {
        self.debt.saturating_sub(self.delay * self.burst)
    }
}

pub fn seq(ops: &[Op], st: &mut Stats) -> R {
    vclock::on();
    let r = inner(ops, st);
    vclock::off();
    r
}
fn inner(ops: &[Op], st: &mut Stats) -> R {
    let mut q = Queue::new();
    let mut m = Model { delay: 2 * S, burst: 4, debt: 0, len: 0 };
    // Release times since the limit was last set, for the window bound.
    let mut rel: Vec<u64> = Vec::new();
    let mut since = 0u64;
    let mut sent = 0u32;
    let mut next = 0u32;
    let mut fresh = true;
    for (i, op) in ops.iter().enumerate() {
        st.step();
        let mut adv = 0;
        match op {
            Push | Burst => {
                for _ in 0..if *op == Push { 1 } else { 7 } {
                    let mut c = ClientMsg::new_cmd(Cmd::from_str("A"));
                    c.args.edit().add(vinezombie::string::Line::from_bytes(next.to_string()).unwrap());
                    next += 1;
                    q.edit().push(c);
                    m.len += 1;
                }
            }
            Pop => {
                let mut told: Option<Option<Duration>> = None;
                let got = q.pop(|d| told = Some(d));
                let now = vclock::now_ns();
                let wait = m.wait();
                let want = if m.len == 0 { None } else { Some(wait) };
                match (got, want) {
                    (Some(g), Some(0)) => {
                        if told.is_some() {
                            return Err(format!("step {i}: released a message and reported a delay"));
                        }
                        if g.args.words().first().map(|a| a.to_vec()) != Some(sent.to_string().into_bytes()) {
                            return Err(format!("step {i}: released {g} instead of message {sent}"));
                        }
                        sent += 1;
                        m.len -= 1;
                        m.debt += m.delay;
                        rel.push(now);
                        // Window bound, from the release times alone.
                        if m.delay > 0 {
                            for (k, t) in rel.iter().enumerate() {
                                let n = (rel.len() - k) as u64;
                                let free = m.burst + 1;
                                if n > free + (now - t) / m.delay {
                                    return Err(format!("step {i}: {n} messages within {} ns", now - t));
                                }
                            }
                            if !fresh && (rel.len() as u64) > (now - since) / m.delay {
                                return Err(format!("step {i}: {} messages {} ns after the limit was changed", rel.len(), now - since));
                            }
                        }
                    }
                    (None, Some(w)) if w > 0 => {
                        st.nontrivial();
                        match told {
                            Some(Some(d)) if d == Duration::from_nanos(w) => (),
                            _ => return Err(format!("step {i}: announced {told:?}, expected {w} ns")),
                        }
                    }
                    (None, None) => {
                        if told != Some(None) {
                            return Err(format!("step {i}: empty queue announced {told:?}"));
                        }
                    }
                    (Some(g), Some(w)) => return Err(format!("step {i}: released {g} while {w} ns remain")),
                    (Some(g), None) => return Err(format!("step {i}: empty queue released {g}")),
                    (None, _) => return Err(format!("step {i}: withheld a message, announcing {told:?}, though one is due")),
                }
            }
            Wait(n) => adv = m.wait().saturating_sub(*n),
            Adv(n) => adv = *n,
            Limit(d, b) => {
                q.set_rate_limit(Duration::from_nanos(*d), *b);
                m.delay = *d;
                m.burst = *b as u64;
                m.debt = m.delay * (m.burst + 1);
                rel.clear();
                since = vclock::now_ns();
                fresh = false;
            }
            Clear => {
                q.clear();
                sent = next;
                m.len = 0;
            }
            Reset => {
                q.reset();
                sent = next;
                m.len = 0;
                m.debt = 0;
                rel.clear();
                fresh = true;
            }
        }
        if adv > 0 {
            vclock::advance_ns(adv);
            m.debt = m.debt.saturating_sub(adv);
        }
        st.state(&m);
        if q.len() as u64 != m.len || q.is_empty() != (m.len == 0) {
            return Err(format!("step {i}: queue holds {} messages, expected {}", q.len(), m.len));
        }
    }
    Ok(())
}

/// Huge settings must neither panic nor let messages through.
fn huge(d: Duration, b: u32, st: &mut Stats) -> R {
    vclock::on();
    let r = (|| {
        let mut q = Queue::new();
        for _ in 0..3 {
            q.edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
        }
        q.set_rate_limit(d, b);
        st.nontrivial();
        let mut out = 0;
        for _ in 0..4 {
            vclock::advance_ns(1_000_000 * S); // Eleven days.
            for _ in 0..4 {
                st.step();
                let mut told = None;
                if q.pop(|d| told = Some(d)).is_some() {
                    out += 1;
                } else if told == Some(Some(Duration::ZERO)) {
                    return Err("announced a zero delay".into());
                }
            }
        }
        if out > 0 {
            return Err(format!("{out} messages released within 44 days although the delay is {d:?}"));
        }
        q.reset();
        q.edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
        if q.pop(|_| ()).is_none() {
            return Err("no message after a reset".into());
        }
        q.edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
        if q.pop(|_| ()).is_some() != (b > 0) {
            return Err("burst after a reset differs".into());
        }
        Ok(())
    })();
    vclock::off();
    r
}

/// Large bursts: exactly `b + 1` messages at once, then one per delay.
fn large(d: u64, b: u32, st: &mut Stats) -> R {
    vclock::on();
    let r = (|| {
        let mut q = Queue::new();
        q.set_rate_limit(Duration::from_nanos(d), b);
        let total = b as usize + 4;
        q.extend((0..total).map(|_| ClientMsg::new_cmd(Cmd::from_str("A"))));
        // Nothing before one delay has passed, and then one message for each.
        for k in 0..3u64 {
            let mut told = None;
            if q.pop(|d| told = Some(d)).is_some() || told != Some(Some(Duration::from_nanos(d))) {
                return Err(format!("after the change, message {k} is announced {told:?}, expected {d} ns"));
            }
            vclock::advance_ns(d);
            if q.pop(|_| ()).is_none() {
                return Err(format!("message {k} after the change is withheld"));
            }
            st.step();
        }
        vclock::advance_ns(d * (b as u64 + 5));
        q.extend((0..3).map(|_| ClientMsg::new_cmd(Cmd::from_str("A"))));
        for k in 0..=b {
            if q.pop(|_| ()).is_none() {
                return Err(format!("message {k} of a burst of {} withheld", b as u64 + 1));
            }
            st.step();
        }
        let mut told = None;
        if q.pop(|d| told = Some(d)).is_some() || told != Some(Some(Duration::from_nanos(d))) {
            return Err(format!("after the burst: announced {told:?}, expected {d} ns"));
        }
        st.nontrivial();
        Ok(())
    })();
    vclock::off();
    r
}

pub fn run(ctx: &mut Ctx) {
    let ops = [Push, Pop, Burst, Wait(0), Wait(1), Adv(S / 2), Adv(7 * S), Limit(2 * S, 4), Limit(S, 0), Limit(0, 3), Limit(3 * S, 1), Clear, Reset];
    let n = ctx.pick(5, 6);
    ctx.section("histories", &format!("every sequence of up to {n} of {} operations", ops.len()));
    seqs(ops.len(), 0, n, |ix| {
        let o: Vec<Op> = ix.iter().map(|i| ops[*i]).collect();
        ctx.case(|| format!("{o:?}"), |st| seq(&o, st));
    });
    let few = [Pop, Wait(0), Wait(1), Adv(S), Adv(5 * S)];
    let n = ctx.pick(7, 9);
    ctx.section("draining", &format!("a full queue under 7 limits, then every sequence of {n} of {few:?} after a burst of 0, 3 or 6 pops"));
    for l in [None, Some(Limit(2 * S, 4)), Some(Limit(S, 0)), Some(Limit(S, 1)), Some(Limit(0, 0)), Some(Limit(1, 2)), Some(Limit(3 * S, 9))] {
        for pops in [0, 3, 6] {
            seqs(few.len(), n, n, |ix| {
                let mut o: Vec<Op> = vec![Burst, Burst, Burst];
                o.extend(l);
                if l.is_some() {
                    o.push(Adv(100 * S));
                }
                o.extend(vec![Pop; pops]);
                o.extend(ix.iter().map(|i| few[*i]));
                ctx.case(|| format!("{o:?}"), |st| seq(&o, st));
            });
        }
    }
    ctx.section("settings", "every delay from a grid x burst 0..=20: greedy draining of 21 messages at the announced times");
    for d in [0, 1, 999, 1_000_000, S / 3, S, 2 * S + 1, 60 * S, 3600 * S] {
        for b in 0..=20u32 {
            for idle in [0, 1, d, d * 3, d * (b as u64 + 1), d * 40] {
                let mut o = vec![Burst, Burst, Burst, Limit(d, b), Adv(idle)];
                for _ in 0..25 {
                    o.extend([Pop, Pop, Wait(1), Pop, Wait(0), Pop]);
                }
                ctx.case(|| format!("delay {d} burst {b} idle {idle}"), |st| seq(&o, st));
            }
        }
    }
    ctx.section("large bursts", "bursts around powers of two to 2^17: exactly that many messages at once after a long pause");
    for b in [31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 199, 254, 255, 256, 257, 300, 511, 512, 999, 1000, 1023, 1024, 1025, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072] {
        for d in [1, 1000, S / 10, 2 * S] {
            ctx.case(|| format!("delay {d} burst {b}"), |st| large(d, b, st));
        }
    }
    ctx.section("huge", "delays near and beyond what an instant can represent");
    for d in [Duration::from_secs(1 << 33), Duration::from_secs(u64::MAX >> 1), Duration::from_secs(u64::MAX >> 2), Duration::MAX] {
        for b in [0, 1, 4, u32::MAX] {
            ctx.case(|| format!("{d:?} burst {b}"), |st| huge(d, b, st));
        }
    }
}
