//! C14: queued messages are sent once, in order, adjusted and labelled.
use crate::engine::*;
use crate::vclock;
use std::collections::{HashSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::queue::*;
use vinezombie::client::ClientMsgSink;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::*;

pub const META: Meta = Meta {
    id: "C14",
    rule: "every sequence of queue operations (pushes by every route, nested edit guards, guard and queue clears, pops, adjusting messages, installing and removing adjusters and labellers, resets) up to the bound against a list model that also predicts every adjuster call; non-trivial: at least two messages were queued",
    assumptions: &["the rate limit is disabled here (C13 covers it)"],
};

type Log = Arc<Mutex<Vec<String>>>;
/// Records its calls. Kind 0 drops messages whose number is even; 1 marks messages; 2 never adjusts;
/// 3 adjusts every second time and drops the first message it sees each time.
struct Adj {
    kind: u8,
    log: Log,
    count: u32,
    seen: u32,
}
fn decide(kind: u8, count: u32) -> bool {
    match kind {
        2 => false,
        3 => count % 2 == 1,
        _ => true,
    }
}
impl Adjuster for Adj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        self.log.lock().unwrap().push(format!("should{} {}", self.kind, msg.kind.as_str()));
        self.count += 1;
        self.seen = 0;
        decide(self.kind, self.count)
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let n = num(msg);
        self.log.lock().unwrap().push(format!("update{} {n}", self.kind));
        self.seen += 1;
        match self.kind {
            0 => n % 2 == 1,
            1 => {
                msg.args.edit().add_word(Arg::from_str("m"));
                true
            }
            _ => self.seen > 1,
        }
    }
    fn reset(&mut self) {
        self.log.lock().unwrap().push(format!("reset{}", self.kind));
        self.count = 0;
    }
}
fn num(m: &ClientMsg<'_>) -> u32 {
    m.args.words()[0].to_string().parse().unwrap()
}
#[derive(Clone, Hash, PartialEq)]
struct MM {
    n: u32,
    marks: u32,
    label: Option<Vec<u8>>,
}
#[derive(Clone, Default, Hash)]
struct ModelAdj {
    kind: u8,
    count: u32,
}
const OPS: usize = 20;
fn name(op: usize) -> &'static str {
    ["push", "push_labeled", "extend", "nested guards", "guard clear", "sink", "pop", "pop all", "adjust A", "adjust B", "adjuster drop", "adjuster mark", "adjuster multi", "adjuster multi 2", "no adjuster", "default labeller", "own labeller", "no labeller", "clear", "reset"][op]
}

fn seq(ops: &[usize], start: usize, st: &mut Stats) -> R {
    let log: Log = Log::default();
    let mut next = 0u32;
    let mut mk = || {
        let mut c = ClientMsg::new_cmd(Cmd::from_str("A"));
        c.args.edit().add_word(Arg::from_bytes(next.to_string()).unwrap());
        next += 1;
        (c, next - 1)
    };
    let mut m: VecDeque<MM> = VecDeque::new();
    let init: Vec<ClientMsg<'static>> = (0..2 * (start > 0) as u32)
        .map(|_| {
            let (c, n) = mk();
            m.push_back(MM { n, marks: 0, label: None });
            c
        })
        .collect();
    let mut q = match start {
        0 => Queue::new(),
        1 => init.into(),
        2 => VecDeque::from(init).into(),
        _ => init.into_iter().collect(),
    };
    q.set_rate_limit(Duration::ZERO, 0);
    let mut adj: Option<Vec<ModelAdj>> = None;
    let mut multi = false;
    let mut labeller = 0u8;
    let mut own = Arc::new(Mutex::new(0u32));
    let mut used: HashSet<Vec<u8>> = HashSet::new();
    let mut want_log: Vec<String> = Vec::new();
    let check_pop = |g: Option<ClientMsg<'static>>, w: Option<MM>| -> R {
        match (g, w) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) => {
                let marks = g.args.words().iter().filter(|a| *a == "m").count() as u32;
                let label = g.tags.get("label").map(|l| l.to_vec());
                if num(&g) != w.n || marks != w.marks || label != w.label || g.args.len() != 1 + marks as usize || g.tags.len() != label.is_some() as usize {
                    return Err(format!("popped {g}, expected number {} with {} marks and label {:?}", w.n, w.marks, w.label.map(|l| show(&l))));
                }
                Ok(())
            }
            (g, w) => Err(format!("popped {:?}, expected {:?}", g.map(|g| g.to_string()), w.map(|w| w.n))),
        }
    };
    for (i, op) in ops.iter().enumerate() {
        let e = |s: String| format!("step {i} ({}): {s}", name(*op));
        st.step();
        macro_rules! label {
            ($g:expr) => {{
                let (c, n) = mk();
                let l = $g.push_labeled(c);
                let want = labeller != 0;
                match &l {
                    None if !want => (),
                    Some(l) if want => {
                        if !used.insert(l.to_vec()) {
                            return Err(e(format!("label {} used twice", show(l))));
                        }
                        if l.is_empty() {
                            return Err(e("empty label".into()));
                        }
                        if labeller == 2 && l.as_bytes() != format!("own{}", own.lock().unwrap()).as_bytes() {
                            return Err(e(format!("label {} is not the labeller's", show(l))));
                        }
                    }
                    _ => return Err(e(format!("label is {l:?}"))),
                }
                m.push_back(MM { n, marks: 0, label: l.map(|l| l.to_vec()) });
            }};
        }
        macro_rules! push {
            ($g:expr) => {{
                let (c, n) = mk();
                $g.push(c);
                m.push_back(MM { n, marks: 0, label: None });
            }};
        }
        match op {
            0 => push!(q.edit()),
            1 => label!(q.edit()),
            2 => {
                let mut v = Vec::new();
                for _ in 0..2 {
                    let (c, n) = mk();
                    v.push(c);
                    m.push_back(MM { n, marks: 0, label: None });
                }
                q.extend(v);
            }
            3 => {
                let mut g = q.edit();
                push!(g);
                {
                    let mut h = g.edit();
                    if !h.is_empty() || h.len() != 0 || h.is_using_labeler() != (labeller != 0) {
                        return Err(e("nested guard starts wrong".into()));
                    }
                    push!(h);
                    label!(h);
                    if h.len() != 2 || h.is_empty() {
                        return Err(e(format!("nested guard counts {}", h.len())));
                    }
                    h.clear();
                    m.truncate(m.len() - 2);
                    push!(h);
                    if h.len() != 1 {
                        return Err(e(format!("nested guard counts {} after clear", h.len())));
                    }
                }
                if g.len() != 2 || g.is_empty() {
                    return Err(e(format!("guard counts {}", g.len())));
                }
                push!(g);
            }
            4 => {
                let mut g = q.edit();
                push!(g);
                push!(g);
                g.clear();
                m.truncate(m.len() - 2);
                if g.len() != 0 || !g.is_empty() {
                    return Err(e("guard not empty after clear".into()));
                }
            }
            5 => {
                let mut g = q.edit();
                let (c, n) = mk();
                (&mut g).send(c);
                m.push_back(MM { n, marks: 0, label: None });
                let mut s = &mut g;
                let (c, n) = mk();
                s.borrow_mut().send(c);
                m.push_back(MM { n, marks: 0, label: None });
            }
            6 => check_pop(q.pop(|_| ()), m.pop_front()).map_err(e)?,
            7 => loop {
                let w = m.pop_front();
                let end = w.is_none();
                check_pop(q.pop(|_| ()), w).map_err(e)?;
                if end {
                    break;
                }
            },
            8 | 9 => {
                let kind = if *op == 8 { "NICK" } else { "001" };
                q.adjust(&ServerMsg::parse(format!(":a {kind} b")).unwrap());
                if let Some(l) = adj.as_mut() {
                    let mut act = Vec::new();
                    for a in l.iter_mut() {
                        want_log.push(format!("should{} {kind}", a.kind));
                        a.count += 1;
                        act.push(decide(a.kind, a.count));
                    }
                    if act.iter().any(|a| *a) {
                        let mut seen = vec![0; l.len()];
                        let mut keep = VecDeque::new();
                        for mut x in std::mem::take(&mut m) {
                            let mut ok = true;
                            for (k, a) in l.iter().enumerate() {
                                if !act[k] {
                                    continue;
                                }
                                want_log.push(format!("update{} {}", a.kind, x.n));
                                seen[k] += 1;
                                ok &= match a.kind {
                                    0 => x.n % 2 == 1,
                                    1 => {
                                        x.marks += 1;
                                        true
                                    }
                                    _ => seen[k] > 1,
                                };
                            }
                            if ok {
                                keep.push_back(x);
                            }
                        }
                        m = keep;
                    }
                }
            }
            10 | 11 => {
                let kind = *op as u8 - 10;
                q.use_adjuster(Adj { kind, log: log.clone(), count: 0, seen: 0 });
                adj = Some(vec![ModelAdj { kind, count: 0 }]);
                multi = false;
            }
            12 | 13 => {
                let kinds: &[u8] = if *op == 12 { &[1, 2, 0] } else { &[3, 1, 2] };
                let mk = |k: &u8| Adj { kind: *k, log: log.clone(), count: 0, seen: 0 };
                let ma = if *op == 12 {
                    let mut ma = MultiAdjuster::new();
                    if !ma.is_empty() || ma.len() != 0 {
                        return Err(e("new MultiAdjuster is not empty".into()));
                    }
                    for k in kinds {
                        ma.add(mk(k));
                    }
                    ma
                } else {
                    kinds.iter().map(|k| Box::new(mk(k)) as Box<dyn Adjuster>).collect()
                };
                if ma.len() != 3 || ma.is_empty() {
                    return Err(e("MultiAdjuster length".into()));
                }
                q.use_adjuster(ma);
                adj = Some(kinds.iter().map(|k| ModelAdj { kind: *k, count: 0 }).collect());
                multi = true;
            }
            14 => {
                q.use_no_adjuster();
                adj = None;
            }
            15 => {
                q.use_labeler_default();
                labeller = 1;
                // A new labeller starts over.
                used.clear();
            }
            16 => {
                own = Arc::new(Mutex::new(0));
                let o = own.clone();
                q.use_labeler(move || {
                    let mut o = o.lock().unwrap();
                    *o += 1;
                    NoNul::from_bytes(format!("own{o}")).unwrap()
                });
                labeller = 2;
                used.clear();
            }
            17 => {
                q.use_no_labeler();
                labeller = 0;
            }
            18 => {
                q.clear();
                m.clear();
            }
            _ => {
                q.reset();
                m.clear();
                labeller = 0;
                if let Some(l) = adj.as_mut() {
                    for a in l {
                        a.count = 0;
                        want_log.push(format!("reset{}", a.kind));
                    }
                }
            }
        }
        if m.len() >= 2 {
            st.nontrivial();
        }
        let _ = multi;
        if ops.len() < 20 {
            st.state(&(m.iter().map(|m| (m.n, m.marks)).collect::<Vec<_>>(), adj.as_ref().map(|a| a.iter().map(|a| (a.kind, a.count)).collect::<Vec<_>>()), labeller));
        }
        if q.len() != m.len() || q.is_empty() != m.is_empty() {
            return Err(e(format!("queue holds {} messages, expected {}", q.len(), m.len())));
        }
        if q.is_using_labeler() != (labeller != 0) {
            return Err(e("is_using_labeler differs".into()));
        }
        if ops.len() < 20 || matches!(op, 8 | 9 | 19) {
            let got = log.lock().unwrap();
            if *got != want_log {
                return Err(e(format!("adjuster calls {got:?}, expected {want_log:?}")));
            }
        }
    }
    // Whatever is left comes out in order.
    while !m.is_empty() {
        check_pop(q.pop(|_| ()), m.pop_front()).map_err(|e| format!("at the end: {e}"))?;
    }
    check_pop(q.pop(|_| ()), None).map_err(|e| format!("at the end: {e}"))
}

/// Counts its calls; drops messages of one number.
struct Cnt {
    id: usize,
    drop: Option<u32>,
    log: Arc<Mutex<Vec<(usize, u32)>>>,
}
impl Adjuster for Cnt {
    fn should_adjust(&mut self, _: &ServerMsg<'_>) -> bool {
        self.log.lock().unwrap().push((self.id, u32::MAX));
        self.id % 3 != 1
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let n = num(msg);
        self.log.lock().unwrap().push((self.id, n));
        self.drop != Some(n)
    }
    fn reset(&mut self) {
        self.log.lock().unwrap().push((self.id, u32::MAX - 1));
    }
}
fn crowd(n: usize, how: usize, keep: usize, st: &mut Stats) -> R {
    let log = Arc::default();
    let mk = |id: usize| Cnt { id, drop: (keep > 0 && id % keep == 0 && id % 3 != 1).then_some(id as u32 % 7), log: Arc::clone(&log) };
    let mut q = Queue::new();
    q.set_rate_limit(Duration::ZERO, 0);
    let mut ma = MultiAdjuster::new();
    match how {
        0 => (0..n).for_each(|i| ma.add(mk(i))),
        1 => ma = (0..n).map(|i| Box::new(mk(i)) as Box<dyn Adjuster>).collect(),
        2 => {
            // Two nested groups.
            for r in [0..n / 2, n / 2..n] {
                let mut g = MultiAdjuster::new();
                r.for_each(|i| g.add(mk(i)));
                ma.add(g);
            }
        }
        _ => {
            // Groups within groups.
            for i in (0..n).rev() {
                let mut g = MultiAdjuster::new();
                g.add(mk(i));
                if !ma.is_empty() {
                    g.add(ma);
                }
                ma = g;
            }
        }
    }
    q.use_adjuster(ma);
    let mut want: VecDeque<u32> = (0..10).collect();
    q.extend((0..10u32).map(|i| {
        let mut c = ClientMsg::new_cmd(Cmd::from_str("A"));
        c.args.edit().add_word(Arg::from_bytes(i.to_string()).unwrap());
        c
    }));
    for round in 0..2 {
        log.lock().unwrap().clear();
        q.adjust(&ServerMsg::parse(":a NICK b".to_string()).unwrap());
        let got = std::mem::take(&mut *log.lock().unwrap());
        st.steps(got.len() as u64);
        for id in 0..n {
            let mine: Vec<u32> = got.iter().filter(|c| c.0 == id).map(|c| c.1).collect();
            let mut w = vec![u32::MAX];
            if id % 3 != 1 {
                w.extend(&want);
            }
            if mine != w {
                return Err(format!("round {round}: adjuster {id} was called with {mine:?}, expected {w:?}"));
            }
        }
        want.retain(|x| !(0..n).any(|id| mk(id).drop == Some(*x)));
        if q.len() != want.len() {
            return Err(format!("round {round}: {} messages left, expected {want:?}", q.len()));
        }
    }
    let mut left = Vec::new();
    while let Some(m) = q.pop(|_| ()) {
        left.push(num(&m));
    }
    if want != left {
        return Err(format!("left {left:?}, expected {want:?}"));
    }
    log.lock().unwrap().clear();
    q.reset();
    let mut got = std::mem::take(&mut *log.lock().unwrap());
    got.sort();
    if got != (0..n).map(|id| (id, u32::MAX - 1)).collect::<Vec<_>>() {
        return Err(format!("reset calls {got:?}"));
    }
    st.nontrivial();
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let n = ctx.pick(4, 5);
    ctx.section("histories", &format!("4 ways of creating the queue x every sequence of up to {n} of {OPS} operations"));
    for start in 0..4 {
        seqs(OPS, 0, if start == 0 { n } else { n - 1 }, |ix| {
            ctx.case(|| format!("start {start} {:?}", ix.iter().map(|i| name(*i)).collect::<Vec<_>>()), |st| seq(ix, start, st));
        });
    }
    let core = [0, 1, 6, 8, 10, 11, 12, 13, 19];
    let n = ctx.pick(6, 7);
    ctx.section("adjusting", &format!("every sequence of {n} of the 9 core operations"));
    seqs(core.len(), n, n, |ix| {
        let o: Vec<usize> = ix.iter().map(|i| core[*i]).collect();
        ctx.case(|| format!("{:?}", o.iter().map(|i| name(*i)).collect::<Vec<_>>()), |st| seq(&o, 0, st));
    });
    let top = ctx.pick(140_000u32, 5_000_000);
    ctx.section("labels", &format!("{top} labels of the default labeller"));
    ctx.case(|| "labels".into(), |st| {
        let mut q = Queue::new();
        q.use_labeler_default();
        let mut seen = HashSet::new();
        for i in 0..top {
            let l = q.edit().push_labeled(ClientMsg::new_cmd(Cmd::from_str("A"))).ok_or("no label")?;
            st.step();
            if i % 1000 == 999 {
                q.clear();
            }
            if l.is_empty() || !seen.insert(l.to_vec()) {
                return Err(format!("label {i} is {} again", show(&l)));
            }
        }
        st.nontrivial();
        Ok(())
    });
    let top = ctx.pick(100usize, 400);
    ctx.section("long", &format!("queues filled by 1 to {top} operations of each kind under every adjuster and labeller, adjusted, partly drained, adjusted and drained or reset"));
    for n in (1..=top).filter(|n| top > 100 || *n <= 20 || n % 9 == 0 || [31, 32, 33, 63, 64, 65, 66, 100].contains(n)).chain([127, 128, 129, 255, 256, 257, 300]) {
        for push in [0, 1, 2, 3, 5] {
            for adj in [14, 10, 11, 12, 13] {
                for lab in [17, 15, 16] {
                    for (k, last) in [(n / 2, 7), (1, 19), (0, 6), (n, 18)] {
                        let mut o = vec![adj, lab];
                        o.extend(std::iter::repeat(push).take(n));
                        o.push(8);
                        o.extend(std::iter::repeat(6).take(k));
                        o.extend([push, 9, last, 1, 8]);
                        ctx.case(|| format!("{n} x {} with {} and {}, {k} pops, {}", name(push), name(adj), name(lab), name(last)), |st| seq(&o, 0, st));
                    }
                }
            }
        }
    }
    ctx.section("adjusters", "1 to 130 adjusters combined, added singly, in nested groups or collected: each is asked once per message and sees every queued message once");
    for n in 1..=130usize {
        for how in 0..4 {
            for keep in [0usize, 1, 2, 5] {
                ctx.case(|| format!("{n} adjusters, way {how}, every {keep} drops"), |st| crowd(n, how, keep, st));
            }
        }
    }
    let _ = vclock::now_ms;
}
