//! Exhaustive-enumeration engine: numbered cases, process sharding, crash/hang supervision,
//! evidence and replay files.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Shared page between supervisor and a shard.
#[repr(C)]
pub struct Slot {
    pub index: AtomicU64,
    pub done: AtomicU64,
    pub fault: AtomicU64,
    pub fault_len: AtomicU64,
    pub fault_msg: [u8; 512],
}

pub static mut SLOT: *mut Slot = std::ptr::null_mut();

/// Records a fatal fault (called from the allocator: must not allocate).
pub fn fault(msg: &str) -> ! {
    unsafe {
        if !SLOT.is_null() {
            let s = &mut *SLOT;
            let n = msg.len().min(512);
            std::ptr::copy_nonoverlapping(msg.as_ptr(), s.fault_msg.as_mut_ptr(), n);
            s.fault_len.store(n as u64, Ordering::SeqCst);
            s.fault.store(1, Ordering::SeqCst);
        }
        libc::abort();
    }
}

#[derive(Default, Clone)]
pub struct Section {
    pub cases: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub outcomes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub note: String,
    pub capped: bool,
}

/// Statistics handle given to each case.
pub struct Stats<'a> {
    sec: &'a mut Section,
    nontrivial: bool,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    // Fixed-key SipHash: deterministic across runs.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

const SET_CAP: usize = 400_000;

impl Stats<'_> {
    /// One step (transition) of the implementation was executed and compared.
    pub fn step(&mut self) {
        self.sec.steps += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.sec.steps += n;
    }
    /// A reference-model state was visited.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.sec.states.len() < SET_CAP {
            let h = h64(t);
            crate::alloc::untracked(|| self.sec.states.insert(h));
        }
    }
    /// Observable outcome of this case.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.sec.outcomes.len() < SET_CAP {
            let h = h64(t);
            crate::alloc::untracked(|| self.sec.outcomes.insert(h));
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type R = Result<(), String>;

pub struct Ctx {
    pub tier: Tier,
    /// 0: base bounds, 1: deep bounds, 2: deeper still.
    level: u8,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<u64>,
    idx: u64,
    cur: String,
    pub sections: BTreeMap<String, Section>,
    order: Vec<String>,
    pub violation: Option<(u64, String, String)>,
    pub known_hits: BTreeMap<String, u64>,
    known: Vec<(String, String)>,
    deadline: std::time::Instant,
    capped: bool,
    probe: u64,
}

/// Raised (by panic payload) to leave the enumeration early.
struct Stop;

fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let m = if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    };
    format!("panic: {m} at {loc}")
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Properties cheap enough for the deep bounds in every run; their thorough tier goes deeper still.
const PROMOTED: &[&str] = &["C01", "C02", "C03", "C04", "C10", "C17", "C18", "C20", "C21", "C22", "C25", "C26", "C27", "C30", "C31"];

/// A bound, and the next larger one (depths by one, lengths by half).
pub trait Bound {
    fn deeper(self) -> Self;
}
macro_rules! bound {
    ($($t:ty)*) => { $(impl Bound for $t {
        fn deeper(self) -> Self {
            if self < 20 { self + 1 } else { self + self / 2 }
        }
    })* };
}
bound!(i32 u32 u64 usize);
impl<A: Bound, B: Bound> Bound for (A, B) {
    fn deeper(self) -> Self {
        (self.0.deeper(), self.1.deeper())
    }
}
impl<A> Bound for Vec<A> {
    fn deeper(self) -> Self {
        self
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.level > 0
    }
    pub fn pick<T: Bound>(&self, q: T, t: T) -> T {
        match self.level {
            0 => q,
            1 => t,
            _ => t.deeper(),
        }
    }
    pub fn section(&mut self, name: &str, note: &str) {
        self.cur = name.to_string();
        if !self.sections.contains_key(name) {
            self.order.push(name.to_string());
        }
        let s = self.sections.entry(name.to_string()).or_default();
        s.note = note.to_string();
    }
    /// True if this shard would execute the next case.
    #[inline]
    fn mine(&self) -> bool {
        match self.only {
            Some(i) => i == self.idx,
            None => self.idx % self.nshards == self.shard,
        }
    }
    /// Runs one numbered case.
    ///
    /// An error string may start with "key=<word> " to identify a violation class for the
    /// known-findings file.
    pub fn case(&mut self, desc: impl Fn() -> String, body: impl FnOnce(&mut Stats) -> R) {
        if !self.mine() {
            self.idx += 1;
            return;
        }
        let idx = self.idx;
        self.idx += 1;
        unsafe {
            if !SLOT.is_null() {
                (*SLOT).index.store(idx + 1, Ordering::Relaxed);
            }
        }
        self.probe += 1;
        if self.probe & 0x3f == 0 && self.only.is_none() && real_now() > self.deadline {
            self.capped = true;
            self.sections.get_mut(&self.cur).unwrap().capped = true;
            std::panic::resume_unwind(Box::new(Stop));
        }
        if self.only.is_some() {
            println!("CASE {idx} [{}] {}", self.cur, desc());
            let _ = std::io::stdout().flush();
        }
        let sec = self.sections.get_mut(&self.cur).expect("section");
        sec.cases += 1;
        let mut st = Stats { sec, nontrivial: false };
        let res = catch_unwind(AssertUnwindSafe(|| body(&mut st)));
        let nt = st.nontrivial;
        crate::vclock::off();
        crate::alloc::end_case();
        let sec = self.sections.get_mut(&self.cur).unwrap();
        if nt {
            sec.nontrivial += 1;
            if sec.samples.len() < 2 && (sec.nontrivial == 1 || sec.nontrivial.is_power_of_two()) && sec.nontrivial >= 8 {
                let d = desc();
                sec.samples.push(d.chars().take(300).collect());
            }
        } else if sec.samples.is_empty() && sec.cases > 64 {
            let d = desc();
            sec.samples.push(d.chars().take(300).collect());
        }
        let err = match res {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                if p.is::<Stop>() {
                    std::panic::resume_unwind(p);
                }
                panic_msg(p)
            }
        };
        let d = desc();
        if let Some((k, _)) = self.known.iter().find(|(k, _)| {
            err.starts_with(&format!("key={k} "))
        }) {
            *self.known_hits.entry(k.clone()).or_default() += 1;
            return;
        }
        self.violation = Some((idx, format!("[{}] {d}", self.cur), err));
        std::panic::resume_unwind(Box::new(Stop));
    }
}

/// Formats bytes readably.
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    if b.len() > 120 {
        s.push_str(&b[..60].escape_ascii().to_string());
        s.push_str(&format!("...[{} bytes]", b.len()));
    } else {
        s.push_str(&b.escape_ascii().to_string());
    }
    s.push('"');
    s
}

/// All words over `alpha` with min <= length <= max, shortest first.
pub fn words(alpha: &[u8], min: usize, max: usize, mut f: impl FnMut(&[u8])) {
    for len in min..=max {
        let mut ix = vec![0usize; len];
        let mut w: Vec<u8> = vec![alpha[0]; len];
        loop {
            f(&w);
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                ix[i] += 1;
                if ix[i] < alpha.len() {
                    w[i] = alpha[ix[i]];
                    break;
                }
                ix[i] = 0;
                w[i] = alpha[0];
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if len == 0 || i == usize::MAX {
                break;
            }
        }
    }
}

/// All index sequences over 0..k with length min..=max.
pub fn seqs(k: usize, min: usize, max: usize, mut f: impl FnMut(&[usize])) {
    for len in min..=max {
        let mut ix = vec![0usize; len];
        loop {
            f(&ix);
            let mut i = len;
            let mut end = len == 0;
            while i > 0 {
                i -= 1;
                ix[i] += 1;
                if ix[i] < k {
                    break;
                }
                ix[i] = 0;
                if i == 0 {
                    end = true;
                }
            }
            if end {
                break;
            }
        }
    }
}

/// Deviation-bounded choice tree: environment answers. Choice 0 is the default and costs nothing;
/// any other choice costs one deviation.
pub struct Choices {
    prefix: Vec<usize>,
    pub taken: Vec<(usize, usize)>, // (choice, arity)
}
impl Choices {
    pub fn new(prefix: &[usize]) -> Self {
        Choices { prefix: prefix.to_vec(), taken: Vec::new() }
    }
    pub fn choose(&mut self, arity: usize) -> usize {
        let i = self.taken.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!(c < arity, "replay divergence: choice {c} of {arity} at {i}");
        self.taken.push((c, arity));
        c
    }
}
/// Enumerates all executions with at most `bound` non-default choices.
/// `run` executes one schedule and returns the choices it took.
pub fn explore(bound: usize, max_points: usize, run: &mut dyn FnMut(&[usize]) -> Vec<(usize, usize)>) {
    fn go(
        prefix: &[usize],
        bound: usize,
        maxp: usize,
        run: &mut dyn FnMut(&[usize]) -> Vec<(usize, usize)>,
    ) {
        let taken = run(prefix);
        let used = prefix.iter().filter(|c| **c != 0).count();
        if used >= bound {
            return;
        }
        for i in prefix.len()..taken.len().min(maxp) {
            for alt in 1..taken[i].1 {
                let mut p: Vec<usize> = taken[..i].iter().map(|t| t.0).collect();
                p.push(alt);
                go(&p, bound, maxp, run);
            }
        }
    }
    go(&[], bound, max_points, run);
}

fn real_now() -> std::time::Instant {
    crate::vclock::with_real(std::time::Instant::now)
}

/// The known-findings of one property: (key, description).
fn load_known(prop: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let path = verif_dir() + "/known-findings.jsonl";
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Ok(j) = serde_json::from_str::<serde_json::Value>(l) {
                if j["status"] == "known" && j["property"] == prop {
                    v.push((
                        j["key"].as_str().unwrap_or("").to_string(),
                        j["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
    }
    v
}

pub fn verif_dir() -> String {
    std::env::var("VZ_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn map_slot(path: &str, create: bool) -> *mut Slot {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .open(path)
        .expect("slot file");
    let len = std::mem::size_of::<Slot>().next_multiple_of(4096);
    if create {
        f.set_len(len as u64).unwrap();
    }
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Slot
    }
}

/// Child entry.
pub fn child(prop: &str, tier: Tier, shard: u64, nshards: u64, only: Option<u64>, slot: Option<String>, out: Option<String>, budget: u64, f: fn(&mut Ctx)) {
    if let Some(s) = &slot {
        unsafe { SLOT = map_slot(s, false) };
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(loc));
    }));
    let mut ctx = Ctx {
        tier,
        level: (tier == Tier::Thorough) as u8 + PROMOTED.contains(&prop) as u8,
        shard,
        nshards,
        only,
        idx: 0,
        cur: String::new(),
        sections: BTreeMap::new(),
        order: Vec::new(),
        violation: None,
        known_hits: BTreeMap::new(),
        known: load_known(prop),
        deadline: real_now() + Duration::from_secs(budget),
        capped: false,
        probe: 0,
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
    let mut engine_error = None;
    if let Err(p) = r {
        if !p.is::<Stop>() {
            engine_error = Some(panic_msg(p));
        }
    }
    if only.is_some() {
        if let Some((i, d, e)) = &ctx.violation {
            println!("VIOLATED case {i}: {d}\n  {e}");
        } else {
            println!("case passed");
        }
    }
    if let Some(out) = out {
        let mut secs = serde_json::Map::new();
        for n in &ctx.order {
            let s = &ctx.sections[n];
            let mut oc: Vec<u64> = s.outcomes.iter().copied().collect();
            oc.truncate(200_000);
            let mut sc: Vec<u64> = s.states.iter().copied().collect();
            sc.truncate(200_000);
            secs.insert(
                n.clone(),
                serde_json::json!({"cases": s.cases, "nontrivial": s.nontrivial, "steps": s.steps,
                "outcomes": oc, "states": sc, "samples": s.samples, "note": s.note, "capped": s.capped}),
            );
        }
        let j = serde_json::json!({
            "sections": secs, "order": ctx.order,
            "violation": ctx.violation.as_ref().map(|(i,d,e)| serde_json::json!({"index": i, "desc": d, "err": e})),
            "known": ctx.known_hits, "capped": ctx.capped, "engine_error": engine_error,
        });
        std::fs::write(&out, serde_json::to_string(&j).unwrap()).expect("write out");
    }
    unsafe {
        if !SLOT.is_null() {
            (*SLOT).done.store(1, Ordering::SeqCst);
        }
    }
    if engine_error.is_some() {
        eprintln!("engine error: {}", engine_error.unwrap());
        std::process::exit(3);
    }
}

fn cpu_secs(pid: u32) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f[11].parse().ok()?;
    let s: f64 = f[12].parse().ok()?;
    Some((u + s) / 100.0)
}

pub struct Meta {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Supervisor entry: returns the exit code.
pub fn supervise(meta: &Meta, tier: Tier) -> i32 {
    let start = std::time::Instant::now();
    let prop = meta.id;
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let budget: u64 = std::env::var("VZ_BUDGET")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 400 } else { 3000 });
    let n: u64 = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8);
    let dir = std::env::temp_dir().join(format!("vzcheck-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().unwrap();
    struct Sh {
        child: std::process::Child,
        slot: *mut Slot,
        out: std::path::PathBuf,
        last_idx: u64,
        last_cpu: f64,
        last_wall: std::time::Instant,
        fin: Option<Option<std::process::ExitStatus>>,
        hang: bool,
    }
    let mut shards: Vec<Sh> = (0..n)
        .map(|k| {
            let slot_path = dir.join(format!("slot{k}"));
            let slot = map_slot(slot_path.to_str().unwrap(), true);
            let out = dir.join(format!("out{k}.json"));
            let child = std::process::Command::new(&exe)
                .args(["--child", prop, tier_s, &k.to_string(), &n.to_string()])
                .arg(&slot_path)
                .arg(&out)
                .arg(budget.to_string())
                .stdin(std::process::Stdio::null())
                .spawn()
                .expect("spawn");
            Sh { child, slot, out, last_idx: 0, last_cpu: 0.0, last_wall: start, fin: None, hang: false }
        })
        .collect();
    loop {
        let mut alive = false;
        for s in shards.iter_mut() {
            if s.fin.is_some() {
                continue;
            }
            match s.child.try_wait() {
                Ok(Some(st)) => {
                    s.fin = Some(Some(st));
                    continue;
                }
                Ok(None) => alive = true,
                Err(_) => {
                    s.fin = Some(None);
                    continue;
                }
            }
            let idx = unsafe { (*s.slot).index.load(Ordering::Relaxed) };
            let cpu = cpu_secs(s.child.id()).unwrap_or(0.0);
            let now = std::time::Instant::now();
            if idx != s.last_idx || idx == 0 {
                s.last_idx = idx;
                s.last_cpu = cpu;
                s.last_wall = now;
            } else if unsafe { (*s.slot).done.load(Ordering::SeqCst) } == 0
                && (cpu - s.last_cpu > 40.0
                    || (now - s.last_wall > Duration::from_secs(150) && cpu - s.last_cpu < 2.0))
            {
                s.hang = true;
                let _ = s.child.kill();
                let _ = s.child.wait();
                s.fin = Some(None);
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // Merge.
    let mut secs: BTreeMap<String, Section> = BTreeMap::new();
    let mut order: Vec<String> = Vec::new();
    let mut viols: Vec<(u64, String, String)> = Vec::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut capped = false;
    let mut engine_error = None;
    for (k, s) in shards.iter().enumerate() {
        let slot = unsafe { &*s.slot };
        let j: Option<serde_json::Value> =
            std::fs::read_to_string(&s.out).ok().and_then(|t| serde_json::from_str(&t).ok());
        match j {
            Some(j) => {
                for name in j["order"].as_array().unwrap() {
                    let name = name.as_str().unwrap().to_string();
                    let x = &j["sections"][&name];
                    if !order.contains(&name) {
                        order.push(name.clone());
                    }
                    let t = secs.entry(name).or_default();
                    t.cases += x["cases"].as_u64().unwrap();
                    t.nontrivial += x["nontrivial"].as_u64().unwrap();
                    t.steps += x["steps"].as_u64().unwrap();
                    t.outcomes.extend(x["outcomes"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()));
                    t.states.extend(x["states"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()));
                    if t.samples.len() < 3 {
                        t.samples.extend(x["samples"].as_array().unwrap().iter().take(1).map(|v| v.as_str().unwrap().to_string()));
                    }
                    t.note = x["note"].as_str().unwrap().to_string();
                    t.capped |= x["capped"].as_bool().unwrap();
                }
                capped |= j["capped"].as_bool().unwrap();
                if let Some(v) = j["violation"].as_object() {
                    viols.push((v["index"].as_u64().unwrap(), v["desc"].as_str().unwrap().into(), v["err"].as_str().unwrap().into()));
                }
                for (kk, c) in j["known"].as_object().unwrap() {
                    *known.entry(kk.clone()).or_default() += c.as_u64().unwrap();
                }
                if let Some(e) = j["engine_error"].as_str() {
                    engine_error = Some(e.to_string());
                }
            }
            None => {
                // The shard died or was killed while executing case index-1.
                let idx = slot.index.load(Ordering::SeqCst);
                if idx == 0 {
                    engine_error = Some(format!("shard {k} died before its first case"));
                    continue;
                }
                let why = if slot.fault.load(Ordering::SeqCst) == 1 {
                    let l = slot.fault_len.load(Ordering::SeqCst) as usize;
                    format!("memory fault: {}", String::from_utf8_lossy(&slot.fault_msg[..l]))
                } else if s.hang {
                    "the case does not terminate (no progress)".to_string()
                } else {
                    format!("the process died: {:?}", s.fin)
                };
                // Ask a fresh child for the description.
                let only = std::process::Command::new(&exe)
                    .args(["--only", prop, tier_s, &(idx - 1).to_string(), "--describe"])
                    .stdin(std::process::Stdio::null())
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::null())
                    .spawn();
                let mut desc = String::new();
                if let Ok(mut c) = only {
                    use std::io::BufRead;
                    let out = c.stdout.take().unwrap();
                    let mut rd = std::io::BufReader::new(out);
                    let mut l = String::new();
                    let _ = rd.read_line(&mut l);
                    desc = l.trim().to_string();
                    let _ = c.kill();
                    let _ = c.wait();
                }
                viols.push((idx - 1, desc, why));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    viols.sort();
    let wall = start.elapsed().as_secs_f64();
    let kf = load_known(prop);
    for (k, w) in &kf {
        if known.contains_key(k) {
            println!("KNOWN-FINDING: property={prop} {w} (key={k}, {} occurrences)", known[k]);
        }
    }
    let evals: u64 = secs.values().map(|s| s.cases).sum();
    let nontriv: u64 = secs.values().map(|s| s.nontrivial).sum();
    let steps: u64 = secs.values().map(|s| s.steps).sum();
    let states: u64 = secs.values().map(|s| s.states.len() as u64).sum();
    let outcomes: u64 = secs.values().map(|s| s.outcomes.len() as u64).sum();
    let mut samples = Vec::new();
    let mut secj = serde_json::Map::new();
    for n in &order {
        let s = &secs[n];
        for x in s.samples.iter().take(2) {
            samples.push(format!("[{n}] {x}"));
        }
        secj.insert(n.clone(), serde_json::json!({"bounds": s.note, "executions": s.cases, "nontrivial": s.nontrivial,
            "steps": s.steps, "distinct_outcomes": s.outcomes.len(), "distinct_model_states": s.states.len(), "capped": s.capped}));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ev = serde_json::json!({
        "property": prop, "tier": tier_s, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": if states > 0 { states } else { outcomes }, "transitions": steps, "traces_validated_against_impl": evals,
            "evaluations": evals, "distinct_nontrivial": nontriv, "distinct_outcomes": outcomes,
            "rule": meta.rule, "samples": samples, "sections": secj,
            "exhaustive": !capped && viols.is_empty() && engine_error.is_none(),
            "time_cap_hit": capped, "known_findings_hit": known,
        },
        "assumptions": meta.assumptions,
        "wall_s": wall, "violations": viols.len(),
    });
    let evp = format!("{}/evidence/{prop}.json", verif_dir());
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    for n in &order {
        let s = &secs[n];
        println!("  {n}: executions={} nontrivial={} steps={} states={} outcomes={}{}", s.cases, s.nontrivial, s.steps, s.states.len(), s.outcomes.len(), if s.capped {" CAPPED"} else {""});
    }
    if let Some((i, d, e)) = viols.first() {
        let rdir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{prop}.json");
        let rj = serde_json::json!({"property": prop, "tier": tier_s, "case": i, "input": d, "observed": e,
            "replay_cmd": format!("bash check.sh {prop} {tier_s} --only {i}")});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rj).unwrap() + "\n");
        println!("violation in case {i}: {d}\n  {e}");
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if let Some(e) = engine_error {
        println!("ENGINE-ERROR {e}");
        return 3;
    }
    println!("OK property={prop} tier={tier_s} executions={evals} nontrivial={nontriv} steps={steps} wall={wall:.1}s{}", if capped {" (time cap hit)"} else {""});
    0
}
