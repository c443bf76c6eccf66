//! Payload tokens: created once, visible only after synchronisation, dropped exactly once.
use modelstd::rt::{self, Clock};

const MAGIC: u64 = 0x70C3_70C3_70C3_0001;
struct Rec {
    live: bool,
    tid: usize,
    clk: Clock,
}
static mut REG: Vec<Rec> = Vec::new();
#[allow(static_mut_refs)]
fn reg() -> &'static mut Vec<Rec> {
    unsafe { &mut REG }
}
pub fn reset() {
    reg().clear();
}
#[derive(Debug)]
pub struct Tok {
    magic: u64,
    id: usize,
    heap: Box<u64>,
}
impl Tok {
    pub fn new() -> Tok {
        let id = rt::quiet(|| {
            let clk = rt::now();
            reg().push(Rec { live: true, tid: rt::me(), clk });
            reg().len() - 1
        });
        Tok { magic: MAGIC, id, heap: Box::new(id as u64 + 1000) }
    }
    /// Reads the token, checking that it is a live, fully visible one.
    pub fn id(&self) -> usize {
        self.verify("read");
        self.id
    }
    fn verify(&self, what: &str) {
        let (m, id) = unsafe { (std::ptr::read_volatile(&self.magic), std::ptr::read_volatile(&self.id)) };
        rt::check(m == MAGIC && id < reg().len(), || format!("{what} of a value that was never written or already dropped"));
        let r = &reg()[id];
        rt::check(r.live, || format!("{what} of value {id} after it was dropped"));
        rt::check(rt::hb(r.tid, &r.clk), || format!("{what} of value {id} races with its creation"));
        let p: *const u64 = &*self.heap;
        rt::read(p as usize, "value");
        rt::check(*self.heap == id as u64 + 1000, || format!("{what} of value {id}: corrupted"));
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.verify("drop");
        reg()[self.id].live = false;
        self.magic = 0;
    }
}
/// All tokens are gone.
pub fn check_end() {
    for (i, r) in reg().iter().enumerate() {
        rt::check(!r.live, || format!("value {i} was never dropped"));
    }
}
