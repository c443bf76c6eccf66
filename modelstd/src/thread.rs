pub use ::std::thread::*;
use crate::rt;

const MAGIC: u64 = 0x7EAD_0F7E_AD0F_7EAD;

/// A thread handle whose every use is checked for liveness.
#[derive(Debug)]
pub struct Thread {
    magic: u64,
    tid: usize,
    key: usize,
}

impl Thread {
    fn make(tid: usize) -> Self {
        Thread { magic: MAGIC, tid, key: rt::handle_new() }
    }
    /// The handle of a given model thread.
    pub fn of(tid: usize) -> Self {
        Self::make(tid)
    }
    fn used(&self, what: &str) {
        // The memory behind a dangling reference holds anything: read it bit by bit.
        let m = unsafe { ::std::ptr::read_volatile(&self.magic) };
        rt::touch(&self.magic as *const u64 as usize, what);
        if m != MAGIC {
            rt::violate(format!("{what}: use of a dead thread handle"));
        }
        rt::handle_use(self.key, what);
    }
    pub fn unpark(&self) {
        self.used("Thread::unpark");
        rt::unpark(self.tid);
        self.used("Thread::unpark");
    }
    pub fn name(&self) -> Option<&str> {
        self.used("Thread::name");
        None
    }
    pub fn id(&self) -> usize {
        self.used("Thread::id");
        self.tid
    }
}
impl Clone for Thread {
    fn clone(&self) -> Self {
        rt::sp();
        self.used("Thread::clone");
        Self::make(self.tid)
    }
}
impl Drop for Thread {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            rt::violate("drop of a dead thread handle".into());
        }
        rt::handle_drop(self.key, "thread handle");
        unsafe { ::std::ptr::write_volatile(&mut self.magic, 0xDEAD) };
    }
}

pub fn current() -> Thread {
    Thread::make(if rt::active() { rt::me() } else { 0 })
}
pub fn park() {
    rt::park()
}
pub fn park_timeout(_: ::std::time::Duration) {
    rt::park_timeout()
}
pub fn sleep(_: ::std::time::Duration) {
    rt::yield_()
}
pub fn yield_now() {
    rt::yield_()
}
