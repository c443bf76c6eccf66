//! A scripted connection on virtual time, for the blocking and the tokio client alike.
use crate::vclock;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{BufRead, Error, ErrorKind, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;
use vinezombie::client::channel::ChannelSpec;
use vinezombie::client::conn::{Bidir, ReadTimeout, WriteTimeout};
use vinezombie::client::Client;

pub const MS: u64 = 1_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Data(Vec<u8>),
    /// Nothing arrives for this many milliseconds.
    Delay(u64),
    Fail(ErrorKind),
    Eof,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Wr {
    /// Accept up to this many bytes.
    Take(usize),
    /// Accept nothing for this many milliseconds.
    Delay(u64),
    Fail(ErrorKind),
}
/// What the connection saw.
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    /// The client tried to read at this time (ms), having written this many bytes.
    Read(u64, usize),
    /// The client wrote these bytes at this time (ms).
    Wrote(u64, Vec<u8>),
    Flushed(u64),
}
#[derive(Default)]
pub struct Net {
    pub input: VecDeque<Ev>,
    /// Consulted for every write; empty means everything is accepted at once.
    pub wplan: VecDeque<Wr>,
    pub out: Vec<u8>,
    pub flushed: usize,
    /// The next flush takes this many milliseconds.
    pub fdelay: u64,
    pub seen: Vec<Seen>,
    pub rto: Option<Duration>,
    pub wto: Option<Duration>,
    /// The client blocked with nothing to wake it.
    pub hung: bool,
    /// Called at each read attempt.
    pub on_read: Option<Box<dyn FnMut(&[u8])>>,
}
pub type Shared = Rc<RefCell<Net>>;
pub struct Rd {
    sh: Shared,
    cur: Vec<u8>,
    pos: usize,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}
pub struct Wt {
    sh: Shared,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}
pub type Conn = Bidir<Rd, Wt>;
pub fn net() -> (Conn, Shared) {
    let sh: Shared = Rc::default();
    (on(&sh), sh)
}
/// Another connection object on the same network script.
pub fn on(sh: &Shared) -> Conn {
    Bidir(Rd { sh: sh.clone(), cur: Vec::new(), pos: 0, sleep: None }, Wt { sh: sh.clone(), sleep: None })
}
fn ms() -> u64 {
    vclock::now_ns() / MS
}
impl Net {
    fn saw_read(&mut self) {
        let n = self.out.len();
        self.seen.push(Seen::Read(ms(), n));
        if let Some(mut f) = self.on_read.take() {
            f(&self.out);
            self.on_read = Some(f);
        }
    }
    fn take(&mut self, b: &[u8], max: usize) -> usize {
        let n = b.len().min(max);
        self.out.extend_from_slice(&b[..n]);
        self.seen.push(Seen::Wrote(ms(), b[..n].to_vec()));
        n
    }
    pub fn feed(&mut self, b: impl AsRef<[u8]>) {
        self.input.push_back(Ev::Data(b.as_ref().to_vec()));
    }
    /// The lines written so far.
    pub fn lines(&self) -> Vec<String> {
        let s = String::from_utf8_lossy(&self.out).to_string();
        let mut v: Vec<String> = s.split("\r\n").map(|s| s.to_string()).collect();
        if v.last().is_some_and(|l| l.is_empty()) {
            v.pop();
        }
        v
    }
}
impl ReadTimeout for Rd {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        if t == Some(Duration::ZERO) {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.sh.borrow_mut().rto = t;
        Ok(())
    }
}
impl WriteTimeout for Wt {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        if t == Some(Duration::ZERO) {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.sh.borrow_mut().wto = t;
        Ok(())
    }
}
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let a = self.fill_buf()?;
        let n = a.len().min(b.len());
        b[..n].copy_from_slice(&a[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Rd {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.pos < self.cur.len() {
            return Ok(&self.cur[self.pos..]);
        }
        let sh = self.sh.clone();
        let mut n = sh.borrow_mut();
        n.saw_read();
        let mut left = n.rto.map(|d| d.as_nanos() as u64);
        loop {
            let wait = match n.input.front().cloned() {
                Some(Ev::Data(d)) => {
                    n.input.pop_front();
                    self.cur = d;
                    self.pos = 0;
                    if self.cur.is_empty() {
                        continue;
                    }
                    break;
                }
                Some(Ev::Fail(k)) => {
                    n.input.pop_front();
                    return Err(k.into());
                }
                Some(Ev::Eof) => {
                    self.cur.clear();
                    self.pos = 0;
                    break;
                }
                Some(Ev::Delay(d)) => Some(d * MS),
                None => None,
            };
            match (wait, left) {
                (None, None) => {
                    n.hung = true;
                    return Err(Error::new(ErrorKind::Other, "HUNG"));
                }
                (Some(w), l) if l.map_or(true, |l| w < l) => {
                    vclock::advance_ns(w);
                    left = l.map(|l| l - w);
                    n.input.pop_front();
                }
                (w, Some(l)) => {
                    vclock::advance_ns(l);
                    if let Some(w) = w {
                        n.input[0] = Ev::Delay((w - l) / MS);
                    }
                    return Err(ErrorKind::WouldBlock.into());
                }
                _ => unreachable!(),
            }
        }
        drop(n);
        Ok(&self.cur[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Write for Wt {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = self.sh.borrow_mut();
        let mut left = n.wto.map(|d| d.as_nanos() as u64);
        loop {
            match n.wplan.front().cloned() {
                None => return Ok(n.take(b, usize::MAX)),
                Some(Wr::Take(m)) => {
                    n.wplan.pop_front();
                    return Ok(n.take(b, m.max(1)));
                }
                Some(Wr::Fail(k)) => {
                    n.wplan.pop_front();
                    return Err(k.into());
                }
                Some(Wr::Delay(d)) => {
                    let w = d * MS;
                    match left {
                        Some(l) if l <= w => {
                            vclock::advance_ns(l);
                            n.wplan[0] = Wr::Delay((w - l) / MS);
                            return Err(ErrorKind::WouldBlock.into());
                        }
                        _ => {
                            vclock::advance_ns(w);
                            left = left.map(|l| l - w);
                            n.wplan.pop_front();
                        }
                    }
                }
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut n = self.sh.borrow_mut();
        let d = std::mem::take(&mut n.fdelay) * MS;
        match n.wto.map(|d| d.as_nanos() as u64) {
            Some(l) if l <= d => {
                vclock::advance_ns(l);
                return Err(ErrorKind::WouldBlock.into());
            }
            _ => vclock::advance_ns(d),
        }
        n.flushed = n.out.len();
        n.seen.push(Seen::Flushed(ms()));
        Ok(())
    }
}

/// Polls `s` if set; otherwise starts a sleep of `d` ms. True when it has elapsed.
fn nap(s: &mut Option<Pin<Box<tokio::time::Sleep>>>, d: u64, cx: &mut Context<'_>) -> bool {
    let sl = s.get_or_insert_with(|| Box::pin(tokio::time::sleep(Duration::from_millis(d))));
    if sl.as_mut().poll(cx).is_ready() {
        *s = None;
        sync_clock();
        true
    } else {
        false
    }
}
impl tokio::io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let this = self.get_mut();
        let n = match tokio::io::AsyncBufRead::poll_fill_buf(Pin::new(&mut *this), cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(a)) => {
                let n = a.len().min(b.remaining());
                b.put_slice(&a[..n]);
                n
            }
        };
        this.pos += n;
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncBufRead for Rd {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.pos < this.cur.len() {
            return Poll::Ready(Ok(&this.cur[this.pos..]));
        }
        let sh = this.sh.clone();
        let mut n = sh.borrow_mut();
        n.saw_read();
        loop {
            match n.input.front().cloned() {
                Some(Ev::Data(d)) => {
                    n.input.pop_front();
                    this.cur = d;
                    this.pos = 0;
                    if !this.cur.is_empty() {
                        break;
                    }
                }
                Some(Ev::Fail(k)) => {
                    n.input.pop_front();
                    return Poll::Ready(Err(k.into()));
                }
                Some(Ev::Eof) => {
                    this.cur.clear();
                    this.pos = 0;
                    break;
                }
                Some(Ev::Delay(d)) => {
                    if !nap(&mut this.sleep, d, cx) {
                        return Poll::Pending;
                    }
                    n.input.pop_front();
                }
                None => return Poll::Pending,
            }
        }
        drop(n);
        Poll::Ready(Ok(&this.cur[this.pos..]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        self.get_mut().pos += n;
    }
}
impl tokio::io::AsyncWrite for Wt {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let this = self.get_mut();
        let sh = this.sh.clone();
        let mut n = sh.borrow_mut();
        loop {
            match n.wplan.front().cloned() {
                None => return Poll::Ready(Ok(n.take(b, usize::MAX))),
                Some(Wr::Take(m)) => {
                    n.wplan.pop_front();
                    return Poll::Ready(Ok(n.take(b, m.max(1))));
                }
                Some(Wr::Fail(k)) => {
                    n.wplan.pop_front();
                    return Poll::Ready(Err(k.into()));
                }
                Some(Wr::Delay(d)) => {
                    if !nap(&mut this.sleep, d, cx) {
                        return Poll::Pending;
                    }
                    n.wplan.pop_front();
                }
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let this = self.get_mut();
        let mut n = this.sh.borrow_mut();
        if n.fdelay > 0 {
            if !nap(&mut this.sleep, n.fdelay, cx) {
                return Poll::Pending;
            }
            n.fdelay = 0;
        }
        n.flushed = n.out.len();
        n.seen.push(Seen::Flushed(ms()));
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime =
        tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    static T0: std::cell::Cell<Option<(tokio::time::Instant, u64)>> = const { std::cell::Cell::new(None) };
}
fn sync_clock() {
    if let Some((t, base)) = T0.with(|t| t.get()) {
        vclock::set_ns(base + (tokio::time::Instant::now() - t).as_nanos() as u64);
    }
}
struct Synced<F>(F);
impl<F: Future> Future for Synced<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        sync_clock();
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
/// Runs a future on paused tokio time, keeping the virtual clock equal to it.
/// None: it was still blocked after a virtual day.
pub fn block<F: Future>(f: F) -> Option<F::Output> {
    RT.with(|rt| {
        rt.block_on(async {
            T0.with(|t| t.set(Some((tokio::time::Instant::now(), vclock::now_ns()))));
            let r = tokio::time::timeout(Duration::from_secs(86400), Synced(f)).await.ok();
            sync_clock();
            T0.with(|t| t.set(None));
            r
        })
    })
}

/// One result of running a client.
#[derive(Clone, Debug, PartialEq)]
pub enum Ran {
    /// Sorted ids that yielded and finished.
    Ids(Vec<usize>, Vec<usize>),
    Timeout,
    Err(ErrorKind),
    Hung,
}
pub fn run<S: ChannelSpec>(c: &mut Client<Conn, S>, sh: &Shared, tokio: bool) -> Ran {
    fn conv(r: std::io::Result<Option<(&[usize], &[usize])>>) -> Ran {
        match r {
            Ok(Some((y, f))) => {
                let (mut y, mut f) = (y.to_vec(), f.to_vec());
                y.sort();
                f.sort();
                Ran::Ids(y, f)
            }
            Ok(None) => Ran::Timeout,
            Err(e) => Ran::Err(e.kind()),
        }
    }
    if tokio {
        match block(c.run_tokio()) {
            None => {
                sh.borrow_mut().hung = true;
                Ran::Hung
            }
            Some(r) => conv(r),
        }
    } else {
        let r = conv(c.run());
        if std::mem::take(&mut sh.borrow_mut().hung) {
            return Ran::Hung;
        }
        r
    }
}
