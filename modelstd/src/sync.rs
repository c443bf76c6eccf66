pub use ::std::sync::*;
use crate::rt;
use ::std::cell::{Cell, UnsafeCell};
use ::std::ops::{Deref, DerefMut};

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::rt;
    use ::std::cell::{Cell, UnsafeCell};

    pub fn fence(o: Ordering) {
        rt::fence(o)
    }

    pub trait Bits: Copy {
        fn to(self) -> u64;
        fn from(v: u64) -> Self;
        const NAME: &'static str;
    }
    /// An atomic whose operations are scheduling points with weak-memory semantics.
    #[repr(C)]
    pub struct Atomic<T> {
        id: Cell<u64>,
        val: UnsafeCell<T>,
    }
    unsafe impl<T> Sync for Atomic<T> {}
    unsafe impl<T> Send for Atomic<T> {}
    impl<T> ::std::panic::RefUnwindSafe for Atomic<T> {}

    impl<T> Atomic<T> {
        pub const fn new(v: T) -> Self {
            Atomic { id: Cell::new(0), val: UnsafeCell::new(v) }
        }
    }
    impl<T: Bits> Atomic<T> {
        fn addr(&self) -> usize {
            self as *const Self as usize
        }
        fn plain(&self) -> u64 {
            unsafe { (*self.val.get()).to() }
        }
        fn set(&self, v: u64) {
            unsafe { *self.val.get() = T::from(v) }
        }
        pub fn load(&self, o: Ordering) -> T {
            assert!(!matches!(o, Ordering::Release | Ordering::AcqRel), "invalid load ordering");
            if !rt::active() {
                return unsafe { *self.val.get() };
            }
            T::from(rt::load(self.addr(), &self.id, || self.plain(), o, T::NAME))
        }
        pub fn store(&self, v: T, o: Ordering) {
            assert!(!matches!(o, Ordering::Acquire | Ordering::AcqRel), "invalid store ordering");
            if !rt::active() {
                return self.set(v.to());
            }
            rt::store(self.addr(), &self.id, || self.plain(), v.to(), o, T::NAME, || self.set(v.to()));
        }
        fn rmw(&self, o: Ordering, f: impl Fn(T) -> T) -> T {
            if !rt::active() {
                let old = unsafe { *self.val.get() };
                self.set(f(old).to());
                return old;
            }
            let r = rt::rmw(self.addr(), &self.id, || self.plain(), o, Ordering::Relaxed, false, T::NAME,
                |v| Some(f(T::from(v)).to()), |n| self.set(n));
            T::from(r.unwrap_or_else(|e| e))
        }
        pub fn swap(&self, v: T, o: Ordering) -> T {
            self.rmw(o, |_| v)
        }
        fn cas(&self, cur: T, new: T, s: Ordering, f: Ordering, weak: bool) -> Result<T, T> {
            let want = cur.to();
            if !rt::active() {
                let old = self.plain();
                return if old == want {
                    self.set(new.to());
                    Ok(cur)
                } else {
                    Err(T::from(old))
                };
            }
            rt::rmw(self.addr(), &self.id, || self.plain(), s, f, weak, T::NAME,
                |v| (v == want).then(|| new.to()), |n| self.set(n))
                .map(T::from)
                .map_err(T::from)
        }
        pub fn compare_exchange(&self, cur: T, new: T, s: Ordering, f: Ordering) -> Result<T, T> {
            self.cas(cur, new, s, f, false)
        }
        pub fn compare_exchange_weak(&self, cur: T, new: T, s: Ordering, f: Ordering) -> Result<T, T> {
            self.cas(cur, new, s, f, true)
        }
        /// Always acts on the newest value; no scheduling point after it.
        pub(crate) fn compare_exchange_strict(&self, cur: T, new: T, s: Ordering, f: Ordering) -> Result<T, T> {
            if !rt::active() {
                return self.cas(cur, new, s, f, false);
            }
            let want = cur.to();
            rt::sp();
            rt::rmw_now(self.addr(), &self.id, || self.plain(), s, f, false, true, T::NAME,
                |v| (v == want).then(|| new.to()), |n| self.set(n))
                .map(T::from)
                .map_err(T::from)
        }
        pub(crate) fn wait_change(&self) {
            rt::wait_loc(rt::loc(&self.id, self.plain()));
        }
        pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut(T) -> Option<T>) -> Result<T, T> {
            let mut prev = self.load(f);
            while let Some(next) = g(prev) {
                match self.compare_exchange_weak(prev, next, s, f) {
                    x @ Ok(_) => return x,
                    Err(p) => prev = p,
                }
            }
            Err(prev)
        }
        pub fn get_mut(&mut self) -> &mut T {
            rt::exclusive(&self.id, "get_mut");
            self.id.set(0);
            self.val.get_mut()
        }
        pub fn into_inner(self) -> T {
            rt::exclusive(&self.id, "into_inner");
            self.val.into_inner()
        }
        pub fn as_ptr(&self) -> *mut T {
            self.val.get()
        }
    }
    impl<T: Bits + Default> Default for Atomic<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Atomic<T> {
        fn from(v: T) -> Self {
            Self::new(v)
        }
    }
    impl<T: Bits + ::std::fmt::Debug> ::std::fmt::Debug for Atomic<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.load(Ordering::Relaxed).fmt(f)
        }
    }
    macro_rules! ints {
        ($($n:ident $t:ty;)*) => {$(
            pub type $n = Atomic<$t>;
            impl Bits for $t {
                fn to(self) -> u64 { self as u64 }
                fn from(v: u64) -> Self { v as $t }
                const NAME: &'static str = stringify!($n);
            }
            impl Atomic<$t> {
                pub fn fetch_add(&self, d: $t, o: Ordering) -> $t { self.rmw(o, |v| v.wrapping_add(d)) }
                pub fn fetch_sub(&self, d: $t, o: Ordering) -> $t { self.rmw(o, |v| v.wrapping_sub(d)) }
                pub fn fetch_and(&self, d: $t, o: Ordering) -> $t { self.rmw(o, |v| v & d) }
                pub fn fetch_or(&self, d: $t, o: Ordering) -> $t { self.rmw(o, |v| v | d) }
                pub fn fetch_xor(&self, d: $t, o: Ordering) -> $t { self.rmw(o, |v| v ^ d) }
                pub fn fetch_max(&self, d: $t, o: Ordering) -> $t { self.rmw(o, |v| v.max(d)) }
                pub fn fetch_min(&self, d: $t, o: Ordering) -> $t { self.rmw(o, |v| v.min(d)) }
            }
        )*};
    }
    ints! {
        AtomicU8 u8; AtomicI8 i8; AtomicU16 u16; AtomicI16 i16; AtomicU32 u32; AtomicI32 i32;
        AtomicU64 u64; AtomicI64 i64; AtomicUsize usize; AtomicIsize isize;
    }
    pub type AtomicBool = Atomic<bool>;
    impl Bits for bool {
        fn to(self) -> u64 {
            self as u64
        }
        fn from(v: u64) -> Self {
            v & 1 == 1
        }
        const NAME: &'static str = "AtomicBool";
    }
    impl Atomic<bool> {
        pub fn fetch_and(&self, d: bool, o: Ordering) -> bool {
            self.rmw(o, |v| v & d)
        }
        pub fn fetch_or(&self, d: bool, o: Ordering) -> bool {
            self.rmw(o, |v| v | d)
        }
        pub fn fetch_xor(&self, d: bool, o: Ordering) -> bool {
            self.rmw(o, |v| v ^ d)
        }
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.rmw(o, |v| !v)
        }
    }
    pub type AtomicPtr<T> = Atomic<*mut T>;
    impl<T> Bits for *mut T {
        fn to(self) -> u64 {
            self as usize as u64
        }
        fn from(v: u64) -> Self {
            v as usize as *mut T
        }
        const NAME: &'static str = "AtomicPtr";
    }
}

// Once and OnceLock.

/// States: 0 new, 1 running, 2 done.
pub struct Once {
    st: atomic::AtomicU8,
}
impl ::std::fmt::Debug for Once {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Once { .. }")
    }
}
impl Once {
    pub const fn new() -> Self {
        Once { st: atomic::AtomicU8::new(0) }
    }
    pub fn is_completed(&self) -> bool {
        self.st.load(atomic::Ordering::Acquire) == 2
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        if let Err::<(), _>(e) = self.try_call(|| Ok::<(), ::std::convert::Infallible>(f())) {
            match e {}
        }
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        self.call_once(|| f(&OnceState(())))
    }
    pub fn wait(&self) {
        while !self.is_completed() {
            self.st.wait_change();
        }
    }
    fn try_call<E>(&self, f: impl FnOnce() -> Result<(), E>) -> Result<(), E> {
        use atomic::Ordering::*;
        loop {
            match self.st.compare_exchange_strict(0, 1, Acquire, Acquire) {
                Ok(_) => {
                    rt::sp();
                    struct Undo<'a>(&'a Once, u8);
                    impl Drop for Undo<'_> {
                        fn drop(&mut self) {
                            self.0.st.store(self.1, Release);
                        }
                    }
                    let mut u = Undo(self, 0);
                    let r = f();
                    if r.is_ok() {
                        u.1 = 2;
                    }
                    return r;
                }
                Err(2) => return Ok(()),
                Err(_) => self.st.wait_change(),
            }
        }
    }
}

#[derive(Debug)]
pub struct OnceState(());
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        false
    }
}

pub struct OnceLock<T> {
    once: Once,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() {
            unsafe { (*self.v.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.once.call_once(|| unsafe { *self.v.get() = v.take() });
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
        self.once.call_once(|| unsafe { *self.v.get() = Some(f()) });
        unsafe { (*self.v.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.once = Once::new();
        self.v.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: ::std::fmt::Debug> ::std::fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("OnceLock")
    }
}

// Mutex, Condvar, RwLock.

pub struct Mutex<T: ?Sized> {
    id: Cell<u64>,
    held: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { id: Cell::new(0), held: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.held as *const _ as usize
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::sp();
        loop {
            rt::touch(self.addr(), "Mutex::lock");
            if !self.held.get() {
                break;
            }
            rt::sync_wait(&self.id);
        }
        self.held.set(true);
        rt::sync_acquire(&self.id);
        Ok(MutexGuard(self))
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        rt::sp();
        rt::touch(self.addr(), "Mutex::try_lock");
        if self.held.replace(true) {
            return Err(TryLockError::WouldBlock);
        }
        rt::sync_acquire(&self.id);
        Ok(MutexGuard(self))
    }
    fn unlock(&self) {
        rt::touch(self.addr(), "Mutex unlock");
        rt::sync_release(&self.id);
        self.held.set(false);
        rt::sync_wake(&self.id, true);
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        false
    }
    pub fn clear_poison(&self) {}
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> ::std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        rt::sp();
        self.0.unlock();
        rt::sp();
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar {
    id: Cell<u64>,
}
unsafe impl Sync for Condvar {}
unsafe impl Send for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { id: Cell::new(0) }
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        rt::sp();
        let m = g.0;
        ::std::mem::forget(g);
        m.unlock();
        rt::sync_wait(&self.id);
        m.lock()
    }
    pub fn wait_while<'a, T: ?Sized>(&self, mut g: MutexGuard<'a, T>, mut c: impl FnMut(&mut T) -> bool) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// Times out as a spurious wakeup would.
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, _: ::std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.0;
        drop(g);
        rt::yield_();
        Ok((m.lock().unwrap(), WaitTimeoutResult(true)))
    }
    pub fn notify_one(&self) {
        rt::sp();
        rt::sync_wake(&self.id, false);
    }
    pub fn notify_all(&self) {
        rt::sp();
        rt::sync_wake(&self.id, true);
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl ::std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

/// Readers are counted; the count is -1 while a writer holds the lock.
pub struct RwLock<T: ?Sized> {
    id: Cell<u64>,
    n: Cell<isize>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { id: Cell::new(0), n: Cell::new(0), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn take(&self, write: bool) -> bool {
        rt::touch(&self.n as *const _ as usize, "RwLock");
        let n = self.n.get();
        if n < 0 || write && n > 0 {
            return false;
        }
        self.n.set(if write { -1 } else { n + 1 });
        rt::sync_acquire(&self.id);
        true
    }
    fn lock(&self, write: bool) {
        rt::sp();
        while !self.take(write) {
            rt::sync_wait(&self.id);
        }
    }
    fn unlock(&self) {
        rt::sp();
        rt::touch(&self.n as *const _ as usize, "RwLock unlock");
        rt::sync_release(&self.id);
        let n = self.n.get();
        self.n.set(if n < 0 { 0 } else { n - 1 });
        rt::sync_wake(&self.id, true);
        rt::sp();
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.lock(false);
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.lock(true);
        Ok(RwLockWriteGuard(self))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        rt::sp();
        self.take(false).then_some(RwLockReadGuard(self)).ok_or(TryLockError::WouldBlock)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        rt::sp();
        self.take(true).then_some(RwLockWriteGuard(self)).ok_or(TryLockError::WouldBlock)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> ::std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.unlock();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.unlock();
    }
}

// Arc and Weak: each operation is one step with the synchronisation std documents.

#[repr(C)]
struct ArcInner<T: ?Sized> {
    id: Cell<u64>,
    strong: Cell<usize>,
    weak: Cell<usize>,
    data: UnsafeCell<::std::mem::ManuallyDrop<T>>,
}
pub struct Arc<T: ?Sized>(::std::ptr::NonNull<ArcInner<T>>, ::std::marker::PhantomData<ArcInner<T>>);
impl<T: ?Sized + ::std::marker::Unsize<U>, U: ?Sized> ::std::ops::CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + ::std::marker::Unsize<U>, U: ?Sized> ::std::ops::DispatchFromDyn<Arc<U>> for Arc<T> {}
pub struct Weak<T: ?Sized>(Option<::std::ptr::NonNull<ArcInner<T>>>);
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Send for Weak<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Weak<T> {}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: ?Sized + ::std::panic::RefUnwindSafe> ::std::panic::UnwindSafe for Arc<T> {}

impl<T: ?Sized> ArcInner<T> {
    fn touch(&self, what: &str) {
        rt::touch(&self.strong as *const _ as usize, what);
    }
}

impl<T> Arc<T> {
    pub fn new(v: T) -> Self {
        let b = Box::new(ArcInner {
            id: Cell::new(0),
            strong: Cell::new(1),
            weak: Cell::new(1),
            data: UnsafeCell::new(::std::mem::ManuallyDrop::new(v)),
        });
        Arc(unsafe { ::std::ptr::NonNull::new_unchecked(Box::into_raw(b)) }, ::std::marker::PhantomData)
    }
    pub fn pin(v: T) -> ::std::pin::Pin<Self> {
        unsafe { ::std::pin::Pin::new_unchecked(Self::new(v)) }
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        rt::sp();
        this.inner().touch("Arc::try_unwrap");
        if this.inner().strong.get() != 1 {
            return Err(this);
        }
        this.inner().strong.set(0);
        rt::note(|| "Arc::try_unwrap succeeds".into());
        rt::sync_release(&this.inner().id);
        rt::sync_acquire(&this.inner().id);
        let p = this.0;
        ::std::mem::forget(this);
        let v = unsafe { ::std::mem::ManuallyDrop::take(&mut *p.as_ref().data.get()) };
        drop(Weak(Some(p)));
        rt::sp();
        Ok(v)
    }
    pub fn into_inner(this: Self) -> Option<T> {
        rt::sp();
        let p = this.0;
        ::std::mem::forget(this);
        let r = if unsafe { dec(p) } {
            let v = unsafe { ::std::mem::ManuallyDrop::take(&mut *p.as_ref().data.get()) };
            drop(Weak(Some(p)));
            Some(v)
        } else {
            None
        };
        rt::sp();
        r
    }
    pub fn unwrap_or_clone(this: Self) -> T
    where
        T: Clone,
    {
        Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
    pub fn new_cyclic(f: impl FnOnce(&Weak<T>) -> T) -> Self {
        let b = Box::new(ArcInner {
            id: Cell::new(0),
            strong: Cell::new(0),
            weak: Cell::new(1),
            data: UnsafeCell::new(::std::mem::ManuallyDrop::new(::std::mem::MaybeUninit::<T>::uninit())),
        });
        let p = unsafe { ::std::ptr::NonNull::new_unchecked(Box::into_raw(b)) }.cast::<ArcInner<T>>();
        let w = Weak(Some(p));
        let v = f(&w);
        unsafe {
            ::std::ptr::write(p.as_ref().data.get() as *mut T, v);
            p.as_ref().strong.set(1);
        }
        ::std::mem::forget(w);
        Arc(p, ::std::marker::PhantomData)
    }
}
// The data offset is found through a reference (T may be unsized).
impl<T: ?Sized> Arc<T> {
    fn inner(&self) -> &ArcInner<T> {
        unsafe { self.0.as_ref() }
    }
    pub fn as_ptr(this: &Self) -> *const T {
        unsafe { &**this.inner().data.get() as *const T }
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        ::std::ptr::addr_eq(a.0.as_ptr(), b.0.as_ptr())
    }
    pub fn strong_count(this: &Self) -> usize {
        rt::sp();
        this.inner().touch("Arc::strong_count");
        this.inner().strong.get()
    }
    pub fn weak_count(this: &Self) -> usize {
        rt::sp();
        this.inner().touch("Arc::weak_count");
        this.inner().weak.get() - 1
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        rt::sp();
        this.inner().touch("Arc::downgrade");
        this.inner().weak.set(this.inner().weak.get() + 1);
        Weak(Some(this.0))
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        rt::sp();
        this.inner().touch("Arc::get_mut");
        if this.inner().strong.get() != 1 || this.inner().weak.get() != 1 {
            return None;
        }
        rt::sync_acquire(&this.inner().id);
        unsafe { Some(&mut **this.0.as_ref().data.get()) }
    }
}
impl<T> Arc<T> {
    const OFF: usize = ::std::mem::offset_of!(ArcInner<T>, data);
    pub fn into_raw(this: Self) -> *const T {
        let p = Self::as_ptr(&this);
        ::std::mem::forget(this);
        p
    }
    pub unsafe fn from_raw(p: *const T) -> Self {
        Arc(::std::ptr::NonNull::new_unchecked((p as *mut u8).sub(Self::OFF) as *mut ArcInner<T>), ::std::marker::PhantomData)
    }
    pub unsafe fn increment_strong_count(p: *const T) {
        ::std::mem::forget((*::std::mem::ManuallyDrop::new(Self::from_raw(p))).clone());
    }
    pub unsafe fn decrement_strong_count(p: *const T) {
        drop(Self::from_raw(p));
    }
}
impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        if Arc::get_mut(this).is_none() {
            *this = Arc::new((**this).clone());
        }
        unsafe { &mut **this.0.as_ref().data.get() }
    }
}
/// Decrements the strong count; true if it was the last one (then ordered after all others).
unsafe fn dec<T: ?Sized>(p: ::std::ptr::NonNull<ArcInner<T>>) -> bool {
    let i = p.as_ref();
    i.touch("Arc drop");
    let n = i.strong.get();
    if n == 0 {
        rt::violate("Arc: strong count below zero".into());
    }
    i.strong.set(n - 1);
    rt::note(|| format!("Arc strong {} -> {}", n, n - 1));
    rt::sync_release(&i.id);
    if n == 1 {
        rt::sync_acquire(&i.id);
        true
    } else {
        false
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        rt::sp();
        let i = self.inner();
        i.touch("Arc::clone");
        if i.strong.get() == 0 {
            rt::violate("Arc::clone of a dead value".into());
        }
        i.strong.set(i.strong.get() + 1);
        rt::note(|| format!("Arc::clone -> {}", i.strong.get()));
        Arc(self.0, ::std::marker::PhantomData)
    }
}
unsafe impl<#[may_dangle] T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        rt::sp();
        unsafe {
            if dec(self.0) {
                ::std::mem::ManuallyDrop::drop(&mut *self.0.as_ref().data.get());
                drop(Weak(Some(self.0)));
            }
        }
        rt::sp();
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        let i = self.inner();
        i.touch("Arc::deref");
        if i.strong.get() == 0 && rt::active() {
            rt::violate("Arc::deref of a dead value".into());
        }
        unsafe { &*i.data.get() }
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        self
    }
}
impl<T: ?Sized> ::std::borrow::Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        self
    }
}
impl<T> From<T> for Arc<T> {
    fn from(v: T) -> Self {
        Arc::new(v)
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + ::std::fmt::Display> ::std::fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> ::std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + ::std::hash::Hash> ::std::hash::Hash for Arc<T> {
    fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}

impl<T> Weak<T> {
    pub const fn new() -> Self {
        Weak(None)
    }
}
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        rt::sp();
        let p = self.0?;
        let i = unsafe { p.as_ref() };
        i.touch("Weak::upgrade");
        if i.strong.get() == 0 {
            rt::note(|| "Weak::upgrade: dead".into());
            return None;
        }
        i.strong.set(i.strong.get() + 1);
        rt::note(|| format!("Weak::upgrade -> {}", i.strong.get()));
        rt::sync_acquire(&i.id);
        let r = Some(Arc(p, ::std::marker::PhantomData));
        rt::sp();
        r
    }
    pub fn strong_count(&self) -> usize {
        rt::sp();
        match self.0 {
            None => 0,
            Some(p) => {
                let i = unsafe { p.as_ref() };
                i.touch("Weak::strong_count");
                i.strong.get()
            }
        }
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        match (self.0, o.0) {
            (Some(a), Some(b)) => ::std::ptr::addr_eq(a.as_ptr(), b.as_ptr()),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        rt::sp();
        if let Some(p) = self.0 {
            let i = unsafe { p.as_ref() };
            i.touch("Weak::clone");
            i.weak.set(i.weak.get() + 1);
        }
        Weak(self.0)
    }
}
unsafe impl<#[may_dangle] T: ?Sized> Drop for Weak<T> {
    fn drop(&mut self) {
        if let Some(p) = self.0 {
            rt::sp();
            let i = unsafe { p.as_ref() };
            i.touch("Weak drop");
            let n = i.weak.get();
            if n == 0 {
                rt::violate("Weak: count below zero".into());
            }
            i.weak.set(n - 1);
            rt::sync_release(&i.id);
            if n == 1 {
                rt::sync_acquire(&i.id);
                // data is ManuallyDrop: only the memory goes away.
                drop(unsafe { Box::from_raw(p.as_ptr()) });
            }
            rt::sp();
        }
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak(None)
    }
}
impl<T: ?Sized> ::std::fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("(Weak)")
    }
}
