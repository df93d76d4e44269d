//! Modelled `std::sync`: every operation is a scheduling point, every wait is visible.
pub use ::std::sync::{Arc, LazyLock, LockResult, Once, OnceLock, OnceState, PoisonError, TryLockError, TryLockResult, Weak};

use crate::rt;
use ::std::cell::UnsafeCell;
use ::std::collections::VecDeque;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool as RBool, AtomicIsize as RIsize, AtomicUsize as RUsize, Ordering::SeqCst};
use ::std::sync::Mutex as RMutex;
use ::std::time::Duration;

/// See `std::sync::Mutex`.
pub struct Mutex<T: ?Sized> {
    locked: RBool,
    poisoned: RBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

/// See `std::sync::MutexGuard`.
#[must_use]
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    panicking: bool,
    _ns: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

fn leak_flag(b: &RBool) -> &'static RBool {
    // SAFETY: only looked at while the thread that waits borrows it.
    unsafe { &*(b as *const RBool) }
}
fn leak_isize(b: &RIsize) -> &'static RIsize {
    // SAFETY: as above.
    unsafe { &*(b as *const RIsize) }
}

impl<T> Mutex<T> {
    /// See std.
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { locked: RBool::new(false), poisoned: RBool::new(false), data: UnsafeCell::new(t) }
    }
    /// See std.
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        self.locked.store(true, SeqCst);
        rt::effect();
        let g = MutexGuard { m: self, panicking: ::std::thread::panicking(), _ns: ::std::marker::PhantomData };
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    /// See std.
    #[track_caller]
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::point("mutex lock");
        while self.locked.load(SeqCst) {
            let f = leak_flag(&self.locked);
            rt::block("mutex", Some(Box::new(move || !f.load(SeqCst))), None);
        }
        self.guard()
    }
    /// See std.
    #[track_caller]
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        rt::point("mutex try_lock");
        if self.locked.load(SeqCst) {
            rt::failed_try();
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    /// See std.
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    /// See std.
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst)
    }
    /// See std.
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.get_mut();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    #[track_caller]
    fn drop(&mut self) {
        struct Release<'a>(&'a RBool);
        impl Drop for Release<'_> {
            fn drop(&mut self) {
                self.0.store(false, SeqCst);
                rt::effect();
            }
        }
        let _r = Release(&self.m.locked);
        if !self.panicking && ::std::thread::panicking() && !rt::tearing_down() {
            self.m.poisoned.store(true, SeqCst);
        }
        rt::point("mutex unlock");
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the lock is held.
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: the lock is held.
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

/// See `std::sync::RwLock`.
pub struct RwLock<T: ?Sized> {
    /// -1: writer, n: readers
    state: RIsize,
    poisoned: RBool,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}
/// See std.
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    l: &'a RwLock<T>,
    _ns: ::std::marker::PhantomData<*const ()>,
}
/// See std.
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    l: &'a RwLock<T>,
    panicking: bool,
    _ns: ::std::marker::PhantomData<*const ()>,
}
impl<T> RwLock<T> {
    /// See std.
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { state: RIsize::new(0), poisoned: RBool::new(false), data: UnsafeCell::new(t) }
    }
    /// See std.
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.state.fetch_add(1, SeqCst);
        rt::effect();
        let g = RwLockReadGuard { l: self, _ns: ::std::marker::PhantomData };
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.state.store(-1, SeqCst);
        rt::effect();
        let g = RwLockWriteGuard { l: self, panicking: ::std::thread::panicking(), _ns: ::std::marker::PhantomData };
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    /// See std.
    #[track_caller]
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        rt::point("rwlock read");
        while self.state.load(SeqCst) < 0 {
            let f = leak_isize(&self.state);
            rt::block("rwlock read", Some(Box::new(move || f.load(SeqCst) >= 0)), None);
        }
        self.rguard()
    }
    /// See std.
    #[track_caller]
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        rt::point("rwlock write");
        while self.state.load(SeqCst) != 0 {
            let f = leak_isize(&self.state);
            rt::block("rwlock write", Some(Box::new(move || f.load(SeqCst) == 0)), None);
        }
        self.wguard()
    }
    /// See std.
    #[track_caller]
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        rt::point("rwlock try_read");
        if self.state.load(SeqCst) < 0 {
            rt::failed_try();
            return Err(TryLockError::WouldBlock);
        }
        self.rguard().map_err(TryLockError::Poisoned)
    }
    /// See std.
    #[track_caller]
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        rt::point("rwlock try_write");
        if self.state.load(SeqCst) != 0 {
            rt::failed_try();
            return Err(TryLockError::WouldBlock);
        }
        self.wguard().map_err(TryLockError::Poisoned)
    }
    /// See std.
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    /// See std.
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    #[track_caller]
    fn drop(&mut self) {
        rt::point("rwlock read unlock");
        self.l.state.fetch_sub(1, SeqCst);
        rt::effect();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    #[track_caller]
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() && !rt::tearing_down() {
            self.l.poisoned.store(true, SeqCst);
        }
        rt::point("rwlock write unlock");
        self.l.state.store(0, SeqCst);
        rt::effect();
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the lock is held.
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the lock is held.
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: the lock is held exclusively.
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLockReadGuard { .. }")
    }
}
impl<T: ?Sized> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLockWriteGuard { .. }")
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}

/// See `std::sync::Condvar`.
#[derive(Default)]
pub struct Condvar {
    waiters: RMutex<VecDeque<Arc<RBool>>>,
}
/// See std.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    /// See std.
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    /// See std.
    pub const fn new() -> Condvar {
        Condvar { waiters: RMutex::new(VecDeque::new()) }
    }
    #[track_caller]
    fn wait_until<'a, T>(&self, g: MutexGuard<'a, T>, deadline: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        let flag = Arc::new(RBool::new(false));
        self.waiters.lock().unwrap().push_back(flag.clone());
        drop(g);
        let f2 = flag.clone();
        let timed_out = rt::block("condvar", Some(Box::new(move || f2.load(SeqCst))), deadline);
        if timed_out {
            self.waiters.lock().unwrap().retain(|w| !Arc::ptr_eq(w, &flag));
        }
        (m.lock(), timed_out)
    }
    /// See std.
    #[track_caller]
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_until(g, None).0
    }
    /// See std.
    #[track_caller]
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// See std.
    #[track_caller]
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, t) = self.wait_until(g, Some(crate::time::deadline_in(d)));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    /// See std.
    #[track_caller]
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = crate::time::deadline_in(d);
        loop {
            if !cond(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if rt::peek_ns() >= end {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = match self.wait_until(g, Some(end)).0 {
                Ok(g) => g,
                Err(e) => return Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(false)))),
            };
        }
    }
    /// See std.
    #[track_caller]
    pub fn notify_one(&self) {
        rt::point("notify_one");
        if let Some(w) = self.waiters.lock().unwrap().pop_front() {
            w.store(true, SeqCst);
            rt::effect();
        }
    }
    /// See std.
    #[track_caller]
    pub fn notify_all(&self) {
        rt::point("notify_all");
        let mut q = self.waiters.lock().unwrap();
        if !q.is_empty() {
            rt::effect();
        }
        while let Some(w) = q.pop_front() {
            w.store(true, SeqCst);
        }
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

/// See `std::sync::Barrier`.
pub struct Barrier {
    n: usize,
    state: RMutex<(usize, Arc<RUsize>)>,
}
/// See std.
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    /// See std.
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    /// See std.
    pub fn new(n: usize) -> Barrier {
        Barrier { n, state: RMutex::new((0, Arc::new(RUsize::new(0)))) }
    }
    /// See std.
    #[track_caller]
    pub fn wait(&self) -> BarrierWaitResult {
        rt::point("barrier");
        let (generation, counter, leader) = {
            let mut s = self.state.lock().unwrap();
            s.0 += 1;
            let g = s.1.load(SeqCst);
            if s.0 >= self.n {
                s.0 = 0;
                s.1.fetch_add(1, SeqCst);
                rt::effect();
                (g, s.1.clone(), true)
            } else {
                (g, s.1.clone(), false)
            }
        };
        if !leader {
            rt::block("barrier", Some(Box::new(move || counter.load(SeqCst) != generation)), None);
        }
        BarrierWaitResult(leader)
    }
}

/// Modelled atomics (sequentially consistent).
pub mod atomic {
    pub use ::std::sync::atomic::Ordering;
    use crate::rt;
    use ::std::sync::atomic as real;
    use ::std::sync::atomic::Ordering::SeqCst;

    /// See std.
    #[track_caller]
    pub fn fence(_: Ordering) {
        rt::point("fence")
    }
    /// See std.
    pub fn compiler_fence(_: Ordering) {}

    macro_rules! common {
        ($name:ident, $t:ty) => {
            /// See std.
            #[derive(Default)]
            pub struct $name(real::$name);
            impl $name {
                /// See std.
                pub const fn new(v: $t) -> $name {
                    $name(real::$name::new(v))
                }
                fn changed(old: $t, new: $t) -> $t {
                    if old != new {
                        rt::effect();
                    }
                    old
                }
                /// See std.
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                /// See std.
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                /// See std.
                #[track_caller]
                pub fn load(&self, _o: Ordering) -> $t {
                    rt::point("atomic load");
                    self.0.load(SeqCst)
                }
                /// See std.
                #[track_caller]
                pub fn store(&self, v: $t, _o: Ordering) {
                    rt::point("atomic store");
                    let old = self.0.swap(v, SeqCst);
                    Self::changed(old, v);
                }
                /// See std.
                #[track_caller]
                pub fn swap(&self, v: $t, _o: Ordering) -> $t {
                    rt::point("atomic swap");
                    let old = self.0.swap(v, SeqCst);
                    Self::changed(old, v)
                }
                /// See std.
                #[track_caller]
                pub fn compare_exchange(&self, c: $t, n: $t, _a: Ordering, _b: Ordering) -> Result<$t, $t> {
                    rt::point("atomic compare_exchange");
                    let r = self.0.compare_exchange(c, n, SeqCst, SeqCst);
                    if r.is_ok() {
                        Self::changed(c, n);
                    } else {
                        rt::failed_try();
                    }
                    r
                }
                /// See std.
                #[track_caller]
                pub fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(c, n, a, b)
                }
                /// See std.
                #[track_caller]
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    _a: Ordering,
                    _b: Ordering,
                    mut f: F,
                ) -> Result<$t, $t> {
                    rt::point("atomic fetch_update");
                    let old = self.0.load(SeqCst);
                    match f(old) {
                        Some(n) => {
                            self.0.store(n, SeqCst);
                            Ok(Self::changed(old, n))
                        }
                        None => Err(old),
                    }
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl ::std::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! ops {
        ($name:ident, $t:ty, $($op:ident),*) => {
            impl $name {
                $(
                    /// See std.
                    #[track_caller]
                    pub fn $op(&self, v: $t, _o: Ordering) -> $t {
                        rt::point("atomic read-modify-write");
                        let old = self.0.$op(v, SeqCst);
                        Self::changed(old, self.0.load(SeqCst))
                    }
                )*
            }
        };
    }
    macro_rules! int {
        ($name:ident, $t:ty) => {
            common!($name, $t);
            ops!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
        };
    }
    common!(AtomicBool, bool);
    ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
    impl AtomicBool {
        /// See std.
        #[track_caller]
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.fetch_xor(true, o)
        }
    }
    int!(AtomicU8, u8);
    int!(AtomicU16, u16);
    int!(AtomicU32, u32);
    int!(AtomicU64, u64);
    int!(AtomicUsize, usize);
    int!(AtomicI8, i8);
    int!(AtomicI16, i16);
    int!(AtomicI32, i32);
    int!(AtomicI64, i64);
    int!(AtomicIsize, isize);
}

/// Modelled channels.
pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use crate::rt;
    use ::std::collections::VecDeque;
    use ::std::fmt;
    use ::std::sync::atomic::{AtomicBool as RBool, AtomicUsize as RUsize, Ordering::SeqCst};
    use ::std::sync::{Arc, Mutex as RMutex};
    use ::std::time::Duration;

    #[derive(Default)]
    struct St {
        len: RUsize,
        senders: RUsize,
        receiver_gone: RBool,
        /// Rendezvous channels: receivers that wait.
        waiting: RUsize,
        cap: Option<usize>,
    }
    struct Chan<T> {
        st: Arc<St>,
        q: RMutex<VecDeque<T>>,
    }
    impl<T> Chan<T> {
        fn pop(&self) -> Option<T> {
            let v = self.q.lock().unwrap().pop_front();
            if v.is_some() {
                self.st.len.fetch_sub(1, SeqCst);
                rt::effect();
            }
            v
        }
        fn push(&self, v: T) {
            self.q.lock().unwrap().push_back(v);
            self.st.len.fetch_add(1, SeqCst);
            rt::effect();
        }
    }

    /// See std.
    pub struct Sender<T> {
        c: Arc<Chan<T>>,
    }
    /// See std.
    pub struct SyncSender<T> {
        c: Arc<Chan<T>>,
    }
    /// See std.
    pub struct Receiver<T> {
        c: Arc<Chan<T>>,
        _not_sync: ::std::marker::PhantomData<::std::cell::Cell<()>>,
    }
    unsafe impl<T: Send> Send for Receiver<T> {}

    fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan {
            st: Arc::new(St { senders: RUsize::new(1), cap, ..St::default() }),
            q: RMutex::new(VecDeque::new()),
        })
    }
    /// See std.
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = make(None);
        (Sender { c: c.clone() }, Receiver { c, _not_sync: ::std::marker::PhantomData })
    }
    /// See std.
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = make(Some(n));
        (SyncSender { c: c.clone() }, Receiver { c, _not_sync: ::std::marker::PhantomData })
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.c.st.senders.fetch_add(1, SeqCst);
            Sender { c: self.c.clone() }
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            self.c.st.senders.fetch_add(1, SeqCst);
            SyncSender { c: self.c.clone() }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            if self.c.st.senders.fetch_sub(1, SeqCst) == 1 {
                rt::effect();
            }
        }
    }
    impl<T> Drop for SyncSender<T> {
        fn drop(&mut self) {
            if self.c.st.senders.fetch_sub(1, SeqCst) == 1 {
                rt::effect();
            }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.c.st.receiver_gone.store(true, SeqCst);
            // queued messages die with the receiver
            let q = ::std::mem::take(&mut *self.c.q.lock().unwrap());
            drop(q);
            rt::effect();
        }
    }
    impl<T> Sender<T> {
        /// See std.
        #[track_caller]
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            rt::point("channel send");
            if self.c.st.receiver_gone.load(SeqCst) {
                return Err(SendError(v));
            }
            self.c.push(v);
            Ok(())
        }
    }
    impl<T> SyncSender<T> {
        fn room(st: &St) -> bool {
            let cap = st.cap.unwrap_or(usize::MAX);
            let len = st.len.load(SeqCst);
            st.receiver_gone.load(SeqCst) || len < cap || (cap == 0 && st.waiting.load(SeqCst) > len)
        }
        /// See std.
        #[track_caller]
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            rt::point("channel send");
            if !Self::room(&self.c.st) {
                let st = self.c.st.clone();
                rt::block("room in a channel", Some(Box::new(move || Self::room(&st))), None);
            }
            if self.c.st.receiver_gone.load(SeqCst) {
                return Err(SendError(v));
            }
            self.c.push(v);
            Ok(())
        }
        /// See std.
        #[track_caller]
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            rt::point("channel try_send");
            if self.c.st.receiver_gone.load(SeqCst) {
                return Err(TrySendError::Disconnected(v));
            }
            if !Self::room(&self.c.st) {
                rt::failed_try();
                return Err(TrySendError::Full(v));
            }
            self.c.push(v);
            Ok(())
        }
    }
    impl<T> Receiver<T> {
        #[track_caller]
        fn wait(&self, deadline: Option<u64>) {
            let st = self.c.st.clone();
            self.c.st.waiting.fetch_add(1, SeqCst);
            rt::progress();
            struct W(Arc<St>);
            impl Drop for W {
                fn drop(&mut self) {
                    self.0.waiting.fetch_sub(1, SeqCst);
                }
            }
            let _w = W(st.clone());
            rt::block(
                "channel message",
                Some(Box::new(move || st.len.load(SeqCst) > 0 || st.senders.load(SeqCst) == 0)),
                deadline,
            );
        }
        /// See std.
        #[track_caller]
        pub fn recv(&self) -> Result<T, RecvError> {
            rt::point("channel recv");
            loop {
                if let Some(v) = self.c.pop() {
                    return Ok(v);
                }
                if self.c.st.senders.load(SeqCst) == 0 {
                    return Err(RecvError);
                }
                self.wait(None);
            }
        }
        /// See std.
        #[track_caller]
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            rt::point("channel recv_timeout");
            let end = crate::time::deadline_in(d);
            loop {
                if let Some(v) = self.c.pop() {
                    return Ok(v);
                }
                if self.c.st.senders.load(SeqCst) == 0 {
                    rt::failed_try();
                    return Err(RecvTimeoutError::Disconnected);
                }
                if rt::peek_ns() >= end {
                    return Err(RecvTimeoutError::Timeout);
                }
                self.wait(Some(end));
            }
        }
        /// See std.
        #[track_caller]
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            rt::point("channel try_recv");
            if let Some(v) = self.c.pop() {
                return Ok(v);
            }
            rt::failed_try();
            if self.c.st.senders.load(SeqCst) == 0 {
                return Err(TryRecvError::Disconnected);
            }
            Err(TryRecvError::Empty)
        }
        /// See std.
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { r: self }
        }
        /// See std.
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter { r: self }
        }
    }
    /// See std.
    pub struct Iter<'a, T: 'a> {
        r: &'a Receiver<T>,
    }
    /// See std.
    pub struct TryIter<'a, T: 'a> {
        r: &'a Receiver<T>,
    }
    /// See std.
    pub struct IntoIter<T> {
        r: Receiver<T>,
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.r.recv().ok()
        }
    }
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.r.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.r.recv().ok()
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter { r: self }
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Sender { .. }")
        }
    }
    impl<T> fmt::Debug for SyncSender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("SyncSender { .. }")
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver { .. }")
        }
    }
}
