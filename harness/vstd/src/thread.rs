//! Modelled `std::thread`.
pub use ::std::thread::{panicking, AccessError, Result};
use crate::rt;
use ::std::any::Any;
use ::std::cell::{Cell, RefCell};
use ::std::io;
use ::std::num::NonZeroUsize;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::rc::Rc;
use ::std::sync::{Arc, Mutex as RealMutex};
use ::std::time::Duration;

/// Identity of a model thread.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ThreadId(usize);

/// Handle to a model thread.
#[derive(Clone, Debug)]
pub struct Thread {
    tid: usize,
    name: Option<String>,
}
impl Thread {
    /// See std.
    pub fn id(&self) -> ThreadId {
        ThreadId(self.tid)
    }
    /// See std.
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    /// See std.
    pub fn unpark(&self) {
        rt::point("unpark");
        rt::unpark(self.tid)
    }
}
/// See std.
pub fn current() -> Thread {
    Thread { tid: rt::current_tid(), name: Some(rt::current_name()) }
}
/// See std.
pub fn park() {
    rt::park(None)
}
/// See std.
pub fn park_timeout(d: Duration) {
    rt::park(Some(crate::time::deadline_in(d)))
}
/// See std.
#[track_caller]
pub fn sleep(d: Duration) {
    rt::sleep(crate::time::ns(d))
}
/// See std.
#[track_caller]
pub fn yield_now() {
    rt::yield_spin()
}
/// See std.
pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    Ok(NonZeroUsize::new(4).unwrap())
}

/// See std.
pub struct JoinHandle<T> {
    tid: usize,
    name: Option<String>,
    packet: Arc<RealMutex<Option<Result<T>>>>,
}
// SAFETY: model threads of one execution share one OS thread.
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    /// See std.
    #[track_caller]
    pub fn join(self) -> Result<T> {
        rt::point("join");
        if !rt::is_done(self.tid) {
            let flag = rt::done_flag(self.tid);
            rt::block("join of a thread", Some(Box::new(move || flag.get())), None);
        }
        let r = self.packet.lock().unwrap().take();
        r.unwrap_or_else(|| Err(Box::new("thread was torn down")))
    }
    /// See std.
    #[track_caller]
    pub fn is_finished(&self) -> bool {
        rt::point("is_finished");
        rt::is_done(self.tid)
    }
    /// See std.
    pub fn thread(&self) -> Thread {
        Thread { tid: self.tid, name: self.name.clone() }
    }
}

/// See std.
#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    /// See std.
    pub fn new() -> Builder {
        Builder::default()
    }
    /// See std.
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    /// See std.
    pub fn stack_size(self, _n: usize) -> Builder {
        self
    }
    /// See std.
    #[track_caller]
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn_named(self.name, f))
    }
}

#[track_caller]
fn spawn_named<F, T>(name: Option<String>, f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + 'static,
    T: 'static,
{
    rt::point("spawn");
    let packet: Arc<RealMutex<Option<Result<T>>>> = Arc::new(RealMutex::new(None));
    let p2 = packet.clone();
    let tid = rt::spawn(
        name.clone(),
        Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => *p2.lock().unwrap() = Some(Ok(v)),
                Err(e) => {
                    if rt::active() {
                        *p2.lock().unwrap() = Some(Err(Box::new("panicked")));
                    }
                    resume_unwind(e)
                }
            }
        }),
    );
    JoinHandle { tid, name, packet }
}

/// See std.
#[track_caller]
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    spawn_named(None, f)
}

/// See std (threads of the scope may only borrow for its duration; they are joined at its end).
pub struct Scope<'scope, 'env: 'scope> {
    handles: RefCell<Vec<usize>>,
    panicked: Cell<bool>,
    _m: ::std::marker::PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
}
/// See std.
pub struct ScopedJoinHandle<'scope, T> {
    inner: JoinHandle<T>,
    _m: ::std::marker::PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    /// See std.
    pub fn join(self) -> Result<T> {
        self.inner.join()
    }
    /// See std.
    pub fn is_finished(&self) -> bool {
        self.inner.is_finished()
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    /// See std.
    #[track_caller]
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        rt::point("spawn");
        let packet: Arc<RealMutex<Option<Result<T>>>> = Arc::new(RealMutex::new(None));
        let p2 = packet.clone();
        let body: Box<dyn FnOnce() + 'scope> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => *p2.lock().unwrap() = Some(Ok(v)),
                Err(e) => {
                    if rt::active() {
                        *p2.lock().unwrap() = Some(Err(Box::new("panicked")));
                    }
                    resume_unwind(e)
                }
            }
        });
        // SAFETY: the scope joins the thread before 'scope ends.
        let body: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(body) };
        let tid = rt::spawn(None, body);
        self.handles.borrow_mut().push(tid);
        ScopedJoinHandle { inner: JoinHandle { tid, name: None, packet }, _m: ::std::marker::PhantomData }
    }
}
/// See std.
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { handles: RefCell::new(vec![]), panicked: Cell::new(false), _m: ::std::marker::PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
    let hs: Vec<usize> = s.handles.borrow().clone();
    for t in hs {
        if !rt::is_done(t) {
            let flag = rt::done_flag(t);
            rt::block("end of a thread scope", Some(Box::new(move || flag.get())), None);
        }
        if rt::panicked(t) {
            s.panicked.set(true);
        }
    }
    match r {
        Ok(v) => v,
        Err(e) => resume_unwind(e),
    }
}

/// Thread-local key, local to model threads.
pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
    /// Used by the macro.
    pub const fn new(init: fn() -> T) -> LocalKey<T> {
        LocalKey { init }
    }
    fn get_rc(&'static self) -> Rc<T> {
        let key = self as *const _ as *const u8 as usize;
        if rt::has_exec() {
            if let Some(v) = rt::local_get(key) {
                return v.downcast::<T>().expect("type of a thread local");
            }
            let v = Rc::new((self.init)());
            rt::local_set(key, v.clone() as Rc<dyn Any>);
            v
        } else {
            ::std::thread_local! {
                static PASSIVE: RefCell<::std::collections::HashMap<usize, Rc<dyn Any>>> = RefCell::new(Default::default());
            }
            if let Some(v) = PASSIVE.with(|p| p.borrow().get(&key).cloned()) {
                return v.downcast::<T>().expect("type of a thread local");
            }
            let v = Rc::new((self.init)());
            PASSIVE.with(|p| p.borrow_mut().insert(key, v.clone() as Rc<dyn Any>));
            v
        }
    }
    /// See std.
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        f(&self.get_rc())
    }
    /// See std.
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> ::std::result::Result<R, AccessError> {
        Ok(f(&self.get_rc()))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    /// See std.
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    /// See std.
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    /// See std.
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    /// See std.
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    /// See std.
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    /// See std.
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    /// See std.
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    /// See std.
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    /// See std.
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
