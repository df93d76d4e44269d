//! Tasks.
pub use real_tokio::task::unconstrained;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use vstd::rt;

/// What the runtime knows about a task.
pub(crate) struct Rec {
    pub tid: usize,
    pub in_poll: Rc<Cell<bool>>,
    pub blocking: bool,
    pub done: Rc<Cell<bool>>,
}
/// All tasks of the running process.
#[derive(Default)]
pub(crate) struct Tasks {
    pub recs: RefCell<Vec<Rec>>,
    pub closing: Cell<bool>,
}
thread_local! {
    static TASKS: RefCell<Rc<Tasks>> = RefCell::new(Rc::new(Tasks::default()));
}
pub(crate) fn tasks() -> Rc<Tasks> {
    TASKS.with(|t| t.borrow().clone())
}
pub(crate) fn reset_tasks() {
    TASKS.with(|t| *t.borrow_mut() = Rc::new(Tasks::default()));
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst);
        rt::progress();
    }
}

/// Drive a future on the running model thread. `None`: the task was cancelled.
#[track_caller]
pub(crate) fn drive<F: Future>(f: F, in_poll: &Cell<bool>, abort: Option<&(AtomicBool, Mutex<Option<Waker>>)>) -> Option<F::Output> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    if let Some(a) = abort {
        *a.1.lock().unwrap() = Some(waker.clone());
    }
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    let mut spins = 0u32;
    loop {
        rt::point("task runs");
        if let Some(a) = abort {
            if a.0.load(SeqCst) {
                return None;
            }
            if tasks().closing.get() {
                rt::block("runtime is gone", None, None);
            }
        }
        flag.0.store(false, SeqCst);
        in_poll.set(true);
        let r = f.as_mut().poll(&mut cx);
        in_poll.set(false);
        match r {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {
                if flag.0.load(SeqCst) {
                    // woke itself: a cooperative yield
                    spins += 1;
                    rt::failed_try();
                    if !rt::has_exec() && spins > 100_000 {
                        std::panic::panic_any(rt::WouldHang("a future wakes itself for ever".into()));
                    }
                    continue;
                }
                let fl = flag.clone();
                rt::block("task waits", Some(Box::new(move || fl.0.load(SeqCst))), None);
            }
        }
    }
}

/// Drive a future to completion on the running thread.
#[track_caller]
pub fn block_on<F: Future>(f: F) -> F::Output {
    drive(f, &Cell::new(false), None).expect("not abortable")
}

/// See tokio.
pub struct JoinError {
    panic: Option<Mutex<Box<dyn Any + Send + 'static>>>,
}
impl JoinError {
    /// See tokio.
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    /// See tokio.
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    /// See tokio.
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.panic.expect("panicked").into_inner().unwrap()
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError")
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError")
    }
}
impl std::error::Error for JoinError {}

struct Packet<T> {
    v: Mutex<Option<Result<T, JoinError>>>,
    w: Mutex<Option<Waker>>,
    done: AtomicBool,
    abort: (AtomicBool, Mutex<Option<Waker>>),
}
/// See tokio.
pub struct JoinHandle<T> {
    p: Arc<Packet<T>>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
/// See tokio.
pub struct AbortHandle {
    f: Arc<dyn Fn() + Send + Sync>,
}
impl AbortHandle {
    /// See tokio.
    pub fn abort(&self) {
        (self.f)()
    }
}
impl<T> Packet<T> {
    fn abort(&self) {
        self.abort.0.store(true, SeqCst);
        let w = self.abort.1.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
    fn finish(&self, r: Result<T, JoinError>) {
        *self.v.lock().unwrap() = Some(r);
        self.done.store(true, SeqCst);
        rt::effect();
        let w = self.w.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<T> JoinHandle<T> {
    /// See tokio.
    pub fn abort(&self) {
        rt::point("task abort");
        self.p.abort()
    }
    /// See tokio.
    pub fn is_finished(&self) -> bool {
        rt::point("task is_finished");
        self.p.done.load(SeqCst)
    }
    /// See tokio.
    pub fn abort_handle(&self) -> AbortHandle
    where
        T: Send + 'static,
    {
        let p = self.p.clone();
        AbortHandle { f: Arc::new(move || p.abort()) }
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(v) = self.p.v.lock().unwrap().take() {
            return Poll::Ready(v);
        }
        *self.p.w.lock().unwrap() = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}

fn launch<T: 'static>(
    name: &str,
    blocking: bool,
    body: impl FnOnce(&Cell<bool>, &(AtomicBool, Mutex<Option<Waker>>)) -> Option<T> + 'static,
) -> JoinHandle<T> {
    let p = Arc::new(Packet {
        v: Mutex::new(None),
        w: Mutex::new(None),
        done: AtomicBool::new(false),
        abort: (AtomicBool::new(false), Mutex::new(None)),
    });
    let p2 = p.clone();
    let in_poll = Rc::new(Cell::new(false));
    let ip2 = in_poll.clone();
    let tid = rt::spawn(
        Some(name.to_string()),
        Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(|| body(&ip2, &p2.abort)));
            ip2.set(false);
            match r {
                Ok(Some(v)) => p2.finish(Ok(v)),
                Ok(None) => p2.finish(Err(JoinError { panic: None })),
                Err(e) => {
                    if rt::active() {
                        p2.finish(Err(JoinError { panic: Some(Mutex::new(Box::new("panicked"))) }));
                    }
                    resume_unwind(e)
                }
            }
        }),
    );
    let t = tasks();
    t.recs.borrow_mut().retain(|r| !r.done.get());
    t.recs.borrow_mut().push(Rec { tid, in_poll, blocking, done: rt::done_flag(tid) });
    JoinHandle { p }
}

/// See tokio.
#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    rt::point("task spawn");
    launch("task", false, move |ip, ab| drive(f, ip, Some(ab)))
}
/// See tokio.
#[track_caller]
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    rt::point("task spawn");
    launch("task", false, move |ip, ab| drive(f, ip, Some(ab)))
}
/// See tokio.
#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    rt::point("blocking task spawn");
    launch("blocking", true, move |_, _| Some(f()))
}
/// See tokio.
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}
/// See tokio.
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}

/// See tokio.
pub struct JoinSet<T> {
    hs: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> JoinSet<T> {
    /// See tokio.
    pub fn new() -> Self {
        JoinSet { hs: vec![] }
    }
    /// See tokio.
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) {
        self.hs.push(spawn(f));
    }
    /// See tokio.
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.hs.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.hs.len() {
                if let Poll::Ready(v) = Pin::new(&mut self.hs[i]).poll(cx) {
                    drop(self.hs.remove(i));
                    return Poll::Ready(Some(v));
                }
            }
            Poll::Pending
        })
        .await
    }
    /// See tokio.
    pub fn abort_all(&mut self) {
        for h in &self.hs {
            h.abort();
        }
    }
    /// See tokio.
    pub fn len(&self) -> usize {
        self.hs.len()
    }
    /// See tokio.
    pub fn is_empty(&self) -> bool {
        self.hs.is_empty()
    }
}
