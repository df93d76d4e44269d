//! Runtimes.
use crate::task;
use std::future::Future;
use std::io;
use std::rc::Rc;
use std::time::Duration;
use vstd::rt;

/// See tokio.
#[derive(Debug, Default)]
pub struct Builder;
impl Builder {
    /// See tokio.
    pub fn new_multi_thread() -> Builder {
        Builder
    }
    /// See tokio.
    pub fn new_current_thread() -> Builder {
        Builder
    }
    /// See tokio.
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    /// See tokio.
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    /// See tokio.
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    /// See tokio.
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    /// See tokio.
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    /// See tokio.
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    /// See tokio.
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    /// See tokio.
    pub fn build(&mut self) -> io::Result<Runtime> {
        task::reset_tasks();
        Ok(Runtime { wait_blocking: true })
    }
}
/// See tokio.
#[derive(Debug)]
pub struct Runtime {
    wait_blocking: bool,
}
impl Runtime {
    /// See tokio.
    pub fn new() -> io::Result<Runtime> {
        Builder.build()
    }
    /// See tokio.
    #[track_caller]
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        task::block_on(f)
    }
    /// See tokio.
    pub fn spawn<F>(&self, f: F) -> task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        task::spawn(f)
    }
    /// See tokio.
    pub fn handle(&self) -> &Handle {
        &Handle
    }
    /// See tokio.
    pub fn shutdown_background(mut self) {
        self.wait_blocking = false;
    }
    /// See tokio.
    pub fn shutdown_timeout(mut self, _: Duration) {
        self.wait_blocking = false;
    }
}
impl Drop for Runtime {
    /// No task starts another poll; those in the middle of one finish it; then all are gone.
    fn drop(&mut self) {
        if !rt::active() || std::thread::panicking() {
            return;
        }
        let t = task::tasks();
        t.closing.set(true);
        let t2: Rc<task::Tasks> = t.clone();
        let wait_blocking = self.wait_blocking;
        rt::block(
            "tasks to reach an await",
            Some(Box::new(move || {
                t2.recs.borrow().iter().all(|r| r.done.get() || if r.blocking { !wait_blocking } else { !r.in_poll.get() })
            })),
            None,
        );
        for r in t.recs.borrow().iter() {
            if !r.done.get() {
                rt::kill(r.tid);
            }
        }
    }
}
/// See tokio.
#[derive(Clone, Debug)]
pub struct Handle;
impl Handle {
    /// See tokio.
    pub fn current() -> Handle {
        Handle
    }
    /// See tokio.
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        task::block_on(f)
    }
    /// See tokio.
    pub fn spawn<F>(&self, f: F) -> task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        task::spawn(f)
    }
    /// See tokio.
    pub fn spawn_blocking<F, R>(&self, f: F) -> task::JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        task::spawn_blocking(f)
    }
}
