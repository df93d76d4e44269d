//! Synchronisation; operations are scheduling points.
pub use real_tokio::sync::*;
use vstd::rt;

/// See tokio.
#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized>(real_tokio::sync::Mutex<T>);
impl<T> Mutex<T> {
    /// See tokio.
    pub fn new(t: T) -> Self {
        Mutex(real_tokio::sync::Mutex::new(t))
    }
    /// See tokio.
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    /// See tokio.
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        rt::point("async mutex lock");
        let g = self.0.lock().await;
        rt::effect();
        g
    }
    /// See tokio.
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        rt::point("async mutex try_lock");
        let r = self.0.try_lock();
        if r.is_err() {
            rt::failed_try();
        }
        r
    }
}

/// Channels.
pub mod mpsc {
    pub use real_tokio::sync::mpsc::error;
    use error::{SendError, TryRecvError, TrySendError};
    use real_tokio::sync::mpsc as real;
    use std::fmt;
    use std::task::{Context, Poll};
    use vstd::rt;

    /// See tokio.
    pub struct Sender<T>(real::Sender<T>);
    /// See tokio.
    pub struct Receiver<T>(real::Receiver<T>);
    /// See tokio.
    pub struct UnboundedSender<T>(real::UnboundedSender<T>);
    /// See tokio.
    pub struct UnboundedReceiver<T>(real::UnboundedReceiver<T>);
    /// See tokio.
    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
        let (a, b) = real::channel(n);
        (Sender(a), Receiver(b))
    }
    /// See tokio.
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let (a, b) = real::unbounded_channel();
        (UnboundedSender(a), UnboundedReceiver(b))
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for UnboundedSender<T> {
        fn clone(&self) -> Self {
            UnboundedSender(self.0.clone())
        }
    }
    impl<T> Sender<T> {
        /// See tokio.
        pub async fn send(&self, v: T) -> Result<(), SendError<T>> {
            rt::point("channel send");
            let r = self.0.send(v).await;
            rt::effect();
            r
        }
        /// See tokio.
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            rt::point("channel try_send");
            let r = self.0.try_send(v);
            if r.is_ok() {
                rt::effect();
            } else {
                rt::failed_try();
            }
            r
        }
        /// See tokio.
        pub fn blocking_send(&self, v: T) -> Result<(), SendError<T>> {
            crate::task::block_on(self.send(v))
        }
        /// See tokio.
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
        /// See tokio.
        pub async fn closed(&self) {
            self.0.closed().await
        }
        /// See tokio.
        pub fn capacity(&self) -> usize {
            self.0.capacity()
        }
        /// See tokio.
        pub async fn reserve(&self) -> Result<real::Permit<'_, T>, SendError<()>> {
            rt::point("channel reserve");
            self.0.reserve().await
        }
    }
    impl<T> UnboundedSender<T> {
        /// See tokio.
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            rt::point("channel send");
            let r = self.0.send(v);
            rt::effect();
            r
        }
        /// See tokio.
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
    }
    macro_rules! receiver {
        ($n:ident) => {
            impl<T> $n<T> {
                /// See tokio.
                pub async fn recv(&mut self) -> Option<T> {
                    rt::point("channel recv");
                    let r = self.0.recv().await;
                    rt::effect();
                    r
                }
                /// See tokio.
                pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                    rt::point("channel try_recv");
                    let r = self.0.try_recv();
                    if r.is_ok() {
                        rt::effect();
                    } else {
                        rt::failed_try();
                    }
                    r
                }
                /// See tokio.
                pub fn blocking_recv(&mut self) -> Option<T> {
                    crate::task::block_on(self.recv())
                }
                /// See tokio.
                pub fn close(&mut self) {
                    self.0.close()
                }
                /// See tokio.
                pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                    self.0.poll_recv(cx)
                }
            }
            impl<T> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str("Receiver")
                }
            }
        };
    }
    receiver!(Receiver);
    receiver!(UnboundedReceiver);
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> fmt::Debug for UnboundedSender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("UnboundedSender")
        }
    }
}

/// Channels for one value.
pub mod oneshot {
    pub use real_tokio::sync::oneshot::error;
    use real_tokio::sync::oneshot as real;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use vstd::rt;
    /// See tokio.
    #[derive(Debug)]
    pub struct Sender<T>(real::Sender<T>);
    /// See tokio.
    #[derive(Debug)]
    pub struct Receiver<T>(real::Receiver<T>);
    /// See tokio.
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let (a, b) = real::channel();
        (Sender(a), Receiver(b))
    }
    impl<T> Sender<T> {
        /// See tokio.
        pub fn send(self, v: T) -> Result<(), T> {
            rt::point("oneshot send");
            let r = self.0.send(v);
            rt::effect();
            r
        }
        /// See tokio.
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
    }
    impl<T> Receiver<T> {
        /// See tokio.
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            rt::point("oneshot try_recv");
            let r = self.0.try_recv();
            if r.is_err() {
                rt::failed_try();
            }
            r
        }
        /// See tokio.
        pub fn close(&mut self) {
            self.0.close()
        }
        /// See tokio.
        pub fn blocking_recv(self) -> Result<T, error::RecvError> {
            crate::task::block_on(self)
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            rt::point("oneshot recv");
            Pin::new(&mut self.0).poll(cx)
        }
    }
}
