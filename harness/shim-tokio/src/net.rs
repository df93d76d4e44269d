//! Simulated network.
use real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};
use vstd::net as vnet;
use vstd::rt;

pub use real_tokio::net::ToSocketAddrs as RealToSocketAddrs;

/// See tokio.
#[derive(Debug)]
pub struct TcpListener {
    l: vnet::TcpListener,
}
/// See tokio.
#[derive(Debug)]
pub struct TcpStream {
    s: vnet::TcpStream,
}
impl TcpListener {
    /// See tokio.
    pub async fn bind<A: std::net::ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        rt::point("bind");
        Ok(TcpListener { l: vnet::TcpListener::bind(a)? })
    }
    /// See tokio.
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        rt::point("accept");
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    /// See tokio.
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        match self.l.poll_accept(cx.waker()) {
            Some(r) => Poll::Ready(r.map(|(s, a)| (TcpStream { s }, a))),
            None => Poll::Pending,
        }
    }
    /// See tokio.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.l.local_addr()
    }
}
impl TcpStream {
    /// See tokio.
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.s.peer_addr()
    }
    /// See tokio.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.s.local_addr()
    }
    /// See tokio.
    pub fn set_nodelay(&self, n: bool) -> io::Result<()> {
        self.s.set_nodelay(n)
    }
    /// See tokio.
    pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
        self.s.do_write(b)
    }
    /// See tokio.
    pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
        rt::point("socket read");
        self.s.try_read(b).unwrap_or_else(|| Err(io::ErrorKind::WouldBlock.into()))
    }
    /// See tokio.
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let c = self.s.try_clone().expect("clone");
        (tcp::OwnedReadHalf(TcpStream { s: c }), tcp::OwnedWriteHalf(self))
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        rt::point("socket read");
        match self.s.poll_read(buf.initialize_unfilled(), cx.waker()) {
            Some(Ok(n)) => {
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
            Some(Err(e)) => Poll::Ready(Err(e)),
            None => Poll::Pending,
        }
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(self.s.do_write(b))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.s.shutdown(std::net::Shutdown::Write))
    }
}
/// Halves.
pub mod tcp {
    use super::*;
    /// See tokio.
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(super) TcpStream);
    /// See tokio.
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(super) TcpStream);
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_read(cx, b)
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.0).poll_write(cx, b)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.0).poll_shutdown(cx)
        }
    }
}
