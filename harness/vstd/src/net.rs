//! Modelled TCP: an in-memory network owned by the explorer thread, with scripted fragmentation,
//! end of stream, resets, short transfers and failing accepts.
pub use ::std::net::{
    AddrParseError, IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6, ToSocketAddrs,
};
use crate::rt::{self, Kind};
use ::std::cell::{Cell, RefCell};
use ::std::collections::{HashMap, VecDeque};
use ::std::fmt;
use ::std::io::{self, Read, Write};
use ::std::rc::Rc;
use ::std::task::Waker;
use ::std::time::Duration;

/// What the server's reads see, in order.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    /// Bytes that arrive together.
    Data(Vec<u8>),
    /// The client closed its sending side.
    Eof,
    /// Reading fails with this error.
    Err(io::ErrorKind),
}

/// What happens to writes once the client is gone.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Gone {
    No,
    /// The first write still seems to succeed.
    Closed { writes: u32 },
    Reset,
}

/// Fault options that apply to all sockets.
#[derive(Clone, Copy, Debug, Default)]
pub struct NetCfg {
    /// Writes may accept fewer bytes than offered (enumerated).
    pub short_write: bool,
    /// Reads may deliver fewer bytes than available (enumerated).
    pub short_read: bool,
    /// Reads and writes may fail (enumerated).
    pub io_error: bool,
    /// Reads deliver at most this much (0: no limit).
    pub max_read: usize,
    /// Writes accept at most this much (0: no limit).
    pub max_write: usize,
}

/// State of one connection.
pub struct Conn {
    /// Number of the connection.
    pub id: usize,
    inbound: VecDeque<Seg>,
    seg_pos: usize,
    outbound: Vec<u8>,
    sizes: Vec<usize>,
    /// The server shut down or dropped its side.
    server_done: bool,
    server_handles: usize,
    client_dropped: bool,
    gone: Gone,
    accepted: bool,
    eof_reads: u32,
    reads: u32,
    read_waker: Option<Waker>,
    broken_writes: u32,
    writes_after_done: u32,
}
type ConnRef = Rc<RefCell<Conn>>;

enum Pending {
    Conn(ConnRef),
    Fail(io::ErrorKind),
}
struct Listener {
    backlog: VecDeque<Pending>,
    handles: usize,
    waker: Option<Waker>,
    nonblocking: bool,
}
type ListenerRef = Rc<RefCell<Listener>>;

::std::thread_local! {
    static LISTENERS: RefCell<HashMap<u16, ListenerRef>> = RefCell::new(HashMap::new());
    static CONNS: RefCell<Vec<ConnRef>> = const { RefCell::new(Vec::new()) };
    static CFG: Cell<NetCfg> = const { Cell::new(NetCfg { short_write: false, short_read: false, io_error: false, max_read: 0, max_write: 0 }) };
    static EPHEMERAL: Cell<u16> = const { Cell::new(40000) };
}

/// Start with an empty network.
pub fn reset(cfg: NetCfg) {
    let a = LISTENERS.with(|l| ::std::mem::take(&mut *l.borrow_mut()));
    let b = CONNS.with(|c| ::std::mem::take(&mut *c.borrow_mut()));
    CFG.with(|c| c.set(cfg));
    EPHEMERAL.with(|e| e.set(40000));
    drop(a);
    drop(b);
}
/// Change the fault options.
pub fn set_cfg(cfg: NetCfg) {
    CFG.with(|c| c.set(cfg));
}
fn cfg() -> NetCfg {
    CFG.with(|c| c.get())
}
/// The server process is gone: its sockets are closed.
pub fn process_exit() {
    let ls: Vec<ListenerRef> = LISTENERS.with(|l| l.borrow_mut().drain().map(|(_, v)| v).collect());
    drop(ls);
    CONNS.with(|c| {
        for c in c.borrow().iter() {
            c.borrow_mut().server_done = true;
        }
    });
    rt::progress();
}
/// Is anybody listening on the port?
pub fn is_listening(port: u16) -> bool {
    LISTENERS.with(|l| l.borrow().contains_key(&port))
}
/// Wait until a server listens on the port; false if that never happens before the deadline.
pub fn wait_listening(port: u16, deadline: u64) -> bool {
    if is_listening(port) {
        return true;
    }
    !rt::block("a server to listen", Some(Box::new(move || is_listening(port))), Some(deadline))
}
/// The next accept fails with this error.
pub fn inject_accept_error(port: u16, e: io::ErrorKind) {
    let w = LISTENERS.with(|l| {
        l.borrow().get(&port).and_then(|l| {
            let mut l = l.borrow_mut();
            l.backlog.push_back(Pending::Fail(e));
            l.waker.take()
        })
    });
    rt::effect();
    if let Some(w) = w {
        w.wake();
    }
}

/// The client's end of a connection.
pub struct Client {
    c: ConnRef,
}
impl Drop for Client {
    fn drop(&mut self) {
        if let Ok(mut c) = self.c.try_borrow_mut() {
            c.client_dropped = true;
            if c.server_done {
                c.outbound = vec![];
            }
        }
    }
}
/// Connections the server has accepted and still holds.
pub fn held_by_server() -> usize {
    CONNS.with(|cs| cs.borrow().iter().filter(|c| c.borrow().server_handles > 0).count())
}
/// Bytes the records of this module take up for all connections there have been.
pub fn own_bytes() -> usize {
    use ::std::mem::size_of;
    CONNS.with(|cs| {
        let cs = cs.borrow();
        let one = |c: &Conn| {
            let waiting: usize = c.inbound.iter().map(|s| if let Seg::Data(b) = s { b.capacity() } else { 0 }).sum();
            2 * size_of::<usize>() + size_of::<RefCell<Conn>>() + c.inbound.capacity() * size_of::<Seg>() + waiting + c.outbound.capacity() + c.sizes.capacity() * size_of::<usize>()
        };
        cs.capacity() * size_of::<ConnRef>() + cs.iter().map(|c| one(&c.borrow())).sum::<usize>()
    })
}
/// What a client received.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Received {
    /// All bytes.
    pub bytes: Vec<u8>,
    /// The server closed the connection.
    pub closed: bool,
    /// Waiting was given up at the deadline.
    pub timed_out: bool,
    /// Sizes of the server's writes.
    pub writes: Vec<usize>,
    /// The connection had been accepted.
    pub accepted: bool,
}

/// Connect to a port; `None` if nobody listens.
#[track_caller]
pub fn connect(port: u16) -> Option<Client> {
    rt::point("client connect");
    let c = Rc::new(RefCell::new(Conn {
        id: CONNS.with(|c| c.borrow().len()),
        inbound: VecDeque::new(),
        seg_pos: 0,
        outbound: vec![],
        sizes: vec![],
        server_done: false,
        server_handles: 0,
        client_dropped: false,
        gone: Gone::No,
        accepted: false,
        eof_reads: 0,
        reads: 0,
        read_waker: None,
        broken_writes: 0,
        writes_after_done: 0,
    }));
    let w = LISTENERS.with(|l| {
        l.borrow().get(&port).map(|l| {
            let mut l = l.borrow_mut();
            l.backlog.push_back(Pending::Conn(c.clone()));
            l.waker.take()
        })
    })?;
    CONNS.with(|cs| cs.borrow_mut().push(c.clone()));
    rt::effect();
    if let Some(w) = w {
        w.wake();
    }
    Some(Client { c })
}

impl Client {
    fn push(&self, s: Seg) {
        let w = {
            let mut c = self.c.borrow_mut();
            c.inbound.push_back(s);
            c.read_waker.take()
        };
        rt::effect();
        if let Some(w) = w {
            w.wake();
        }
    }
    /// Send bytes that arrive together.
    #[track_caller]
    pub fn send(&self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        rt::point("client send");
        self.push(Seg::Data(b.to_vec()));
    }
    /// Queue a whole script without scheduling points in between.
    pub fn send_all(&self, segs: Vec<Seg>) {
        for s in segs {
            self.push(s);
        }
    }
    /// Close the sending side.
    #[track_caller]
    pub fn finish(&self) {
        rt::point("client shutdown");
        self.push(Seg::Eof);
    }
    /// Close both sides without waiting for the reply.
    #[track_caller]
    pub fn close(&self) {
        rt::point("client close");
        self.c.borrow_mut().gone = Gone::Closed { writes: 0 };
        self.push(Seg::Eof);
    }
    /// Abort the connection.
    #[track_caller]
    pub fn reset(&self) {
        rt::point("client reset");
        self.c.borrow_mut().gone = Gone::Reset;
        self.push(Seg::Err(io::ErrorKind::ConnectionReset));
    }
    /// The client's end is gone from the server's point of view for writing only.
    pub fn discard_replies(&self) {
        self.c.borrow_mut().gone = Gone::Closed { writes: 0 };
    }
    /// Wait until the server closed the connection or the deadline passes.
    #[track_caller]
    pub fn recv_all(&self, deadline: Option<u64>) -> Received {
        rt::point("client receive");
        let c = self.c.clone();
        let t = if self.c.borrow().server_done || !rt::has_exec() {
            !self.c.borrow().server_done
        } else {
            rt::block("client waits for the reply", Some(Box::new(move || c.borrow().server_done)), deadline)
        };
        let c = self.c.borrow();
        Received {
            bytes: c.outbound.clone(),
            closed: c.server_done,
            timed_out: t,
            writes: c.sizes.clone(),
            accepted: c.accepted,
        }
    }
    /// Number of reads the server made on this connection.
    pub fn server_reads(&self) -> u32 {
        self.c.borrow().reads
    }
    /// Is the connection closed by the server?
    pub fn is_closed(&self) -> bool {
        self.c.borrow().server_done
    }
    /// Was the connection accepted?
    pub fn is_accepted(&self) -> bool {
        self.c.borrow().accepted
    }
}

/// See `std::net::TcpListener`.
pub struct TcpListener {
    l: ListenerRef,
    port: u16,
}
// SAFETY: model threads of one execution share one OS thread.
unsafe impl Send for TcpListener {}
unsafe impl Sync for TcpListener {}

fn peer(id: usize) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 50000u16.wrapping_add(id as u16)))
}

impl TcpListener {
    /// See std.
    pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        let addr = a.to_socket_addrs()?.next().ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
        // only addresses of this machine can be bound; clients come to 127.0.0.1
        let ip = addr.ip();
        if !ip.is_unspecified() && !ip.is_loopback() {
            return Err(io::ErrorKind::AddrNotAvailable.into());
        }
        let mut port = addr.port();
        if port == 0 {
            port = EPHEMERAL.with(|e| {
                e.set(e.get() + 1);
                e.get()
            });
        }
        let l = Rc::new(RefCell::new(Listener { backlog: VecDeque::new(), handles: 1, waker: None, nonblocking: false }));
        let ok = LISTENERS.with(|ls| {
            let mut ls = ls.borrow_mut();
            if ls.contains_key(&port) {
                return false;
            }
            if ip.is_unspecified() || ip == IpAddr::V4(Ipv4Addr::LOCALHOST) {
                ls.insert(port, l.clone());
            }
            true
        });
        if !ok {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        rt::effect();
        Ok(TcpListener { l, port })
    }
    fn take(&self) -> Option<io::Result<(TcpStream, SocketAddr)>> {
        let p = self.l.borrow_mut().backlog.pop_front()?;
        rt::effect();
        Some(match p {
            Pending::Fail(k) => Err(k.into()),
            Pending::Conn(c) => {
                let id = {
                    let mut c = c.borrow_mut();
                    c.accepted = true;
                    c.server_handles = 1;
                    c.id
                };
                Ok((TcpStream::wrap(c), peer(id)))
            }
        })
    }
    /// See std.
    #[track_caller]
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        rt::point("accept");
        loop {
            if let Some(r) = self.take() {
                return r;
            }
            if self.l.borrow().nonblocking {
                rt::failed_try();
                return Err(io::ErrorKind::WouldBlock.into());
            }
            let l = self.l.clone();
            rt::block("a connection", Some(Box::new(move || !l.borrow().backlog.is_empty())), None);
        }
    }
    /// For the asynchronous runtime.
    pub fn poll_accept(&self, w: &Waker) -> Option<io::Result<(TcpStream, SocketAddr)>> {
        if let Some(r) = self.take() {
            return Some(r);
        }
        self.l.borrow_mut().waker = Some(w.clone());
        None
    }
    /// See std.
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming { l: self }
    }
    /// See std.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], self.port)))
    }
    /// See std.
    pub fn set_nonblocking(&self, n: bool) -> io::Result<()> {
        self.l.borrow_mut().nonblocking = n;
        Ok(())
    }
    /// See std.
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    /// See std.
    pub fn try_clone(&self) -> io::Result<TcpListener> {
        self.l.borrow_mut().handles += 1;
        Ok(TcpListener { l: self.l.clone(), port: self.port })
    }
    /// See std.
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let last = {
            let mut l = self.l.borrow_mut();
            l.handles -= 1;
            l.handles == 0
        };
        if last {
            LISTENERS.with(|ls| {
                let mut ls = ls.borrow_mut();
                let mine = ls.get(&self.port).map_or(false, |l| Rc::ptr_eq(l, &self.l));
                if mine {
                    ls.remove(&self.port);
                }
            });
            // connections nobody accepted are refused
            let mut l = self.l.borrow_mut();
            for p in l.backlog.drain(..) {
                if let Pending::Conn(c) = p {
                    c.borrow_mut().server_done = true;
                }
            }
            rt::progress();
        }
    }
}
impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpListener({})", self.port)
    }
}
/// See std.
pub struct Incoming<'a> {
    l: &'a TcpListener,
}
impl<'a> Iterator for Incoming<'a> {
    type Item = io::Result<TcpStream>;
    fn next(&mut self) -> Option<Self::Item> {
        Some(self.l.accept().map(|x| x.0))
    }
}

/// See `std::net::TcpStream` (the server's end).
pub struct TcpStream {
    c: ConnRef,
    read_timeout: Cell<Option<Duration>>,
    nonblocking: Cell<bool>,
}
// SAFETY: as above.
unsafe impl Send for TcpStream {}
unsafe impl Sync for TcpStream {}

const SPIN_LIMIT: u32 = 300;

impl TcpStream {
    fn wrap(c: ConnRef) -> TcpStream {
        TcpStream { c, read_timeout: Cell::new(None), nonblocking: Cell::new(false) }
    }
    fn ready(c: &Conn) -> bool {
        !c.inbound.is_empty()
    }
    /// A read that does not wait.
    pub fn try_read(&self, buf: &mut [u8]) -> Option<io::Result<usize>> {
        let mut c = self.c.borrow_mut();
        c.reads += 1;
        if cfg().io_error && rt::choose(Kind::IoError, 2) == 1 {
            return Some(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if buf.is_empty() {
            return Some(Ok(0));
        }
        let pos = c.seg_pos;
        match c.inbound.front() {
            None => {
                c.reads -= 1;
                None
            }
            Some(Seg::Eof) => {
                c.eof_reads += 1;
                let n = c.eof_reads;
                drop(c);
                if n > SPIN_LIMIT {
                    if rt::active() {
                        // a server that keeps reading at the end of the stream never gets anywhere
                        rt::wait_forever("spins reading at the end of a stream");
                    }
                    ::std::panic::panic_any(rt::WouldHang("reads at the end of the stream for ever".into()));
                }
                Some(Ok(0))
            }
            Some(Seg::Err(k)) => {
                let k = *k;
                c.eof_reads += 1;
                let n = c.eof_reads;
                drop(c);
                if n > SPIN_LIMIT {
                    if rt::active() {
                        rt::wait_forever("spins on a failing read");
                    }
                    ::std::panic::panic_any(rt::WouldHang("retries a failing read for ever".into()));
                }
                Some(Err(k.into()))
            }
            Some(Seg::Data(d)) => {
                let mut n = (d.len() - pos).min(buf.len());
                if cfg().max_read > 0 {
                    n = n.min(cfg().max_read);
                }
                if cfg().short_read && n > 1 {
                    let opts = [n, 1, n / 2 + n % 2];
                    n = opts[rt::choose(Kind::ShortRead, 3)];
                }
                buf[..n].copy_from_slice(&d[pos..pos + n]);
                if pos + n == d.len() {
                    c.inbound.pop_front();
                    c.seg_pos = 0;
                } else {
                    c.seg_pos = pos + n;
                }
                drop(c);
                rt::effect();
                Some(Ok(n))
            }
        }
    }
    /// For the asynchronous runtime.
    pub fn poll_read(&self, buf: &mut [u8], w: &Waker) -> Option<io::Result<usize>> {
        match self.try_read(buf) {
            Some(r) => Some(r),
            None => {
                self.c.borrow_mut().read_waker = Some(w.clone());
                None
            }
        }
    }
    /// A write (never waits: the client's window is unbounded).
    #[track_caller]
    pub fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        rt::point("socket write");
        let mut c = self.c.borrow_mut();
        if cfg().io_error && rt::choose(Kind::IoError, 2) == 1 {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        match c.gone {
            Gone::No => {}
            Gone::Closed { writes } => {
                c.gone = Gone::Closed { writes: writes + 1 };
                if writes > 0 {
                    c.broken_writes += 1;
                    let n = c.broken_writes;
                    drop(c);
                    Self::check_spin(n);
                    return Err(io::ErrorKind::BrokenPipe.into());
                }
            }
            Gone::Reset => {
                c.broken_writes += 1;
                let n = c.broken_writes;
                drop(c);
                Self::check_spin(n);
                return Err(io::ErrorKind::BrokenPipe.into());
            }
        }
        if buf.is_empty() {
            c.writes_after_done += 1;
            let n = c.writes_after_done;
            drop(c);
            Self::check_spin(n);
            return Ok(0);
        }
        let mut n = buf.len();
        if cfg().max_write > 0 {
            n = n.min(cfg().max_write);
        }
        if cfg().short_write && n > 1 {
            let mut opts = vec![n, 1, n / 2, n - 1];
            opts.retain(|x| *x > 0);
            opts.dedup();
            n = opts[rt::choose(Kind::ShortWrite, opts.len())].max(1);
        }
        if !c.server_done {
            c.outbound.extend_from_slice(&buf[..n]);
            c.sizes.push(n);
        }
        drop(c);
        rt::effect();
        Ok(n)
    }
    fn check_spin(n: u32) {
        if n > SPIN_LIMIT {
            if rt::active() {
                rt::wait_forever("spins on a failing write");
            }
            ::std::panic::panic_any(rt::WouldHang("retries a failing write for ever".into()));
        }
    }
    #[track_caller]
    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        rt::point("socket read");
        let deadline = self.read_timeout.get().map(crate::time::deadline_in);
        loop {
            if let Some(r) = self.try_read(buf) {
                return r;
            }
            if self.nonblocking.get() {
                rt::failed_try();
                return Err(io::ErrorKind::WouldBlock.into());
            }
            if !rt::has_exec() && deadline.is_some() {
                rt::passive_tick("reads with a timeout");
                return Err(io::ErrorKind::WouldBlock.into());
            }
            let c = self.c.clone();
            let t = rt::block("request bytes", Some(Box::new(move || Self::ready(&c.borrow()))), deadline);
            if t && self.c.borrow().inbound.is_empty() {
                return Err(io::ErrorKind::WouldBlock.into());
            }
        }
    }
    /// See std.
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        if how != Shutdown::Read {
            self.c.borrow_mut().server_done = true;
            rt::effect();
        }
        Ok(())
    }
    /// See std.
    #[track_caller]
    pub fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        rt::point("socket peek");
        loop {
            {
                let c = self.c.borrow();
                match c.inbound.front() {
                    Some(Seg::Data(d)) => {
                        let n = (d.len() - c.seg_pos).min(buf.len());
                        buf[..n].copy_from_slice(&d[c.seg_pos..c.seg_pos + n]);
                        return Ok(n);
                    }
                    Some(Seg::Eof) => return Ok(0),
                    Some(Seg::Err(k)) => return Err((*k).into()),
                    None => {}
                }
            }
            let c = self.c.clone();
            rt::block("request bytes", Some(Box::new(move || Self::ready(&c.borrow()))), None);
        }
    }
    /// See std.
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(peer(self.c.borrow().id))
    }
    /// See std.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 7878)))
    }
    /// See std.
    pub fn try_clone(&self) -> io::Result<TcpStream> {
        self.c.borrow_mut().server_handles += 1;
        Ok(TcpStream {
            c: self.c.clone(),
            read_timeout: Cell::new(self.read_timeout.get()),
            nonblocking: Cell::new(self.nonblocking.get()),
        })
    }
    /// See std.
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        if d == Some(Duration::ZERO) {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.read_timeout.set(d);
        Ok(())
    }
    /// See std.
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.read_timeout.get())
    }
    /// See std.
    pub fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    /// See std.
    pub fn set_nonblocking(&self, n: bool) -> io::Result<()> {
        self.nonblocking.set(n);
        Ok(())
    }
    /// See std.
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    /// See std.
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    /// See std.
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    /// See std.
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        let mut c = self.c.borrow_mut();
        c.server_handles -= 1;
        if c.server_handles == 0 && !rt::tearing_down() {
            c.server_done = true;
            // nobody reads these any more
            c.inbound.clear();
            c.seg_pos = 0;
            if c.client_dropped {
                c.outbound = vec![];
            }
            drop(c);
            rt::effect();
        }
    }
}
impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpStream({})", self.c.borrow().id)
    }
}
impl Read for TcpStream {
    #[track_caller]
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}
impl Read for &TcpStream {
    #[track_caller]
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}
impl Write for TcpStream {
    #[track_caller]
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.do_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &TcpStream {
    #[track_caller]
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.do_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
