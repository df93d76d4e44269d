//! The three servers, run whole (their own `main`) in an execution of the explorer, and clients.
use crate::engine::*;
use crate::http::{self, parse_response, Http, PORT};
use crate::lang::{self, Meaning};
use crate::model::*;
use server::analysis::InterpreterResponse;
use server::error::ServerError;
use std::cell::{Cell, RefCell};
use std::io::ErrorKind;
use std::rc::Rc;
use vstd::net::{self, Client, NetCfg};
use vstd::rt::{self, End, ExecCfg, PanicRecord};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Server {
    Simple,
    Multi,
    Async,
}
pub const SERVERS: [Server; 3] = [Server::Simple, Server::Multi, Server::Async];
pub const MS: u64 = 1_000_000;
pub const SECOND: u64 = 1_000_000_000;
/// How long a client waits before it gives up.
pub const PATIENCE: u64 = 20 * SECOND;

/// The running server process.
pub struct Process {
    pub tid: usize,
    ended: Rc<Cell<Option<u64>>>,
    left: Rc<RefCell<Vec<String>>>,
}
struct EndProcess(Rc<Cell<Option<u64>>>, Rc<RefCell<Vec<String>>>);
impl Drop for EndProcess {
    fn drop(&mut self) {
        if !rt::tearing_down() {
            self.0.set(Some(rt::peek_ns()));
            let me = rt::current_tid();
            let left = rt::live_threads().into_iter().filter(|t| t.0 != me && rt::parent_of(t.0) == me);
            *self.1.borrow_mut() = left.map(|t| format!("{} ({})", t.1, t.2)).collect();
            rt::end_process(false);
        }
    }
}
impl Process {
    /// Start a server and wait until it listens.
    pub fn start(kind: Server) -> Process {
        vstd::process::reset_exit();
        let ended = Rc::new(Cell::new(None));
        let e = ended.clone();
        let left = Rc::new(RefCell::new(vec![]));
        let l = left.clone();
        let tid = rt::spawn(
            Some("main".to_string()),
            Box::new(move || {
                rt::set_process_root(rt::current_tid());
                let _end = EndProcess(e, l);
                match kind {
                    Server::Simple => bins::simple_bin::__verif_main(),
                    Server::Multi => bins::multi_bin::__verif_main(),
                    Server::Async => bins::async_bin::__verif_main(),
                }
            }),
        );
        net::wait_listening(PORT, rt::peek_ns() + 10 * SECOND);
        Process { tid, ended, left }
    }
    /// Threads created by the main thread that had not ended when it returned.
    pub fn left(&self) -> Vec<String> {
        self.left.borrow().clone()
    }
    /// When the process ended.
    pub fn ended(&self) -> Option<u64> {
        if self.ended.get().is_none() && vstd::process::exited().is_some() {
            self.ended.set(Some(rt::peek_ns()));
        }
        self.ended.get()
    }
    /// Wait for the end of the process.
    pub fn wait_end(&self, limit: u64) -> Option<u64> {
        let e = self.ended.clone();
        rt::block(
            "the server process to end",
            Some(Box::new(move || e.get().is_some() || vstd::process::exited().is_some())),
            Some(rt::peek_ns() + limit),
        );
        self.ended()
    }
    /// Threads of the server that are still there.
    pub fn threads(&self) -> Vec<(usize, String, String)> {
        rt::live_threads().into_iter().filter(|t| t.0 != 0 && self.owns(t.0)).collect()
    }
    fn owns(&self, mut t: usize) -> bool {
        loop {
            if t == self.tid {
                return true;
            }
            if t == 0 {
                return false;
            }
            t = rt::parent_of(t);
        }
    }
}

/// What a client experienced.
#[derive(Clone, Debug, Default)]
pub struct Answer {
    /// Nobody listened.
    pub refused: bool,
    pub bytes: Vec<u8>,
    pub accepted: bool,
    /// The server closed the connection.
    pub closed: bool,
    pub t0: u64,
    pub t1: u64,
}
impl Answer {
    /// The reply, if there is a proper one.
    pub fn http(&self) -> Result<Http, String> {
        if self.refused {
            return Err("connection refused".into());
        }
        if self.bytes.is_empty() {
            return Err(if self.closed { "closed without a reply".into() } else { "no reply in time".to_string() });
        }
        let h = parse_response(&self.bytes)?;
        if !self.closed {
            return Err("replied, but the connection stays open".into());
        }
        Ok(h)
    }
    /// Status and decoded payload.
    pub fn reply(&self) -> Result<(u16, Result<InterpreterResponse, ServerError>), String> {
        let h = self.http()?;
        if h.status == 200 {
            match serde_json::from_slice::<InterpreterResponse>(&h.body) {
                Ok(r) => Ok((200, Ok(r))),
                Err(e) => Err(format!("the payload {:?} does not decode: {}", String::from_utf8_lossy(&h.body), e)),
            }
        } else {
            let t = String::from_utf8_lossy(&h.body).to_string();
            Ok((h.status, Err(ServerError::InternalError(t))))
        }
    }
    /// Does the reply agree with the reference?
    pub fn agrees(&self, want: &Rep) -> Result<(), String> {
        let (status, r) = self.reply()?;
        let ok = match want {
            Rep::Err(c) => status == *c,
            Rep::Either(w) => status == 422 || (status == 200 && w.is(&r)),
            w => status == 200 && w.is(&r),
        };
        if ok {
            Ok(())
        } else {
            Err(format!("got {}, expected {:?}", self.shown(), want))
        }
    }
    pub fn shown(&self) -> String {
        match self.http() {
            Ok(h) => format!("{} {}", h.status, lang::shown(&String::from_utf8_lossy(&h.body))),
            Err(e) => e,
        }
    }
}

/// How a client ends its part.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Then {
    /// Waits for the reply.
    Read,
    /// Closes its sending side, then waits for the reply.
    Finish,
    /// Closes without reading the reply.
    Close,
    /// Resets the connection after sending.
    Reset,
    /// Resets; the server never sees the bytes.
    ResetUnread,
    /// Keeps the connection open and says nothing more.
    Hold,
}
/// A step of a sequential scenario.
#[derive(Clone, Debug)]
pub enum Step {
    /// A well-formed request; no user: no user name header.
    Ask { user: Option<String>, query: String },
    /// Bytes in fragments with pauses in between.
    Raw { parts: Vec<(Vec<u8>, u64)>, then: Then },
    Gap(u64),
    AcceptError(ErrorKind),
}
impl Step {
    pub fn ask(user: &str, query: &str) -> Step {
        Step::Ask { user: Some(user.into()), query: query.into() }
    }
    pub fn raw(b: &[u8], then: Then) -> Step {
        Step::Raw { parts: vec![(b.to_vec(), 0)], then }
    }
}

pub fn request_bytes(user: Option<&str>, query: &str) -> Vec<u8> {
    let body = serde_json::json!({ "query": query }).to_string();
    let mut h: Vec<(&str, &[u8])> = vec![("Host", b"localhost:7878"), ("Content-Type", b"application/json")];
    if let Some(u) = user {
        h.push(("Username", u.as_bytes()));
    }
    h.push(("Content-Length", b"CL"));
    http::build("", "POST / HTTP/1.1", &h, query, body.as_bytes(), b"").bytes
}

fn finish(c: &Client, t0: u64, wait: u64) -> Answer {
    let rec = c.recv_all(Some(rt::peek_ns() + wait));
    Answer { refused: false, bytes: rec.bytes, accepted: rec.accepted, closed: rec.closed, t0, t1: rt::peek_ns() }
}
/// Run one step as a client; `None` for steps without an answer. Held connections are kept.
pub fn act(s: &Step, held: &mut Vec<Client>) -> Option<Answer> {
    let t0 = rt::peek_ns();
    let gone = Answer { refused: true, t0, t1: t0, ..Answer::default() };
    match s {
        Step::Ask { user, query } => {
            let Some(c) = net::connect(PORT) else { return Some(gone) };
            c.send(&request_bytes(user.as_deref(), query));
            Some(finish(&c, t0, PATIENCE))
        }
        Step::Raw { parts, then } => {
            let Some(c) = net::connect(PORT) else { return Some(gone) };
            if *then == Then::ResetUnread {
                c.reset();
                return Some(finish(&c, t0, PATIENCE));
            }
            for (b, gap) in parts {
                if *gap > 0 {
                    rt::sleep(*gap);
                }
                c.send(b);
            }
            match then {
                Then::Read => {}
                Then::Finish => c.finish(),
                Then::Close => c.close(),
                Then::Reset => c.reset(),
                Then::Hold => {
                    held.push(c);
                    return Some(Answer { t0, t1: rt::peek_ns(), ..Answer::default() });
                }
                Then::ResetUnread => unreachable!(),
            }
            Some(finish(&c, t0, PATIENCE))
        }
        Step::Gap(n) => {
            rt::sleep(*n);
            None
        }
        Step::AcceptError(e) => {
            net::inject_accept_error(PORT, *e);
            None
        }
    }
}

/// A scenario that was played.
#[derive(Debug, Default)]
pub struct Played {
    pub answers: Vec<Option<Answer>>,
    pub end: Option<End>,
    pub panics: Vec<PanicRecord>,
    pub process_end: Option<u64>,
    pub time: u64,
    pub steps: u64,
    pub trouble: Option<String>,
    pub trace: Vec<String>,
    /// Bound port at the end?
    pub listening: bool,
}
/// Play a sequential scenario; `linger`: wait this long for the end of the process afterwards.
pub fn play(kind: Server, script: &[Step], linger: u64, net_cfg: NetCfg, trace: bool) -> Played {
    net::reset(net_cfg);
    rt::set_rng(rt::RngMode::Rotate(0));
    let out = Rc::new(RefCell::new(Played::default()));
    let o = out.clone();
    let script = script.to_vec();
    let cfg = ExecCfg {
        preempt: false,
        switch: false,
        sleep_quantum: 100 * MS,
        max_steps: 5_000_000,
        trace,
        ..ExecCfg::default()
    };
    let res = rt::run_exec(cfg, move || {
        let p = Process::start(kind);
        let mut held = vec![];
        for s in &script {
            let a = act(s, &mut held);
            o.borrow_mut().answers.push(a);
        }
        let e = if linger > 0 { p.wait_end(linger) } else { p.ended() };
        let mut o = o.borrow_mut();
        o.process_end = e;
        o.listening = net::is_listening(PORT);
        o.time = rt::peek_ns();
    });
    net::reset(NetCfg::default());
    let mut p = std::mem::take(&mut *out.borrow_mut());
    p.end = Some(res.end);
    p.steps = res.steps;
    p.panics = res.panics;
    p.trace = res.trace;
    if res.end != End::Done {
        p.trouble = Some(match res.end {
            End::DriverPanic => format!("the harness panicked: {}", res.driver_panic.unwrap_or_default()),
            e => format!("{:?}: {}", e, res.blocked.join("; ")),
        });
    }
    p
}

/// Who a user name stands for: the expected refusal, or the level.
pub fn identity(user: Option<&str>) -> Result<Level, u16> {
    match user {
        None => Err(500),
        Some("admin") => Ok(Level::Admin),
        Some("write") => Ok(Level::Write),
        Some("read") => Ok(Level::Read),
        Some("unauthenticated") => Err(403),
        Some(_) => Err(401),
    }
}
/// The reference's reply to a well-formed request; `None` if the query may be read either way.
pub fn expected(m: &mut Model, user: Option<&str>, query: &str) -> Option<Rep> {
    let level = match identity(user) {
        Err(c) => return Some(Rep::Err(c)),
        Ok(l) => l,
    };
    match lang::meaning(query) {
        (_, true) => None,
        (Meaning::Bad(_), _) => Some(Rep::Err(422)),
        (Meaning::Ops(ops), _) => Some(m.request(&ops, level)),
    }
}
/// The replies the reference allows, with the states after them.
pub fn alternatives(m: &Model, user: Option<&str>, query: &str) -> Option<Vec<(Rep, Model)>> {
    let level = match identity(user) {
        Err(c) => return Some(vec![(Rep::Err(c), m.clone())]),
        Ok(l) => l,
    };
    match lang::meaning(query) {
        (_, true) => None,
        (Meaning::Bad(_), _) => Some(vec![(Rep::Err(422), m.clone())]),
        (Meaning::Ops(ops), _) => Some(m.request_alternatives(&ops, level)),
    }
}
/// Check the answers to the `Ask` steps of a scenario, in order. Returns true if a shutdown was
/// (to be) executed. Other steps have no effect on the data.
pub fn follow(r: &mut Run, kind: Server, script: &[Step], p: &Played, m: &mut Model) -> bool {
    let mut down = false;
    for (i, s) in script.iter().enumerate() {
        let (Step::Ask { user, query }, Some(Some(a))) = (s, p.answers.get(i)) else { continue };
        m.now = a.t0 as u128;
        let shown = format!("{:?} server, request {} of {:?} by {:?}", kind, i, short(script), user);
        r.log(|| format!("{}: {}", shown, a.shown()));
        if down {
            // may be refused or dropped, but not answered wrongly: nothing is promised
            continue;
        }
        let Some(mut wanted) = alternatives(m, user.as_deref(), query) else { continue };
        r.transitions(1);
        let (want, after) = match wanted.iter().position(|w| a.agrees(&w.0).is_ok()) {
            Some(i) => wanted.swap_remove(i),
            None => {
                let e = a.agrees(&wanted[0].0).expect_err("tried");
                r.violate("reply", format!("{}: {}", shown, e));
                return down;
            }
        };
        *m = after;
        r.outcome(&want.class());
        if want == Rep::Shutdown {
            down = true;
        }
    }
    down
}
/// A scenario in a few words.
pub fn short(script: &[Step]) -> Vec<String> {
    script
        .iter()
        .map(|s| match s {
            Step::Ask { user, query } => format!("{}: {}", user.as_deref().unwrap_or("(nobody)"), lang::shown(query)),
            Step::Raw { parts, then } => {
                let all: Vec<u8> = parts.iter().flat_map(|p| p.0.clone()).collect();
                format!("raw {} in {} parts, then {:?}", lang::shown(&String::from_utf8_lossy(&all)), parts.len(), then)
            }
            s => format!("{:?}", s),
        })
        .collect()
}
