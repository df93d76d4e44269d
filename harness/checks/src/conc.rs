//! Concurrent clients against the multithreaded and the asynchronous server, all schedules within a
//! deviation bound (C19-C21, C23, and the concurrent parts of C16-C18).
use crate::engine::*;
use crate::model::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vstd::net::{self, Client, NetCfg};
use vstd::rt::{self, End, ExecCfg, Kind};

macro_rules! concat_70 {
    ($a:expr, $z:expr) => {
        concat!($a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $a, $z)
    };
}

/// A request of a concurrent client.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ask {
    pub user: Option<&'static str>,
    pub query: String,
}
pub fn by(user: &'static str, query: &str) -> Ask {
    Ask { user: Some(user), query: query.into() }
}
fn w(query: &str) -> Ask {
    by("write", query)
}

/// How the clients behave.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    /// Everything is sent before the server runs.
    Burst,
    /// Every client is a thread of its own.
    Threads,
}
/// How a client sends its requests.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pace {
    Whole,
    /// In two parts, cut at this many percent of the bytes, with a pause.
    Cut(usize, u64),
    /// So many percent of the bytes, and then gone.
    Leave(usize, Then),
    /// Everything, and then gone: the request may or may not be executed.
    Gone(Then),
}
#[derive(Clone, Debug)]
pub struct Scene {
    pub kind: Server,
    pub before: Vec<Step>,
    /// Per client its requests, one after the other. (Burst: only the first of each.)
    pub clients: Vec<Vec<Ask>>,
    pub after: Vec<Step>,
    pub mode: Mode,
    /// Polling sleeps last at least this long.
    pub quantum: u64,
    /// How long a thread may be held up.
    pub hold: u64,
    /// Time-outs of the workers are to be expected.
    pub lenient: bool,
    /// Let time run ahead at (bounded) arbitrary points.
    pub slip: bool,
    /// A shutdown is part of it: wait for the end of the process.
    pub stops: bool,
    /// The clients start no earlier than this (virtual time since the server was started).
    pub settle: u64,
    /// Per client how it sends (missing: all at once). Only for `Mode::Threads`.
    pub pace: Vec<Pace>,
    /// Transfers accept and deliver at most this many bytes at once (0: no limit).
    pub chunk: usize,
}
impl Scene {
    pub fn new(kind: Server, before: &[&str], clients: Vec<Vec<Ask>>, after: &[&str]) -> Scene {
        Scene {
            kind,
            before: before.iter().inspect(|q| assert!(matches!(crate::lang::meaning(q), (crate::lang::Meaning::Ops(_), false)), "{}", q)).map(|q| Step::ask("write", q)).collect(),
            clients,
            after: after.iter().map(|q| Step::ask("read", q)).collect(),
            mode: Mode::Burst,
            quantum: MS,
            hold: 30 * MS,
            lenient: false,
            slip: false,
            stops: false,
            settle: 0,
            pace: vec![],
            chunk: 0,
        }
    }
    /// Polling takes this long, and a thread may be held up for a few polls.
    fn polls(&mut self, quantum: u64) {
        self.quantum = quantum;
        self.hold = (30 * MS).max(quantum + 50 * MS);
        self.lenient = self.hold > 400 * MS;
    }
}

/// One request as it went.
#[derive(Clone, Debug)]
pub struct Op1 {
    pub ask: Ask,
    pub client: usize,
    pub inv: u64,
    pub ret: u64,
    pub answer: Answer,
}
#[derive(Debug, Default)]
pub struct Seen {
    pub before: Vec<Option<Answer>>,
    pub ops: Vec<Op1>,
    pub after: Vec<Option<Answer>>,
    pub process_end: Option<u64>,
    /// If the process goes on in spite of a request to stop: the trace of that request's execution.
    pub mark: Option<Answer>,
    pub shutdown_at: Option<u64>,
    /// Threads made by the main thread that were alive when it returned.
    pub left: Vec<String>,
    pub stuck: Option<String>,
}

/// Play a scene once.
pub fn stage(s: &Scene, trace: bool) -> (Seen, rt::ExecResult) {
    net::reset(NetCfg { max_read: s.chunk, max_write: s.chunk, ..NetCfg::default() });
    rt::set_rng(rt::RngMode::Rotate(0));
    let seen = Rc::new(RefCell::new(Seen::default()));
    let o = seen.clone();
    let s2 = s.clone();
    let cfg = ExecCfg {
        sleep_quantum: if s.settle > 0 { s.quantum.max(100 * MS) } else { s.quantum },
        time_slip: s.slip,
        hold: s.hold,
        window_open: false,
        max_steps: 2_000_000,
        trace,
        ..ExecCfg::default()
    };
    let res = rt::run_exec(cfg, move || {
        let s = s2;
        let born = rt::peek_ns();
        let p = Process::start(s.kind);
        let mut held = vec![];
        for b in &s.before {
            let a = act(b, &mut held);
            o.borrow_mut().before.push(a);
        }
        if s.settle > 0 {
            // coarse polling while nothing happens
            for (left, q) in [(1100 * MS, SECOND), (60 * MS, 50 * MS), (0, s.quantum)] {
                rt::set_quantum(q.max(s.quantum));
                let until = (born + s.settle).saturating_sub(left);
                if rt::peek_ns() < until {
                    rt::block("the window", None, Some(until));
                }
            }
        }
        let clock = Rc::new(Cell::new(0u64));
        let tick = {
            let c = clock.clone();
            move || {
                c.set(c.get() + 1);
                c.get()
            }
        };
        let gone = |t0: u64| Answer { refused: true, t0, t1: t0, ..Answer::default() };
        match s.mode {
            Mode::Burst => {
                let cs: Vec<(usize, Ask, u64, Option<Client>)> = s
                    .clients
                    .iter()
                    .enumerate()
                    .map(|(i, c)| {
                        let a = c[0].clone();
                        let k = net::connect(http_port());
                        if let Some(k) = &k {
                            k.send(&request_bytes(a.user, &a.query));
                        }
                        (i, a, rt::peek_ns(), k)
                    })
                    .collect();
                rt::set_window(true);
                for (i, ask, t0, k) in cs {
                    let answer = match k {
                        None => gone(t0),
                        Some(k) => receive(&k, t0),
                    };
                    o.borrow_mut().ops.push(Op1 { ask, client: i, inv: 0, ret: u64::MAX, answer });
                }
            }
            Mode::Threads => {
                let mut flags = vec![];
                for (i, c) in s.clients.iter().enumerate() {
                    let (c, o, tick) = (c.clone(), o.clone(), tick.clone());
                    let pace = s.pace.get(i).copied().unwrap_or(Pace::Whole);
                    let t = rt::spawn(
                        Some(format!("client {}", i)),
                        Box::new(move || {
                            for ask in c {
                                let inv = tick();
                                let t0 = rt::peek_ns();
                                let bytes = request_bytes(ask.user, &ask.query);
                                let answer = match (net::connect(http_port()), pace) {
                                    (None, _) => Answer { refused: true, t0, t1: t0, ..Answer::default() },
                                    (Some(k), Pace::Whole) => {
                                        k.send(&bytes);
                                        receive(&k, t0)
                                    }
                                    (Some(k), Pace::Cut(at, gap)) => {
                                        let (x, y) = bytes.split_at(bytes.len() * at / 100);
                                        k.send(x);
                                        rt::sleep(gap);
                                        k.send(y);
                                        receive(&k, t0)
                                    }
                                    (Some(k), Pace::Leave(..) | Pace::Gone(..)) => {
                                        let (at, then) = match pace {
                                            Pace::Leave(at, then) => (at, then),
                                            Pace::Gone(then) => (100, then),
                                            _ => unreachable!(),
                                        };
                                        k.send(&bytes[..bytes.len() * at / 100]);
                                        match then {
                                            Then::Finish => k.finish(),
                                            Then::Reset => k.reset(),
                                            _ => k.close(),
                                        }
                                        receive(&k, t0)
                                    }
                                };
                                let ret = tick();
                                o.borrow_mut().ops.push(Op1 { ask, client: i, inv, ret, answer });
                            }
                        }),
                    );
                    flags.push(rt::done_flag(t));
                }
                rt::set_window(true);
                let late = rt::block(
                    "all clients",
                    Some(Box::new(move || flags.iter().all(|f| f.get()))),
                    Some(rt::peek_ns() + 10 * PATIENCE),
                );
                if late {
                    o.borrow_mut().stuck = Some("a client did not finish".into());
                }
            }
        }
        if s.stops {
            let e = p.wait_end(120 * SECOND);
            o.borrow_mut().process_end = e;
            o.borrow_mut().left = p.left();
            rt::set_window(false);
            if e.is_none() {
                let a = act(&Step::ask("read", "try_get mark"), &mut held);
                o.borrow_mut().mark = a;
            }
        } else {
            rt::set_window(false);
            for b in &s.after {
                let a = act(b, &mut held);
                o.borrow_mut().after.push(a);
            }
            o.borrow_mut().process_end = p.ended();
        }
    });
    net::reset(NetCfg::default());
    let seen = std::mem::take(&mut *seen.borrow_mut());
    (seen, res)
}
fn http_port() -> u16 {
    crate::http::PORT
}
fn receive(k: &Client, t0: u64) -> Answer {
    let rec = k.recv_all(Some(rt::peek_ns() + PATIENCE));
    Answer { refused: false, bytes: rec.bytes, accepted: rec.accepted, closed: rec.closed, t0, t1: rt::peek_ns() }
}

/// Is there an order of the requests, consistent with real time, that explains all replies?
/// `optional[i]`: the request may or may not have taken effect, at any time after its start.
fn linearizable(m0: &Model, ops: &[Op1], optional: &[bool], end: &dyn Fn(&Model) -> bool) -> bool {
    fn go(m: &Model, ops: &[Op1], optional: &[bool], used: &mut Vec<bool>, end: &dyn Fn(&Model) -> bool) -> bool {
        if (0..ops.len()).all(|i| used[i] || optional[i]) && end(m) {
            return true;
        }
        for i in 0..ops.len() {
            if used[i] {
                continue;
            }
            // nobody unfinished may have returned before this one was called
            if (0..ops.len()).any(|j| j != i && !used[j] && !optional[j] && ops[j].ret < ops[i].inv) {
                continue;
            }
            let Some(alts) = alternatives(m, ops[i].ask.user, &ops[i].ask.query) else { continue };
            for (want, after) in alts {
                if optional[i] || ops[i].answer.agrees(&want).is_ok() {
                    used[i] = true;
                    if go(&after, ops, optional, used, end) {
                        return true;
                    }
                    used[i] = false;
                }
            }
        }
        false
    }
    go(m0, ops, optional, &mut vec![false; ops.len()], end)
}

fn describe(s: &Scene, seen: &Seen) -> String {
    let before = if s.before.is_empty() { String::new() } else { format!("after {:?}, ", short(&s.before)) };
    let ops: Vec<String> = seen
        .ops
        .iter()
        .map(|o| format!("client {} {}: {:?} -> {}", o.client, o.ask.user.unwrap_or("(nobody)"), o.ask.query, o.answer.shown()))
        .collect();
    let after: Vec<String> = seen.after.iter().flatten().map(|a| a.shown()).collect();
    format!("{:?} server, {}{}; then {:?} -> {:?}", s.kind, before, ops.join(", "), short(&s.after), after)
}

/// The status of a reply, if there is one.
fn status(a: &Answer) -> Option<u16> {
    a.http().ok().map(|h| h.status)
}

/// Play a scene and judge it.
pub fn judge(r: &mut Run, s: &Scene) -> Option<Seen> {
    let (seen, res) = stage(s, r.verbose);
    r.transitions(res.steps);
    if r.verbose {
        r.log.extend(res.trace.iter().cloned());
        r.log.push(describe(s, &seen));
    }
    let text = || describe(s, &seen);
    if let Some(x) = res.panics.first() {
        r.violate("panic", format!("{} panicked: {} ({})", x.name, x.message, text()));
        return None;
    }
    if res.end != End::Done {
        let why = match res.end {
            End::DriverPanic => format!("the harness panicked: {}", res.driver_panic.unwrap_or_default()),
            e => format!("{:?}: {}", e, res.blocked.join("; ")),
        };
        r.violate("hang", format!("{} ({})", why, text()));
        return None;
    }
    if let Some(t) = &seen.stuck {
        r.violate("hang", format!("{} ({})", t, text()));
        return None;
    }
    // the state before the concurrent part
    let mut m = Model::default();
    for (st, a) in s.before.iter().zip(&seen.before) {
        let (Step::Ask { user, query }, Some(a)) = (st, a) else { continue };
        m.now = a.t0 as u128;
        if let Some(want) = expected(&mut m, user.as_deref(), query) {
            if let Err(e) = a.agrees(&want) {
                r.violate("reply", format!("before the concurrent part, {}: {} ({})", query, e, text()));
                return None;
            }
        }
    }
    // nothing expires between the first request and the last answer
    m.now = seen.ops.iter().map(|o| o.answer.t0).min().unwrap_or(0) as u128;
    let mut optional = vec![];
    let mut kept = vec![];
    for o in &seen.ops {
        match s.pace.get(o.client) {
            Some(Pace::Leave(..)) => continue,
            Some(Pace::Gone(..)) => {
                kept.push(o.clone());
                optional.push(true);
                continue;
            }
            _ => {}
        }
        match status(&o.answer) {
            Some(500) if (s.slip || s.lenient) && expected(&mut m.clone(), o.ask.user, &o.ask.query) != Some(Rep::Err(500)) => {
                // the workers were (made to be) too slow
                r.count("timed-out replies under clock slips", 1);
                kept.push(o.clone());
                optional.push(true);
            }
            Some(_) if o.answer.closed => {
                kept.push(o.clone());
                optional.push(false);
            }
            _ if s.stops => {
                // not served any more; its effects must not have been seen by anybody
                r.count("requests dropped by the shutdown", 1);
                if !o.answer.closed && !o.answer.refused && seen.process_end.is_some() {
                    r.violate("open", format!("a connection outlives the server ({})", text()));
                    return None;
                }
                if let Err(e) = o.answer.http() {
                    if !o.answer.bytes.is_empty() {
                        r.violate("torn", format!("{} ({})", e, text()));
                        return None;
                    }
                }
            }
            _ => {
                r.violate("no-reply", format!("{}: {} ({})", o.ask.query, o.answer.http().err().unwrap_or_default(), text()));
                return None;
            }
        }
    }
    let end = |m: &Model| {
        let mut m = m.clone();
        s.after.iter().zip(&seen.after).all(|(st, a)| {
            let (Step::Ask { user, query }, Some(a)) = (st, a) else { return true };
            m.now = a.t0 as u128;
            match expected(&mut m, user.as_deref(), query) {
                Some(want) => a.agrees(&want).is_ok(),
                None => true,
            }
        })
    };
    if !linearizable(&m, &kept, &optional, &end) {
        r.violate("not-atomic", format!("no order of the requests explains the replies: {}", text()));
        return None;
    }
    let shut = kept.iter().any(|o| matches!(o.answer.reply(), Ok((200, Ok(server::analysis::InterpreterResponse::ShuttingDown)))));
    if s.stops && shut && seen.process_end.is_none() {
        r.violate("not-stopped", format!("the process is still running 120 s after the shutdown ({})", text()));
        return None;
    }
    if seen.mark.as_ref().is_some_and(|a| a.agrees(&Rep::Value(Val::Int(4711))).is_ok()) {
        r.violate("not-stopped", format!("the process is still running 120 s after the shutdown was executed, without its requester being told ({})", text()));
        return None;
    }
    if s.stops && seen.process_end.is_some() && !shut {
        // who asked for it?
        let someone = kept.iter().zip(&optional).any(|(o, p)| *p && o.ask.query.contains("shutdown"));
        if !someone {
            r.violate("requester", format!("the server stopped, but nobody was told so ({})", text()));
            return None;
        }
    }
    if !s.stops && seen.process_end.is_some() {
        r.violate("stopped", format!("the process ended ({})", text()));
        return None;
    }
    if s.stops && seen.process_end.is_some() && !seen.left.is_empty() {
        r.violate("left", format!("threads still there when main returned: {} ({})", seen.left.join(", "), text()));
        return None;
    }
    let mut replies: Vec<String> = seen.ops.iter().map(|o| format!("{}={}", o.client, o.answer.shown())).collect();
    replies.sort();
    r.outcome(&replies.join(" ").chars().take(160).collect::<String>());
    let mut order: Vec<u64> = vec![hash64(&(short(&s.before), s.kind))];
    order.extend(seen.ops.iter().map(|o| hash64(&(o.client, o.inv, o.ret, o.answer.shown()))));
    order.extend(seen.after.iter().flatten().map(|a| hash64(&a.shown())));
    r.distinct(hash64(&order));
    r.state(hash64(&(order, res.steps, res.threads)));
    if r.wants_sample() {
        r.sample(format!("{} ({} steps, {} threads)", text(), res.steps, res.threads));
    }
    Some(seen)
}

/// Seventy statements that read `a`, and then change it depending on what was there.
const LONG_READ: &str = concat_70!("ex a;", "del a; try_set a 3; upd a 4; get a");
const LONG_WRITE: &str = concat_70!("upd a 6;", "get a; upd b 7; get a");
/// Pairs of requests whose interleaving, loss or mix-up shows.
fn duels() -> Vec<(Vec<&'static str>, &'static str, &'static str, Vec<&'static str>)> {
    vec![
        (vec![], "set a 1; get a", "set a 2; get a", vec!["get a"]),
        (vec![], "try_set a 1", "try_set a 2", vec!["get a"]),
        (vec![], "set a 1; set b 1; set a 3", "get b; get a", vec!["get a", "get b"]),
        (vec!["set v int []"], "vpush v 1; vlen v", "vpush v 2; vlen v", vec!["get v"]),
        (vec!["set v int [1,2]"], "vpop v", "vpop v; vpop v", vec!["get v"]),
        (vec!["set a 1"], "del a; try_set a 2", "try_set a 3; get a", vec!["try_get a"]),
        (vec!["set m str int {\"x\":1}"], "mdel m \"x\"; mlen m", "mset m \"y\" 2; mlen m", vec!["get m"]),
        (vec!["set a 1"], "del a", "upd a 5", vec!["ex a"]),
        (vec!["set a 1; set b 2"], "set a 5; get nokey; set b 5", "set b 7; set a 7; get a", vec!["get a", "get b"]),
        (vec!["set a \"first\"; set b \"second\""], "get a", "get b", vec![]),
        (vec!["set a 1"], "get a; bogus", "set a \"x\"; type a", vec!["type a"]),
        // long ones
        (
            vec!["set v int []"],
            "vpush v 1; vpush v 1; vpush v 1; vpush v 1; vpush v 1; vpush v 1; vpush v 1; vpush v 1; vpush v 1; vlen v",
            "vpush v 2; vpush v 2; vpush v 2; vpush v 2; vpush v 2; vpush v 2; vpush v 2; vpush v 2; vpush v 2; vlen v",
            vec!["get v"],
        ),
        (vec!["set a 1"], LONG_READ, "set a 5; set b 5; get a", vec!["get a", "get b"]),
        (vec!["set a 1; set b 1"], LONG_READ, LONG_WRITE, vec!["get a", "get b"]),
    ]
}
/// Sets of three clients.
fn trios() -> Vec<(Vec<&'static str>, Vec<Ask>, Vec<&'static str>)> {
    vec![
        (vec![], vec![w("set a 1; get a"), w("set a 2; get a"), w("set a 3; get a")], vec!["get a"]),
        (vec!["set v int []"], vec![w("vpush v 1; vlen v"), w("vpush v 2; vlen v"), w("vpush v 3; vlen v")], vec!["get v"]),
        (vec!["set k 0"], vec![by("read", "set k 1"), by("write", "set k 2"), by("admin", "get k")], vec!["get k"]),
        (vec!["set k 0"], vec![by("bob", "set k 1"), by("write", "bogus"), by("read", "get k")], vec!["get k"]),
        (vec!["set k 0"], vec![by("unauthenticated", "set k 1"), Ask { user: None, query: "set k 2".into() }, by("write", "set k 3; get k")], vec!["get k"]),
        (vec![], vec![w("try_set a 1"), w("try_set a 2"), w("try_set a 3")], vec!["get a"]),
    ]
}
/// Who the two clients of a duel are.
const ROLES: [(&str, &str); 3] = [("write", "write"), ("admin", "write"), ("write", "admin")];
fn scene_by(kind: Server, d: &(Vec<&'static str>, &'static str, &'static str, Vec<&'static str>), roles: (&'static str, &'static str)) -> Scene {
    Scene::new(kind, &d.0, vec![vec![by(roles.0, d.1)], vec![by(roles.1, d.2)]], &d.3)
}
fn scene(kind: Server, d: &(Vec<&'static str>, &'static str, &'static str, Vec<&'static str>)) -> Scene {
    scene_by(kind, d, ROLES[0])
}
fn schedules(n: u32) -> Budget {
    Budget::of(n, &[(Kind::Preempt, n), (Kind::Switch, n)])
}
fn slips(n: u32, t: u32) -> Budget {
    Budget::of(n, &[(Kind::Preempt, n), (Kind::Switch, n), (Kind::Time, t)])
}

/// What happens to expired and unexpired keys while the sweeper is at work.
fn expirings() -> Vec<(Vec<&'static str>, Vec<Ask>, Vec<&'static str>)> {
    vec![
        (vec!["set a 1 1; set b 2"], vec![w("try_get a; try_set a 5; get a"), by("read", "get b")], vec!["try_get a", "get b"]),
        (vec!["set a 1 1; set b 2 1"], vec![w("set a 7; ex b"), w("try_set b 8 1000; get b")], vec!["get a", "get b"]),
        (vec!["set v int [1] 1"], vec![w("vpush v 1"), w("try_set v int [2]; vpush v 3")], vec!["try_get v"]),
        (vec!["set a 1 1; set b 1 1000; set c 1"], vec![w("del b; set b 2"), w("upd c 3; upd a 4")], vec!["get b", "get c", "ex a"]),
        (vec!["set a 1 1; set b 1 1; set c 1 1"], vec![w("set d 1 1; get d"), w("set c 2 1000; del d")], vec!["try_get a", "get c"]),
    ]
}
/// Requests that coincide with the sweeper's work.
pub fn sweeping(kind: Server, n: u32) -> Lane {
    Lane::new("sweeping", schedules(n), move |r: &mut Run| {
        let all = expirings();
        let d = &all[pick(all.len())];
        let mut s = Scene::new(kind, &d.0, d.1.iter().map(|a| vec![a.clone()]).collect(), &d.2);
        s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
        s.settle = match kind {
            Server::Multi => *pick_from(&[4999 * MS, 5000 * MS, 5001 * MS]),
            _ => *pick_from(&[4999 * MS, 5000 * MS]),
        };
        judge(r, &s);
    })
}

fn atomic(kind: Server, q: bool) -> Vec<Lane> {
    let mut v = vec![
        Lane::new("duels", schedules(1), move |r: &mut Run| {
            let all = duels();
            let d = &all[pick(all.len())];
            let mut s = scene_by(kind, d, *pick_from(&ROLES));
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            s.polls(*pick_from(&[MS, 300 * MS]));
            judge(r, &s);
        }),
        Lane::new("trios", schedules(1), move |r: &mut Run| {
            let all = trios();
            let d = &all[pick(all.len())];
            let mut s = Scene::new(kind, &d.0, d.1.iter().map(|a| vec![a.clone()]).collect(), &d.2);
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            s.polls(*pick_from(&[MS, 300 * MS]));
            judge(r, &s);
        }),
        Lane::new("sessions", schedules(1), move |r: &mut Run| {
            // each client asks twice
            let mut s = Scene::new(
                kind,
                &["set a 0; set b 0"],
                vec![vec![w("set a 1"), by("read", "get b")], vec![w("set b 1"), by("read", "get a")]],
                &["get a", "get b"],
            );
            s.mode = Mode::Threads;
            s.polls(*pick_from(&[MS, 300 * MS]));
            judge(r, &s);
        }),
        Lane::new("alone", schedules(1), move |r: &mut Run| {
            // one request after the other: whoever takes it, it sees what came before
            let n = if q { 5 } else { 7 };
            let reads = ["get a", "ex a; get a", "vlen v"];
            let read = *pick_from(&reads);
            let asks = (0..n)
                .map(|i| match (flag(), read) {
                    (false, _) => by("read", read),
                    (true, "vlen v") => w("vpush v 1"),
                    _ => w(&format!("set a {}", i + 1)),
                })
                .collect();
            let mut s = Scene::new(kind, &["set a 0; set v int []"], vec![asks], &["get a", "vlen v"]);
            s.mode = Mode::Threads;
            judge(r, &s);
        }),
        Lane::new("duels-2", schedules(2), move |r: &mut Run| {
            let all = duels();
            let d = &all[*pick_from(if q { &[0usize, 9][..] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10][..] })];
            let mut s = scene(kind, d);
            s.mode = Mode::Burst;
            judge(r, &s);
        }),
        Lane::new("slow", slips(if q { 1 } else { 2 }, 2), move |r: &mut Run| {
            let all = duels();
            let d = &all[pick(all.len())];
            let mut s = scene(kind, d);
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            s.polls(SECOND);
            s.slip = true;
            judge(r, &s);
        }),
        Lane::new("many", schedules(1), move |r: &mut Run| {
            // more clients than workers
            let n = 5;
            let clients = (0..n).map(|i| vec![w(&format!("vpush v {}; vlen v", i))]).collect();
            let mut s = Scene::new(kind, &["set v int []"], clients, &["get v", "vlen v"]);
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            judge(r, &s);
        }),
    ];
    v.push(sweeping(kind, if q { 1 } else { 2 }));
    v.push(Lane::new("paces", schedules(1), move |r: &mut Run| {
        let all = duels();
        let d = &all[*pick_from(&[0usize, 4, 8])];
        let mut s = scene(kind, d);
        s.mode = Mode::Threads;
        let at = *pick_from(&[0usize, 30, 60, 99]);
        let slow = |gap| Pace::Cut(at, gap);
        s.pace = match pick(6) {
            0 => vec![slow(MS)],
            1 => vec![slow(1100 * MS), Pace::Whole],
            2 => vec![slow(3 * SECOND), slow(SECOND)],
            3 => vec![Pace::Leave(at, *pick_from(&[Then::Close, Then::Finish, Then::Reset])), Pace::Whole],
            4 => vec![Pace::Leave(at, *pick_from(&[Then::Close, Then::Reset])), slow(20 * MS)],
            _ => vec![Pace::Gone(*pick_from(&[Then::Close, Then::Finish, Then::Reset])), if at < 50 { Pace::Whole } else { slow(20 * MS) }],
        };
        if s.pace.iter().any(|p| matches!(p, Pace::Cut(_, gap) if *gap >= SECOND)) {
            s.quantum = 100 * MS;
        }
        judge(r, &s);
    }));
    if !q {
        v.push(Lane::new("duels-threads-2", schedules(2), move |r: &mut Run| {
            let all = duels();
            let d = &all[pick(all.len())];
            let mut s = scene(kind, d);
            s.mode = Mode::Threads;
            judge(r, &s);
        }));
        v.push(Lane::new("trios-2", schedules(2), move |r: &mut Run| {
            let all = trios();
            let d = &all[pick(all.len())];
            let s = Scene::new(kind, &d.0, d.1.iter().map(|a| vec![a.clone()]).collect(), &d.2);
            judge(r, &s);
        }));
        v.push(Lane::new("duels-3", schedules(3), move |r: &mut Run| {
            let all = duels();
            let d = &all[*pick_from(&[0usize, 9])];
            judge(r, &scene(kind, d));
        }));
    }
    v
}
pub fn c19(q: bool) -> Vec<Lane> {
    atomic(Server::Multi, q)
}
pub fn c21(q: bool) -> Vec<Lane> {
    let kind = Server::Async;
    let mut v = atomic(kind, q);
    for l in &mut v {
        // tasks have few scheduling points
        match l.name.as_str() {
            "sweeping" | "many" => l.budget = schedules(if q { 2 } else { 3 }),
            "slow" => l.budget = slips(if q { 2 } else { 3 }, 2),
            n if n.ends_with("-2") || n.ends_with("-3") => l.budget = schedules(if q { 3 } else { 5 }),
            _ => l.budget = schedules(if q { 2 } else { 4 }),
        }
    }
    v
}

/// A shutdown that leaves a trace if it was executed and the server goes on.
const MARKED: &str = "set mark 4711; shutdown";
/// Shutdowns with company.
fn endings() -> Vec<Vec<Ask>> {
    let stop = || by("admin", MARKED);
    vec![
        vec![by("admin", "shutdown")],
        vec![stop()],
        vec![stop(), w("set a 1; get a")],
        vec![w("set a 1; get a"), stop()],
        vec![stop(), stop()],
        vec![by("admin", "set a 1; shutdown; set a 2"), by("read", "try_get a")],
        vec![by("write", "shutdown"), stop()],
        vec![w("bogus"), stop()],
        vec![by("bob", "get a"), stop()],
        vec![w("set a 1"), by("read", "try_get a"), stop()],
        vec![stop(), w("set a 1"), w("set a 2; get a")],
    ]
}
/// Shutdowns of the asynchronous server.
pub fn async_endings(q: bool) -> Vec<Lane> {
    let kind = Server::Async;
    vec![
        Lane::new("async-endings", schedules(if q { 2 } else { 3 }), move |r: &mut Run| {
            let all = endings();
            let c = &all[pick(all.len())];
            let mut s = Scene::new(kind, &[], c.iter().map(|a| vec![a.clone()]).collect(), &[]);
            s.stops = true;
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            s.settle = *pick_from(&[0, 950 * MS]);
            s.hold = *pick_from(&[30 * MS, 1200 * MS]);
            judge(r, &s);
        }),
        Lane::new("async-endings-slow", slips(2, 1), move |r: &mut Run| {
            let all = endings();
            let c = &all[pick(all.len())];
            let mut s = Scene::new(kind, &[], c.iter().map(|a| vec![a.clone()]).collect(), &[]);
            s.stops = true;
            s.slip = true;
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            judge(r, &s);
        }),
    ]
}
pub fn c20(q: bool) -> Vec<Lane> {
    let kind = Server::Multi;
    let ending = move |c: &Vec<Ask>| {
        let mut s = Scene::new(kind, &[], c.iter().map(|a| vec![a.clone()]).collect(), &[]);
        s.stops = true;
        s.polls(500 * MS);
        s
    };
    let mut v = vec![
        Lane::new("endings", schedules(1), move |r: &mut Run| {
            let all = endings();
            let mut s = ending(&all[pick(all.len())]);
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            s.polls(*pick_from(&[250 * MS, SECOND]));
            // the sweeper's work is at different points
            s.settle = *pick_from(&[0, 4500 * MS]);
            judge(r, &s);
        }),
        Lane::new("slow", slips(1, 1), move |r: &mut Run| {
            let all = endings();
            let mut s = ending(&all[pick(all.len())]);
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            s.slip = true;
            s.settle = *pick_from(&[0, 4500 * MS]);
            judge(r, &s);
        }),
        Lane::new("endings-2", schedules(2), move |r: &mut Run| {
            let all = endings();
            let s = ending(&all[*pick_from(if q { &[0usize][..] } else { &[0, 1, 2, 3, 8][..] })]);
            judge(r, &s);
        }),
    ];
    if !q {
        v.push(Lane::new("slow-2", slips(2, 2), move |r: &mut Run| {
            let all = endings();
            let mut s = ending(&all[*pick_from(&[0usize, 1, 2, 8])]);
            s.slip = true;
            judge(r, &s);
        }));
    }
    v
}

const WHO: [Option<&str>; 6] = [Some("admin"), Some("write"), Some("read"), None, Some("unauthenticated"), Some("bob")];
/// Requests of different users at the same time: everyone keeps to their own identity.
pub fn identities(kind: Server, q: bool) -> Vec<Lane> {
    let name = format!("together-{:?}", kind).to_lowercase();
    let n = match kind {
        Server::Async => if q { 2 } else { 3 },
        _ => 1,
    };
    let mut v = vec![Lane::new(&name, schedules(n), move |r: &mut Run| {
        let a = Ask { user: *pick_from(&WHO), query: (*pick_from(&["set k 2; get k", "get k"])).into() };
        let b = Ask { user: *pick_from(&WHO), query: (*pick_from(&["set k 3; get k", "get k"])).into() };
        let mut s = Scene::new(kind, &["set k 1"], vec![vec![a], vec![b]], &["get k"]);
        s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
        judge(r, &s);
    })];
    if !q {
        v.push(Lane::new(&format!("{}-3", name), schedules(n), move |r: &mut Run| {
            let ask = |x: &str| vec![Ask { user: *pick_from(&WHO), query: x.into() }];
            let clients = vec![ask("set k 2; get k"), ask("set k 3; get k"), ask("get k")];
            let mut s = Scene::new(kind, &["set k 1"], clients, &["get k"]);
            s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
            judge(r, &s);
        }));
    }
    v
}
/// Shutdowns, authorized or not, in the company of other requests: the server stops if and only if
/// one was executed.
pub fn shutdowns(kind: Server, q: bool) -> Lane {
    let name = format!("together-{:?}", kind).to_lowercase();
    Lane::new(&name, schedules(1), move |r: &mut Run| {
        let stopping = ["set mark 4711; shutdown", "get nokey; shutdown", "shutdown now", "shutdown"];
        let a = Ask { user: *pick_from(&WHO), query: (*pick_from(&stopping)).into() };
        let b = Ask { user: *pick_from(&WHO), query: (*pick_from(if q { &["get k", "set k 3; get k"][..] } else { &["get k", "set k 3; get k", "get nokey; shutdown", "bogus"] })).into() };
        let stops = [&a, &b].iter().any(|x| x.user == Some("admin") && x.query.contains("shutdown") && !x.query.contains("nokey") && !x.query.contains("now"));
        let mut s = Scene::new(kind, &["set k 1"], vec![vec![a], vec![b]], if stops { &[] } else { &["get k"] });
        s.stops = stops;
        if stops {
            s.polls(500 * MS);
        } else {
            s.settle = 0;
        }
        s.mode = *pick_from(&[Mode::Burst, Mode::Threads]);
        judge(r, &s);
    })
}
