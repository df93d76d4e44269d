//! Memory, threads and tasks follow what is stored and who is connected, not what happened (C26).
use crate::engine::*;
use crate::model::*;
use crate::seq::Pair;
use crate::sweep;
use crate::world::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vstd::net::{self, NetCfg};
use vstd::rt::{self, End, ExecCfg, RngMode};

const SEC: u64 = SECOND;
/// Rounds of a cycle; growth in the second half is followed up with more rounds, and only what still
/// goes on after the last of them is reported (a cache or a buffer of bounded size is no leak).
const ROUNDS: [usize; 3] = [16, 240, 2400];
const VISITS: [usize; 3] = [40, 200, 2000];
fn huge(c: char) -> String {
    std::iter::repeat(c).take(50_000).collect()
}

/// A step of a cycle; the number is that of the round.
#[derive(Clone, Copy, Debug)]
enum Part {
    Do(fn(&str, usize) -> Op),
    Tick(u64),
}
fn one(k: Val, v: Val) -> Val {
    let mut m = BTreeMap::new();
    m.insert(k, v);
    Val::Map(Kt::Str, Ct::Str, m)
}
fn a() -> String {
    "a".into()
}
/// Statements on one key, a key of a round, and texts `t`.
fn menu() -> Vec<(&'static str, Part)> {
    use Part::*;
    vec![
        ("set a T", Do(|t, _| Op::Set(a(), s(t), None))),
        ("set a T 1", Do(|t, _| Op::Set(a(), s(t), Some(1)))),
        ("try_set a T 1", Do(|t, _| Op::SetNew(a(), s(t), Some(1)))),
        ("upd a T 9", Do(|t, _| Op::Update(a(), s(t), Some(9)))),
        ("del a", Do(|_, _| Op::Delete(a()))),
        ("get a", Do(|_, _| Op::Get(a()))),
        ("lifetime a 1", Do(|_, _| Op::SetLife(a(), Some(1)))),
        ("lifetime a none", Do(|_, _| Op::SetLife(a(), None))),
        ("set a [T]", Do(|t, _| Op::Set(a(), Val::Vec(Ct::Str, vec![s(t)]), None))),
        ("push a T", Do(|t, _| Op::VPush(a(), s(t)))),
        ("pop a", Do(|_, _| Op::VPop(a()))),
        ("put a 0 T", Do(|t, _| Op::VSet(a(), 0, s(t)))),
        ("put a 7 T", Do(|t, _| Op::VSet(a(), 7, s(t)))),
        ("set a {e:T}", Do(|t, _| Op::Set(a(), one(s("e"), s(t)), None))),
        ("mset a e T", Do(|t, _| Op::MSet(a(), s("e"), s(t)))),
        ("mset a T 1", Do(|t, _| Op::MSet(a(), s(t), Val::Int(1)))),
        ("mset a <round> T", Do(|t, n| Op::MSet(a(), s(&format!("r{}", n)), s(t)))),
        ("mdel a <round>", Do(|_, n| Op::MDel(a(), s(&format!("r{}", n))))),
        ("mget a e", Do(|_, _| Op::MGet(a(), s("e")))),
        ("mget a T", Do(|t, _| Op::MGet(a(), s(t)))),
        ("set <round> T 1", Do(|t, n| Op::Set(format!("k{}", n), s(t), Some(1)))),
        ("try_set <round> T", Do(|t, n| Op::SetNew(format!("k{}", n), s(t), None))),
        ("del <round>", Do(|_, n| Op::Delete(format!("k{}", n)))),
        ("get <round>", Do(|_, n| Op::Get(format!("k{}", n)))),
        ("get T", Do(|t, _| Op::Get(t.to_string()))),
        ("sweep", Do(|_, _| Op::Sweep)),
        ("1.5 s pass", Tick(SEC + SEC / 2)),
    ]
}
/// Big texts a value needs.
fn weight(v: &Val) -> i64 {
    match v {
        Val::Str(x) => (x.starts_with('T')) as i64,
        Val::Vec(_, xs) => xs.iter().map(weight).sum(),
        Val::Map(_, _, m) => m.iter().map(|(k, v)| weight(k) + weight(v)).sum(),
        _ => 0,
    }
}
/// Big texts and entries the reference holds, those included that have expired and may still be there.
fn needed(m: &Model) -> (i64, i64) {
    (m.map.iter().map(|(k, e)| k.starts_with('T') as i64 + weight(&e.val)).sum(), m.map.values().map(|e| 1 + size(&e.val)).sum())
}
fn size(v: &Val) -> i64 {
    match v {
        Val::Vec(_, xs) => xs.len() as i64,
        Val::Map(_, _, m) => m.len() as i64,
        _ => 0,
    }
}

/// Repeats a cycle against the interpreter; what it keeps beyond what is stored must not grow.
fn cycle(r: &mut Run, first: Option<(&'static str, Part)>, steps: &[(&'static str, Part)], close: usize, level: Level, together: bool) {
    let names: Vec<&str> = steps.iter().map(|x| x.0).collect();
    let closers: [&[(&'static str, Part)]; 4] = [
        &[],
        &[("del a", Part::Do(|_, _| Op::Delete(a()))), ("del <round>", Part::Do(|_, n| Op::Delete(format!("k{}", n))))],
        &[("set a 1", Part::Do(|_, _| Op::Set(a(), Val::Int(1), None))), ("del <round>", Part::Do(|_, n| Op::Delete(format!("k{}", n))))],
        &[
            ("lifetime a 1", Part::Do(|_, _| Op::SetLife(a(), Some(1)))),
            ("lifetime <round> 1", Part::Do(|_, n| Op::SetLife(format!("k{}", n), Some(1)))),
            ("11 s pass", Part::Tick(11 * SEC)),
            ("sweep", Part::Do(|_, _| Op::Sweep)),
            ("sweep", Part::Do(|_, _| Op::Sweep)),
            ("sweep", Part::Do(|_, _| Op::Sweep)),
        ],
    ];
    let shown = format!("{}{:?} repeated as {:?}{}, each round closed by {:?}", first.map_or(String::new(), |f| format!("{:?}, then ", f.0)), names, level, if together { " in one request" } else { "" }, closers[close].iter().map(|x| x.0).collect::<Vec<_>>());
    let text = huge('x');
    rt::set_rng(RngMode::Rotate(0));
    let mut p = Pair::new();
    p.lifetimes = false;
    let start = (sweep::texts(), 0i64);
    sweep::reset_bytes();
    if let Some((_, Part::Do(f))) = first {
        send(r, &mut p, &[(f("", 0), f("", 0))], Level::Admin);
    }
    let mut tell: Vec<(i64, i64, i64, i64)> = vec![];
    let mut stage = 0;
    let mut n = 0;
    loop {
        let rounds = ROUNDS[stage];
        while n < rounds {
            let big = format!("T{}{}", n, text);
            let small = format!("T{}", n);
            let mut todo: Vec<(Op, Op)> = vec![];
            let closing = closers[close].iter();
            for (i, (_, st)) in steps.iter().chain(closing).enumerate() {
                let closing = i >= steps.len();
                match st {
                    Part::Tick(t) => {
                        if !todo.is_empty() {
                            send(r, &mut p, &todo, level);
                            todo.clear();
                        }
                        p.tick(*t);
                        p.now();
                    }
                    Part::Do(f) => {
                        todo.push((f(&big, n), f(&small, n)));
                        if !together || closing {
                            send(r, &mut p, &todo, if closing { Level::Admin } else { level });
                            todo.clear();
                        }
                    }
                }
                if i + 1 == steps.len() && !todo.is_empty() {
                    send(r, &mut p, &todo, level);
                    todo.clear();
                }
                if p.dead {
                    return;
                }
            }
            if close == 3 {
                // what the reference still holds of the expired entries has been swept, or is found below
                p.m.now = rt::peek_ns() as u128;
                if p.sys.len() == p.m.live_count() {
                    let now = p.m.now;
                    p.m.map.retain(|_, e| e.deadline.map_or(true, |d| now <= d));
                }
            }
            n += 1;
            let (need, entries) = needed(&p.m);
            tell.push((sweep::texts() - start.0, need, sweep::bytes(), entries));
        }
        // what is held beyond what is stored
        let over = |i: usize| tell[i].0 - tell[i].1;
        let from = rounds / 2;
        let grew = over(n - 1) - over(from);
        let steady = tell[from].3 == tell[n - 1].3 && tell[from].1 == tell[n - 1].1;
        let bytes = tell[n - 1].2 - tell[from].2;
        let many = (n - 1 - from) as i64;
        let texts = grew * 4 > many;
        if !texts && !(steady && bytes > many * 8) {
            break;
        }
        if stage == 2 {
            let what = if texts { format!("{} texts of 50 kB", grew) } else { format!("{} bytes", bytes) };
            return r.violate("growth", format!("{} more than what is stored needs are held after round {} than after round {} of {}", what, n, from + 1, shown));
        }
        stage += 1;
        r.count("cycles followed up", 1);
    }
    let last = tell[n - 1];
    r.transitions((n * steps.len()) as u64);
    r.distinct(hash64(&(first.map(|f| f.0), names.clone(), close, level as u8, together)));
    r.state(hash64(&(last.0, last.1, last.3, p.m.hash())));
    r.outcome(&format!("{} texts held, {} stored", last.0.min(9), last.1.min(9)));
    if r.wants_sample() {
        r.sample(format!("{}: {} texts held, {} needed, {} bytes", shown, last.0, last.1, last.2));
    }
}
/// A request to the real interpreter with the big texts, to the reference with short ones.
fn send(r: &mut Run, p: &mut Pair, ops: &[(Op, Op)], level: Level) {
    p.now();
    let small: Vec<Op> = ops.iter().map(|x| x.1.clone()).collect();
    let want = p.m.request(&small, level);
    let it = &mut p.sys.it;
    let got = sweep::counted(|| {
        let statements = ops.iter().map(|x| x.0.real()).collect();
        guard(move || it.interpret(server::analysis::InterpreterRequest { statements, authorization: level.real() }).is_ok())
    });
    match got {
        Err(e) => {
            p.dead = true;
            r.violate("panic", format!("{:?} panics: {}", small, e));
        }
        Ok(ok) => {
            if ok == want.is_err() && !matches!(want, Rep::Either(_)) {
                p.dead = true;
                r.violate("reply", format!("{:?} {}, expected {:?}", small, if ok { "succeeds" } else { "is refused" }, want));
            }
        }
    }
}

/// What the clients of one round do; `T` stands for a text of the round.
fn acts() -> Vec<(&'static str, fn(&str) -> Vec<crate::world::Step>)> {
    use crate::world::Step as S;
    fn w(q: String) -> S {
        S::ask("write", &q)
    }
    fn request(q: &str) -> Vec<u8> {
        request_bytes(Some("write"), q)
    }
    fn raw(b: &[u8], then: Then) -> S {
        S::raw(b, then)
    }
    vec![
        ("set, del", |t| vec![w(format!("set a \"{}\"", t)), w("del a".into())]),
        ("set, overwrite", |t| vec![w(format!("set a \"{}\"", t)), w("set a 1".into())]),
        ("set and del at once", |t| vec![w(format!("set a \"{}\"; del a", t))]),
        ("a key of its own", |t| vec![w(format!("set k{} \"{}\" 100000; del k{}", &t[..8], t, &t[..8]))]),
        ("push, pop", |t| vec![w("set v str []".into()), w(format!("vapp v \"{}\"", t)), w("vpop v".into())]),
        ("mset, mdel", |t| vec![w("set m str str {}".into()), w(format!("mset m \"{}\" \"{}\"", t, t)), w(format!("mdel m \"{}\"", t))]),
        ("read", |t| vec![w(format!("set a \"{}\"", t)), S::ask("read", "get a"), w("del a".into())]),
        ("refused by level", |t| vec![S::ask("read", &format!("set a \"{}\"", t))]),
        ("refused by name", |t| vec![S::ask("unauthenticated", &format!("set a \"{}\"", t)), S::ask("nobody", &format!("set a \"{}\"", t))]),
        ("no name", |t| vec![S::Ask { user: None, query: format!("set a \"{}\"", t) }]),
        ("long name", |t| vec![S::ask(t, "get a")]),
        ("not a query", |t| vec![w(format!("set \"{}\"", t)), w(format!("bogus {}", t)), w(format!("set a \"{}", t))]),
        ("no such key", |t| vec![w(format!("get {}", t))]),
        ("stopped half way", |t| vec![w(format!("get nothing; set a \"{}\"", t))]),
        ("not json", |t| vec![raw(&broken(&format!("{{\"query\": {}", t)), Then::Read)]),
        ("no query", |t| vec![raw(&broken(&format!("{{\"qwery\": \"{}\"}}", t)), Then::Read)]),
        ("half a body, then close", |t| vec![{ let b = request(&format!("set a \"{}\"", t)); raw(&b[..b.len() - 9], Then::Close) }]),
        ("half a body, then reset", |t| vec![{ let b = request(&format!("set a \"{}\"", t)); raw(&b[..b.len() - 9], Then::Reset) }]),
        ("half a body, then finish", |t| vec![{ let b = request(&format!("set a \"{}\"", t)); raw(&b[..b.len() - 9], Then::Finish) }]),
        ("bytes beyond the body", |t| vec![{ let mut b = request("get a"); b.extend(t.bytes()); raw(&b, Then::Read) }]),
        ("not http", |t| vec![raw(t.as_bytes(), Then::Finish)]),
        ("does not wait for the reply", |t| vec![w(format!("set a \"{}\"", t)), raw(&request("get a"), Then::Close), S::Gap(SEC / 5), w("del a".into())]),
        ("resets instead of reading", |t| vec![w(format!("set a \"{}\"", t)), raw(&request("get a"), Then::Reset), S::Gap(SEC / 5), w("del a".into())]),
        ("connects and leaves", |_| vec![raw(b"", Then::Close), raw(b"", Then::ResetUnread)]),
    ]
}
fn broken(body: &str) -> Vec<u8> {
    let h: Vec<(&str, &[u8])> = vec![("Host", b"localhost:7878"), ("Username", b"write"), ("Content-Length", b"CL")];
    crate::http::build("", "POST / HTTP/1.1", &h, "", body.as_bytes(), b"").bytes
}

#[derive(Default)]
struct Seen {
    tell: Vec<(i64, usize, usize, i64)>,
    refused: bool,
    ended: Option<u64>,
}
fn server_cycle(r: &mut Run, kind: Server, which: &[usize]) {
    let all = acts();
    let names: Vec<&str> = which.iter().map(|i| all[*i].0).collect();
    let scripts: Vec<fn(&str) -> Vec<crate::world::Step>> = which.iter().map(|i| all[*i].1).collect();
    let mut stage = 0;
    loop {
        let rounds = VISITS[stage];
        net::reset(NetCfg::default());
        rt::set_rng(RngMode::Rotate(0));
        let out = Rc::new(RefCell::new(Seen { tell: Vec::with_capacity(rounds + 1), ..Seen::default() }));
        let o = out.clone();
        let sc = scripts.clone();
        let cfg = ExecCfg { preempt: false, switch: false, sleep_quantum: 20 * MS, max_steps: 50_000_000, max_time: 36_000 * SEC, trace: r.verbose, ..ExecCfg::default() };
        sweep::reset_bytes();
        let res = sweep::counted(|| rt::run_exec(cfg, move || {
            let p = Process::start(kind);
            let fill = huge('x');
            let mut held = vec![];
            for n in 0..rounds {
                let t = format!("{:08}{}", n, fill);
                for f in &sc {
                    for s in f(&t) {
                        if let Some(a) = act(&s, &mut held) {
                            o.borrow_mut().refused |= a.refused;
                        }
                    }
                }
                drop(t);
                // let them finish
                rt::sleep(20 * MS);
                let threads = p.threads().len();
                o.borrow_mut().tell.push((sweep::texts(), threads, net::held_by_server(), sweep::bytes() - (rt::own_bytes() + net::own_bytes()) as i64));
            }
            rt::sleep(1200 * MS);
            let threads = p.threads().len();
            o.borrow_mut().tell.push((sweep::texts(), threads, net::held_by_server(), sweep::bytes() - (rt::own_bytes() + net::own_bytes()) as i64));
            o.borrow_mut().ended = p.ended();
        }));
        net::reset(NetCfg::default());
        let n = std::mem::take(&mut *out.borrow_mut());
        r.transitions(res.steps);
        if r.verbose {
            r.log.extend(res.trace.iter().map(|l| l.chars().take(300).collect()));
        }
        let text = format!("{:?} server, every round {:?}", kind, names);
        if let Some(x) = res.panics.first() {
            return r.violate("panic", format!("{} panicked: {} ({})", x.name, x.message, text));
        }
        if res.end != End::Done {
            return r.violate("hang", format!("{:?}: {} {} ({})", res.end, res.blocked.join("; "), res.driver_panic.unwrap_or_default(), text));
        }
        if n.ended.is_some() || n.refused {
            return r.violate("stopped", format!("the server stopped serving ({})", text));
        }
        r.log(|| format!("{}: {:?}", text, n.tell));
        let from = n.tell[rounds / 2];
        let (last, end) = (n.tell[rounds - 1], n.tell[rounds]);
        let many = (rounds - 1 - rounds / 2) as i64;
        let texts = (last.0 - from.0).min(end.0 - from.0);
        let threads = (last.1 as i64 - from.1 as i64).min(end.1 as i64 - from.1 as i64);
        let conns = (last.2 as i64 - from.2 as i64).min(end.2 as i64 - from.2 as i64);
        let bytes = last.3 - from.3;
        if texts * 4 > many || threads * 4 > many || conns * 4 > many || bytes > many * 12 {
            // (threads are dear: they are not followed up to the end)
            if stage == 0 || stage == 1 && threads * 4 <= many {
                stage += 1;
                r.count("cycles followed up", 1);
                continue;
            }
            return r.violate(
                "growth",
                format!("{} texts of 50 kB, {} threads or tasks, {} connections and {} bytes in all more are held after round {} than after round {} although nothing is stored ({})", texts, threads, conns, bytes, rounds, rounds / 2 + 1, text),
            );
        }
        r.distinct(hash64(&(kind, names.clone())));
        r.state(hash64(&(kind, names.clone(), (last.0, last.1, last.2))));
        r.outcome(&format!("{:?}: {} threads", kind, end.1));
        if r.wants_sample() {
            r.sample(format!("{}: texts, threads, connections and bytes {:?}, then {:?}", text, from, last));
        }
        return;
    }
}

pub fn c26(q: bool) -> Vec<Lane> {
    vec![
        Lane::new("cycles of statements", Budget::free(), move |r: &mut Run| {
            let m = menu();
            let n = if q { 3 } else { 4 };
            let steps: Vec<_> = (0..n).map(|_| m[pick(m.len())]).collect();
            let close = pick(4);
            cycle(r, None, &steps, close, Level::Admin, false);
        }),
        Lane::new("cycles on what is there", Budget::free(), move |r: &mut Run| {
            // something that stays while the cycle is repeated
            let first = *pick_from(&[
                ("set a []", Part::Do(|_, _| Op::Set(a(), Val::Vec(Ct::Str, vec![]), None))),
                ("set a [s,s] 100000", Part::Do(|_, _| Op::Set(a(), Val::Vec(Ct::Str, vec![s("s"), s("s")]), Some(100_000)))),
                ("set a {}", Part::Do(|_, _| Op::Set(a(), Val::Map(Kt::Str, Ct::Str, BTreeMap::new()), None))),
                ("set a {e:s} 100000", Part::Do(|_, _| Op::Set(a(), one(s("e"), s("s")), Some(100_000)))),
                ("set a s", Part::Do(|_, _| Op::Set(a(), s("s"), None))),
                ("set z s 1", Part::Do(|_, _| Op::Set("z".into(), s("s"), Some(1)))),
            ]);
            let m = menu();
            let n = if q { 2 } else { 3 };
            let steps: Vec<_> = (0..n).map(|_| m[pick(m.len())]).collect();
            cycle(r, Some(first), &steps, 0, Level::Admin, false);
        }),
        Lane::new("cycles of requests", Budget::free(), move |r: &mut Run| {
            let m = menu();
            let n = if q { 2 } else { 3 };
            let steps: Vec<_> = (0..n).map(|_| m[pick(m.len())]).collect();
            let close = pick(4);
            let level = *pick_from(&LEVELS);
            cycle(r, None, &steps, close, level, true);
        }),
        Lane::new("cycles of clients", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let n = acts().len();
            let len = 1 + pick(2);
            let which: Vec<usize> = (0..len).map(|_| pick(n)).collect();
            server_cycle(r, kind, &which);
        }),
    ]
}
