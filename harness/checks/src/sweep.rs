//! Background reclamation of expired entries (C23).
use crate::conc;
use crate::engine::*;
use crate::model::*;
use crate::world::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vstd::net::{self, NetCfg};
use vstd::rt::{self, End, ExecCfg};

/// Allocations of at least this size are counted.
const BIG: usize = 48 * 1024;
/// Size of the values stored.
const SIZE: usize = 100_000;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TEXTS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    let _ = TEXTS.try_with(|l| l.set(l.get() + n.signum()));
}
/// All allocations, inside `counted`.
fn note(n: i64) {
    if ON.try_with(|x| x.get()).unwrap_or(false) {
        let _ = BYTES.try_with(|l| l.set(l.get() + n));
    }
}
/// Number of big texts alive.
pub fn texts() -> i64 {
    TEXTS.with(|l| l.get())
}
/// Bytes allocated and not released inside `counted`.
pub fn bytes() -> i64 {
    BYTES.with(|l| l.get())
}
pub fn reset_bytes() {
    BYTES.with(|l| l.set(0));
}
pub fn counted<R>(f: impl FnOnce() -> R) -> R {
    ON.with(|x| x.set(true));
    let r = f();
    ON.with(|x| x.set(false));
    r
}
/// Text and byte buffers only: the explorer's own tables grow as well.
fn big(l: Layout) -> i64 {
    if l.size() >= BIG && l.align() == 1 {
        l.size() as i64
    } else {
        0
    }
}
// SAFETY: everything is passed on to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        if l.size() >= BIG {
            add(big(l));
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        if l.size() >= BIG {
            add(big(l));
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        if l.size() >= BIG {
            add(-big(l));
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        if l.size() >= BIG || n >= BIG {
            // SAFETY: the layout the caller vouches for.
            let new = unsafe { Layout::from_size_align_unchecked(n, l.align()) };
            let _ = LIVE.try_with(|x| x.set(x.get() + big(new) - big(l)));
            let _ = TEXTS.try_with(|x| x.set(x.get() + big(new).signum() - big(l).signum()));
        }
        unsafe { System.realloc(p, l, n) }
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// What is stored, by whom and when.
#[derive(Clone, Debug)]
pub struct Store {
    pub kind: Server,
    /// Requests (as "write") that leave only permanent entries.
    pub first: Vec<String>,
    /// Requests that leave expiring entries as well.
    pub then: Vec<String>,
    /// Big values that `then` leaves behind, all to be reclaimed.
    pub expiring: usize,
    /// Big values of permanent entries that `then` leaves behind.
    pub kept: usize,
    /// Longest lifetime among those, in seconds.
    pub longest: u64,
    /// Queries (as "read") at the end.
    pub last: Vec<String>,
    pub seed: u64,
    pub idle: u64,
}
/// How long the sweeper may need.
const LIMIT: u64 = 900 * SECOND;

pub fn huge(c: char) -> String {
    std::iter::repeat(c).take(SIZE).collect()
}

#[derive(Default)]
struct Noted {
    first: Vec<Option<Answer>>,
    then: Vec<Option<Answer>>,
    last: Vec<Option<Answer>>,
    base: i64,
    full: i64,
    end: i64,
    took: u64,
    ended: Option<u64>,
}
fn reclaim(r: &mut Run, s: &Store) {
    net::reset(NetCfg::default());
    rt::set_rng(rt::RngMode::Rotate(s.seed * 1_000_003));
    let out = Rc::new(RefCell::new(Noted::default()));
    let o = out.clone();
    let s2 = s.clone();
    let cfg = ExecCfg { preempt: false, switch: false, sleep_quantum: 20 * MS, max_steps: 50_000_000, max_time: 3_600 * SECOND + s.idle, trace: r.verbose, ..ExecCfg::default() };
    let res = rt::run_exec(cfg, move || {
        let s = s2;
        let p = Process::start(s.kind);
        let mut held = vec![];
        let mut ask = |q: &str, u: &str| act(&Step::ask(u, q), &mut held);
        // buffers that are kept for reuse are part of the base
        for i in 0..4 {
            ask(&format!("set warm{} \"{}\"", i, huge('w')), "write");
            ask(&format!("del warm{}", i), "write");
        }
        if s.idle > 0 {
            rt::set_quantum(SECOND);
            rt::sleep(s.idle);
            rt::set_quantum(20 * MS);
            rt::sleep(1500 * MS);
        }
        for q in &s.first {
            let a = ask(q, "write");
            o.borrow_mut().first.push(a);
        }
        rt::sleep(50 * MS);
        o.borrow_mut().base = live();
        for q in &s.then {
            let a = ask(q, "write");
            o.borrow_mut().then.push(a);
        }
        o.borrow_mut().full = live();
        rt::set_quantum(SECOND);
        let t0 = rt::peek_ns();
        let want = o.borrow().base + (s.kept * SIZE) as i64 + SIZE as i64 / 2;
        while rt::peek_ns() < t0 + LIMIT {
            rt::sleep(SECOND);
            if live() < want {
                break;
            }
        }
        o.borrow_mut().end = live();
        o.borrow_mut().took = rt::peek_ns() - t0;
        rt::set_quantum(20 * MS);
        rt::sleep(1100 * MS);
        for q in &s.last {
            let a = ask(q, "read");
            o.borrow_mut().last.push(a);
        }
        o.borrow_mut().ended = p.ended();
    });
    net::reset(NetCfg::default());
    let n = std::mem::take(&mut *out.borrow_mut());
    r.transitions(res.steps);
    if r.verbose {
        r.log.extend(res.trace.iter().map(|l| l.chars().take(300).collect()));
    }
    let shown = |q: &Vec<String>| q.iter().map(|x| crate::lang::shown(&x.replace(&huge('p'), "<100000 p>").replace(&huge('x'), "<100000 x>"))).collect::<Vec<_>>();
    let text = format!("{:?} server, {:?}, then {:?}", s.kind, shown(&s.first), shown(&s.then));
    r.log(|| format!("{}: live {} -> {} -> {} after {} s", text, n.base, n.full, n.end, n.took / SECOND));
    if let Some(x) = res.panics.first() {
        return r.violate("panic", format!("{} panicked: {} ({})", x.name, x.message, text));
    }
    if res.end != End::Done {
        return r.violate("hang", format!("{:?}: {} {} ({})", res.end, res.blocked.join("; "), res.driver_panic.unwrap_or_default(), text));
    }
    if n.ended.is_some() {
        return r.violate("stopped", format!("the process ended ({})", text));
    }
    let mut m = Model::default();
    for (q, a) in s.first.iter().chain(&s.then).zip(n.first.iter().chain(&n.then)) {
        let Some(a) = a else { continue };
        m.now = a.t0 as u128;
        if let Some(want) = expected(&mut m, Some("write"), q) {
            if let Err(e) = a.agrees(&want) {
                return r.violate("reply", format!("{} ({})", e.chars().take(300).collect::<String>(), text));
            }
        }
    }
    if n.full < n.base + ((s.kept + s.expiring) * SIZE) as i64 {
        // not what was to be shown
        r.count("stores whose values were not all seen in memory", 1);
    }
    if n.end >= n.base + (s.kept * SIZE) as i64 + SIZE as i64 / 2 {
        return r.violate(
            "not-reclaimed",
            format!(
                "{} s after the last request {} bytes of big values are still held that only expired entries need ({})",
                n.took / SECOND,
                n.end - n.base - (s.kept * SIZE) as i64,
                text
            ),
        );
    }
    for (q, a) in s.last.iter().zip(&n.last) {
        let Some(a) = a else { continue };
        m.now = a.t0 as u128;
        if let Some(want) = expected(&mut m, Some("read"), q) {
            if let Err(e) = a.agrees(&want) {
                return r.violate("after", format!("{}: {} ({})", q, e.chars().take(300).collect::<String>(), text));
            }
        }
    }
    r.outcome(&format!("reclaimed within {} s", [1u64, 2, 5, 10, 20, 50, 100, 200, 500, 1000].iter().find(|x| n.took / SECOND <= **x).unwrap_or(&0)));
    r.distinct(hash64(&(s.kind, shown(&s.first), shown(&s.then), s.seed)));
    r.state(hash64(&(s.kind, shown(&s.first), shown(&s.then), s.seed, n.took)));
    if r.wants_sample() {
        r.sample(format!("{}: {} -> {} -> {} bytes after {} s", text, n.base, n.full, n.end, n.took / SECOND));
    }
}

const KINDS2: [Server; 2] = [Server::Multi, Server::Async];

/// A latency probe: a request at one phase of the sweeper's cycle.
fn phase(r: &mut Run, kind: Server, at: u64, q: &'static str) {
    let mut s = conc::Scene::new(kind, &["set a 1 1; set b 2; set c 3 1; set d 4 1000"], vec![vec![conc::by("write", q)]], &["get b", "ex a"]);
    s.settle = at;
    if let Some(seen) = conc::judge(r, &s) {
        let a = &seen.ops[0].answer;
        let took = a.t1 - a.t0;
        r.outcome(&format!("answered within {} ms", [10u64, 20, 50, 100, 200].iter().find(|x| took / MS <= **x).unwrap_or(&999)));
        if took > 250 * MS {
            r.violate("delay", format!("{:?} server: the reply to {:?}, sent {} ms after the start, took {} ms", kind, q, at / MS, took / MS));
        }
    }
}

pub fn c23(q: bool) -> Vec<Lane> {
    let mut v = vec![
        Lane::new("mixtures", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&KINDS2);
            let perm = *pick_from(if q { &[0usize, 1, 3][..] } else { &[0, 1, 2, 3, 6] });
            let exp = *pick_from(if q { &[1usize, 2, 4][..] } else { &[1, 2, 3, 4, 6] });
            let long = *pick_from(if q { &[0usize, 1, 3][..] } else { &[0, 1, 2, 3, 7] });
            let lives = pick(3);
            let order = pick(3);
            let seed = pick(if q { 2 } else { 6 }) as u64;
            let mut then: Vec<(usize, String)> = vec![];
            let mut first = vec![];
            let mut last = vec![];
            for i in 0..perm {
                first.push(format!("set p{} \"{}\"", i, i));
                last.push(format!("get p{}", i));
            }
            for i in 0..long {
                then.push((2 * i + 1, format!("set l{} {} 1000000", i, i)));
                last.push(format!("get l{}", i));
            }
            for i in 0..exp {
                let life = match lives {
                    0 => 1,
                    1 => 1 + 7 * i,
                    _ => 30,
                };
                then.push((2 * i, format!("set e{} \"{}\" {}", i, huge('x'), life)));
                last.push(format!("ex e{}", i));
            }
            match order {
                0 => {}
                1 => then.reverse(),
                _ => then.sort_by_key(|x| x.0),
            }
            let then: Vec<String> = then.into_iter().map(|x| x.1).collect();
            // small permanent entries may also come last
            let (first, then) = if order == 2 { (vec![], then.into_iter().chain(first).collect()) } else { (first, then) };
            let longest = if lives == 2 { 30 } else { 1 + 7 * exp as u64 };
            reclaim(r, &Store { kind, first, then, expiring: exp, kept: 0, longest, last, seed, idle: 0 });
        }),
        Lane::new("values", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&KINDS2);
            let x = huge('x');
            let (value, n) = match pick(5) {
                0 => (format!("\"{}\"", x), 1),
                1 => (format!("str [\"{}\"]", x), 1),
                2 => (format!("str [\"{}\",\"b\",\"{}\"]", x, x), 2),
                3 => (format!("str str {{\"k\":\"{}\"}}", x), 1),
                _ => (format!("str str {{\"{}\":\"{}\"}}", x, x), 2),
            };
            let how = *pick_from(&["set", "try_set", "upd"]);
            let mut then = vec![format!("{} e {} 2", how, value)];
            if how == "upd" {
                then.insert(0, format!("set e \"{}\" 1000", huge('p')));
            }
            if pick(2) == 1 {
                then.push("set other 1".into());
            }
            reclaim(r, &Store { kind, first: vec![], then, expiring: n, kept: 0, longest: 2, last: vec!["ex e".into(), "try_get e".into()], seed: 0, idle: 0 });
        }),
        Lane::new("histories", Budget::free(), move |r: &mut Run| {
            // what else happens to the keys before the clients leave
            let kind = *pick_from(&KINDS2);
            let (x, p) = (huge('x'), huge('p'));
            let e = |k: &str| format!("set {} \"{}\" 3", k, x);
            let f = |k: &str| format!("set {} \"{}\"", k, p);
            let menu: Vec<Vec<String>> = vec![
                vec![e("a")],
                vec![f("a"), e("a")],
                vec![e("a"), format!("set a \"{}\" 9", x)],
                vec![e("a"), "del a".into(), e("a")],
                vec![e("a"), format!("upd a \"{}\" 5", x)],
                vec![e("a"), "set b 1 2".into(), "del b".into()],
                vec![e("a"), e("b"), "del a".into(), e("a"), "del b".into(), e("b")],
                vec![e("a"), "set b 1 2".into(), "set b 2".into()],
                vec!["set b 1 2".into(), e("a"), "set c 1 2".into(), "del b".into(), "del c".into()],
                vec![e("a"), "set a 1 1; get nokey".into(), e("a")],
                vec![format!("set a \"{}\" 3; set b \"{}\" 3; del a; set c \"{}\" 3", x, x, x)],
                vec![e("a"), "bogus".into(), "shutdown".into(), "get nokey".into()],
            ];
            let n = pick(menu.len());
            let seed = pick(2) as u64;
            let mut then = menu[n].clone();
            if !q {
                let k = pick(menu.len() + 1);
                if k < menu.len() {
                    // a second history on other keys
                    then.extend(menu[k].iter().map(|t| t.replace(" a ", " k ").replace(" b ", " l ").replace("del a", "del k").replace("del b", "del l")));
                }
            }
            let expiring = 1;
            reclaim(r, &Store { kind, first: vec!["set z 26".into()], then, expiring, kept: 0, longest: 9, last: vec!["get z".into(), "ex a".into(), "ex b".into()], seed, idle: 0 });
        }),
        Lane::new("late", Budget::free(), move |r: &mut Run| {
            // the sweeper is still at work after a long time, and after having found nothing
            let kind = *pick_from(&KINDS2);
            let idle = *pick_from(if q { &[SECOND, 4 * SECOND, 6 * SECOND, 60 * SECOND, 400 * SECOND, 4_000 * SECOND][..] } else { &[SECOND, 4 * SECOND, 6 * SECOND, 60 * SECOND, 400 * SECOND, 4_000 * SECOND, 40_000 * SECOND, 100_000 * SECOND][..] });
            let before = *pick_from(&["set y 1 1", "set y 1", "get nokey", "bogus", "set y 1 1; del y"]);
            let life = *pick_from(&[0u64, 1, 4, 6]);
            let then = match pick(if life == 1 { 5 } else { 1 }) {
                0 => vec![format!("set e \"{}\" {}", huge('x'), life)],
                1 => vec![format!("try_set e \"{}\" {}", huge('x'), life)],
                2 => vec!["set e 1".into(), format!("upd e \"{}\" {}", huge('x'), life)],
                3 => vec!["set e 1".into(), format!("set e \"{}\" {}", huge('x'), life)],
                _ => vec!["set e 1 1000".into(), format!("upd e \"{}\" {}", huge('x'), life)],
            };
            reclaim(r, &Store { kind, first: vec![before.into()], then, expiring: 1, kept: 0, longest: 6, last: vec!["ex e".into()], seed: 1, idle });
        }),
        Lane::new("crowds", Budget::free(), move |r: &mut Run| {
            // many expiring entries, most of which clients take away, or which live long
            let kind = *pick_from(&KINDS2);
            let n = *pick_from(if q { &[40usize, 150][..] } else { &[20, 40, 70, 150, 300] });
            let x = huge('x');
            let mut then = vec![format!("set e \"{}\" 40", x)];
            let way = pick(5);
            let all = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join("; ");
            then.push(all(&|i| format!("set k{} 1 {}", i, if way < 3 || way == 4 && i % 2 == 1 { 30 } else { 1_000_000 })));
            match way {
                0 => then.push(all(&|i| format!("del k{}", i))),
                1 => then.push(all(&|i| format!("set k{} 2", i))),
                _ => {}
            }
            if flag() {
                then.rotate_left(1);
            }
            reclaim(r, &Store { kind, first: vec!["set z 26".into()], then, expiring: 1, kept: 0, longest: 40, last: vec!["get z".into(), "ex e".into(), "ex k1".into()], seed: pick(2) as u64, idle: 0 });
        }),
        Lane::new("phases", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&KINDS2);
            let step = if q { 100 } else { 10 };
            let at = 1500 * MS + (pick(6000 / step) * step) as u64 * MS;
            let query = *pick_from(&["get b", "set a 5; get a", "bogus"]);
            phase(r, kind, at, query);
        }),
    ];
    for kind in KINDS2 {
        let mut l = conc::sweeping(kind, match (kind, q) {
            (Server::Multi, true) => 1,
            (_, true) | (Server::Multi, false) => 2,
            _ => 3,
        });
        l.name = format!("sweeping-{:?}", kind).to_lowercase();
        v.push(l);
    }
    v
}
