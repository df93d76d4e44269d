//! Sequential histories against the interpreter and its storage (C01-C08).
use crate::engine::*;
use crate::lang;
use crate::model::*;
use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse};
use server::error::ServerError;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::Storage;
use vstd::rt::{self, Kind, RngMode};

type Reply = Result<InterpreterResponse, ServerError>;

/// The real interpreter.
pub struct Sys {
    pub it: Interpreter<HashMapStorage>,
    /// Send statements as query text where the language can express them.
    pub text: bool,
}
impl Sys {
    pub fn new() -> Sys {
        Sys { it: Interpreter::new(HashMapStorage::new()), text: false }
    }
    pub fn request(&mut self, ops: &[Op], level: Level) -> Result<Reply, String> {
        let statements = match as_text(ops).filter(|_| self.text) {
            Some(t) => match lang::real_parse(&t)? {
                Ok(st) => st,
                Err(e) => return Ok(Err(e)),
            },
            None => ops.iter().map(|o| o.real()).collect(),
        };
        let it = &mut self.it;
        guard(move || it.interpret(InterpreterRequest { statements, authorization: level.real() }))
    }
    pub fn op(&mut self, op: &Op) -> Result<Reply, String> {
        self.request(std::slice::from_ref(op), Level::Admin)
    }
    pub fn len(&self) -> usize {
        self.it.storage.len().unwrap_or(usize::MAX)
    }
    pub fn tracked(&self) -> usize {
        self.it.storage.expiring_keys_count().unwrap_or(usize::MAX)
    }
}

/// The statements as a query, if the language can express them.
fn as_text(ops: &[Op]) -> Option<String> {
    if ops.iter().any(|o| matches!(o, Op::Life(_) | Op::SetLife(..) | Op::Sweep | Op::Null)) {
        return None;
    }
    let t = lang::text_of(ops);
    match lang::meaning(&t) {
        (lang::Meaning::Ops(m), false) if m == ops => Some(t),
        _ => None,
    }
}

/// The system with its reference.
pub struct Pair {
    pub sys: Sys,
    pub m: Model,
    /// Check the bookkeeping of the expiry list.
    pub books: bool,
    /// Compare reported lifetimes.
    pub lifetimes: bool,
    pub dead: bool,
}
pub const TICK: u64 = 700_000_000;

impl Pair {
    pub fn new() -> Pair {
        Pair { sys: Sys::new(), m: Model::default(), books: false, lifetimes: true, dead: false }
    }
    fn sync(&mut self) {
        self.m.now = rt::peek_ns() as u128;
    }
    pub fn now(&mut self) {
        self.sync();
    }
    /// Run one statement on both sides.
    pub fn op(&mut self, r: &mut Run, op: &Op) {
        if self.dead {
            return;
        }
        self.sync();
        let before = self.m.clone();
        let want = self.m.apply(op);
        let got = self.sys.op(op);
        r.transitions(1);
        self.judge(r, &format!("{:?}", op), &want, got, Some(before));
    }
    /// Compare a reply; on a permitted refusal the reference is put back.
    pub fn judge(&mut self, r: &mut Run, what: &str, want: &Rep, got: Result<Reply, String>, before: Option<Model>) {
        r.log(|| format!("{} -> {:?} (reference {:?})", what, got, want));
        match got {
            Err(p) => {
                self.dead = true;
                r.violate("panic", format!("{} panics: {}", what, p));
            }
            Ok(got) => {
                if let (Rep::Either(_), Err(_)) = (want, &got) {
                    if let Some(b) = before {
                        self.m = b;
                    }
                }
                if !self.lifetimes && matches!(want, Rep::Left(_)) && got.is_ok() {
                    return;
                }
                if !want.is(&got) {
                    self.dead = true;
                    r.violate("reply", format!("{} answered {:?}, expected {:?}; reference state {:?} at {} ns", what, got, want, self.m.map, self.m.now));
                }
            }
        }
        if self.books {
            self.check_books(r, what);
        }
    }
    /// C04: the tracked entries are exactly the stored ones with a lifetime.
    pub fn check_books(&mut self, r: &mut Run, what: &str) {
        if self.dead {
            return;
        }
        self.sync();
        let (len, tracked) = (self.sys.len(), self.sys.tracked());
        let perm = self.m.permanent_count();
        if tracked > len || len - tracked != perm {
            self.dead = true;
            r.violate("books", format!(
                "after {}: {} entries stored, {} tracked for expiry, but {} entries without lifetime should exist; reference {:?}",
                what, len, tracked, perm, self.m.map
            ));
        } else if tracked < self.m.live_timed_count() {
            self.dead = true;
            r.violate("books", format!("after {}: only {} entries tracked for expiry, {} live ones have a lifetime", what, tracked, self.m.live_timed_count()));
        } else if len > self.m.map.len() {
            self.dead = true;
            r.violate("books", format!("after {}: {} entries stored, at most {} can be", what, len, self.m.map.len()));
        }
    }
    pub fn tick(&mut self, ns: u64) {
        rt::advance_clock(ns);
        self.sync();
    }
    /// One sweep with an enumerated pick.
    pub fn sweep(&mut self, r: &mut Run) {
        if self.dead {
            return;
        }
        let n = self.sys.tracked();
        rt::set_rng(RngMode::Enumerate(n.max(1)));
        self.sweep_now(r);
        rt::set_rng(RngMode::Rotate(0));
    }
    pub fn sweep_now(&mut self, r: &mut Run) -> usize {
        self.sync();
        let before = self.sys.len();
        let got = self.sys.op(&Op::Sweep);
        r.transitions(1);
        r.log(|| format!("sweep -> {:?}", got));
        match got {
            Err(p) => {
                self.dead = true;
                r.violate("panic", format!("a sweep panics: {}", p));
                0
            }
            Ok(Ok(InterpreterResponse::Size(n))) => {
                let after = self.sys.len();
                if self.books && before.wrapping_sub(after) != n {
                    self.dead = true;
                    r.violate("sweep-count", format!("a sweep reported {} removals, the number of entries went from {} to {}", n, before, after));
                }
                if after < self.m.live_count() {
                    self.dead = true;
                    r.violate("sweep-live", format!("after a sweep only {} entries are stored, {} are live", after, self.m.live_count()));
                }
                if self.books {
                    self.check_books(r, "a sweep");
                }
                n
            }
            Ok(x) => {
                self.dead = true;
                r.violate("sweep-fails", format!("a sweep answered {:?}", x));
                0
            }
        }
    }
    /// Everything observable about the given keys.
    pub fn readback(&mut self, r: &mut Run, keys: &[String]) {
        for k in keys {
            self.op(r, &Op::TryGet(k.clone()));
            self.op(r, &Op::Life(k.clone()));
            self.op(r, &Op::Exists(k.clone()));
            if self.dead {
                return;
            }
        }
    }
    pub fn probe(&mut self, r: &mut Run, k: &str) {
        let k = k.to_string();
        self.op(r, &Op::Get(k.clone()));
        self.op(r, &Op::TryGet(k.clone()));
        self.op(r, &Op::Exists(k.clone()));
        self.op(r, &Op::Type(k.clone()));
        self.op(r, &Op::Life(k));
    }
    /// C04: sweeping with every pick removes exactly the expired entries.
    pub fn drain(&mut self, r: &mut Run) {
        if self.dead {
            return;
        }
        let mut rounds = 0;
        loop {
            let n = self.sys.tracked().max(1);
            let mut progress = false;
            for i in (0..n).rev() {
                let m = self.sys.tracked().max(1);
                rt::set_rng(RngMode::Pick(i.min(m - 1), m));
                if self.sweep_now(r) > 0 {
                    progress = true;
                }
                if self.dead {
                    return;
                }
            }
            rounds += 1;
            if !progress || rounds > 2000 {
                break;
            }
        }
        rt::set_rng(RngMode::Rotate(0));
        self.sync();
        let (len, tracked) = (self.sys.len(), self.sys.tracked());
        if len != self.m.live_count() || tracked != self.m.live_timed_count() {
            self.dead = true;
            r.violate("drain", format!(
                "after sweeping with every possible pick {} entries are stored ({} tracked), but {} are live ({} with a lifetime); reference {:?}",
                len, tracked, self.m.live_count(), self.m.live_timed_count(), self.m.map
            ));
        }
    }
}

/// What a step may be.
#[derive(Clone, Debug)]
pub enum Step {
    /// A statement on the chosen key; the number is the step's own number, for distinct values.
    K(fn(String, usize) -> Op),
    /// All reads of a key.
    Probe,
}
fn iv(n: usize) -> Val {
    Val::Int(n as i64 + 100)
}
pub mod steps {
    use super::*;
    pub fn set(k: String, n: usize) -> Op {
        Op::Set(k, iv(n), None)
    }
    pub fn set1(k: String, n: usize) -> Op {
        Op::Set(k, iv(n), Some(1))
    }
    pub fn set3(k: String, n: usize) -> Op {
        Op::Set(k, iv(n), Some(3))
    }
    pub fn set0(k: String, n: usize) -> Op {
        Op::Set(k, iv(n), Some(0))
    }
    pub fn new(k: String, n: usize) -> Op {
        Op::SetNew(k, iv(n), None)
    }
    pub fn new1(k: String, n: usize) -> Op {
        Op::SetNew(k, iv(n), Some(1))
    }
    pub fn new2(k: String, n: usize) -> Op {
        Op::SetNew(k, iv(n), Some(2))
    }
    pub fn upd(k: String, n: usize) -> Op {
        Op::Update(k, iv(n), None)
    }
    pub fn upd1(k: String, n: usize) -> Op {
        Op::Update(k, iv(n), Some(1))
    }
    pub fn upd2(k: String, n: usize) -> Op {
        Op::Update(k, iv(n), Some(2))
    }
    pub fn life(k: String, _: usize) -> Op {
        Op::SetLife(k, None)
    }
    pub fn life1(k: String, _: usize) -> Op {
        Op::SetLife(k, Some(1))
    }
    pub fn life2(k: String, _: usize) -> Op {
        Op::SetLife(k, Some(2))
    }
    pub fn del(k: String, _: usize) -> Op {
        Op::Delete(k)
    }
    pub fn get(k: String, _: usize) -> Op {
        Op::Get(k)
    }
    pub fn vset(k: String, n: usize) -> Op {
        Op::Set(k, Val::Vec(Ct::Int, vec![iv(n)]), Some(2))
    }
    pub fn vpush(k: String, n: usize) -> Op {
        Op::VPush(k, iv(n))
    }
    pub fn vpop(k: String, _: usize) -> Op {
        Op::VPop(k)
    }
    pub fn vput(k: String, n: usize) -> Op {
        Op::VSet(k, 0, iv(n))
    }
    pub fn vget(k: String, _: usize) -> Op {
        Op::VGet(k, 0)
    }
    pub fn vlen(k: String, _: usize) -> Op {
        Op::VLen(k)
    }
    pub fn mset(k: String, n: usize) -> Op {
        let mut m = std::collections::BTreeMap::new();
        m.insert(Val::Int(1), iv(n));
        Op::Set(k, Val::Map(Kt::Int, Ct::Int, m), Some(2))
    }
    pub fn mput(k: String, n: usize) -> Op {
        Op::MSet(k, Val::Int(1), iv(n))
    }
    pub fn mdel(k: String, _: usize) -> Op {
        Op::MDel(k, Val::Int(1))
    }
    pub fn mget(k: String, _: usize) -> Op {
        Op::MGet(k, Val::Int(1))
    }
    pub fn mlen(k: String, _: usize) -> Op {
        Op::MLen(k)
    }
    pub fn mex(k: String, _: usize) -> Op {
        Op::MEx(k, Val::Int(1))
    }
    // values of every type
    pub fn set_null(k: String, _: usize) -> Op {
        Op::Set(k, Val::Null, None)
    }
    pub fn set_bool(k: String, _: usize) -> Op {
        Op::Set(k, Val::Bool(true), Some(50))
    }
    pub fn set_str(k: String, _: usize) -> Op {
        Op::Set(k, s("Ab\n\"\u{e9}"), None)
    }
    pub fn set_float(k: String, _: usize) -> Op {
        Op::Update(k, f(-1.5e-3), None)
    }
    pub fn set_vec(k: String, _: usize) -> Op {
        Op::SetNew(k, Val::Vec(Ct::Str, vec![s("p"), s("")]), None)
    }
    pub fn set_map(k: String, _: usize) -> Op {
        let mut m = std::collections::BTreeMap::new();
        m.insert(s("one"), f(1.0));
        m.insert(s("two"), f(2.0));
        Op::Set(k, Val::Map(Kt::Str, Ct::Float, m), None)
    }
}

/// A lane of histories.
#[derive(Clone)]
pub struct Hist {
    pub keys: usize,
    pub depth: usize,
    pub steps: Vec<Step>,
    pub tick: bool,
    pub sweep: bool,
    pub books: bool,
    pub lifetimes: bool,
    /// Statements executed before the enumerated part.
    pub preload: Vec<Op>,
    pub drain: bool,
    pub key_names: Vec<String>,
    /// Statements travel as query text.
    pub text: bool,
}
impl Hist {
    pub fn new(keys: usize, depth: usize, steps: Vec<Step>) -> Hist {
        Hist {
            keys,
            depth,
            steps,
            tick: false,
            sweep: false,
            books: false,
            lifetimes: true,
            preload: vec![],
            drain: false,
            key_names: (0..keys).map(|i| ["a", "b", "c", "d", "e", "f"][i].to_string()).collect(),
            text: false,
        }
    }
    pub fn lane(self, name: &str) -> Lane {
        let h = self;
        let mut budget = Budget::free();
        budget.total = u32::MAX;
        budget.per_kind[Kind::Rng as usize] = u32::MAX;
        Lane::new(name, budget, move |r| h.run(r))
    }
    fn run(&self, r: &mut Run) {
        let mut p = Pair::new();
        p.books = self.books;
        p.lifetimes = self.lifetimes;
        p.sys.text = self.text;
        for o in &self.preload {
            p.op(r, o);
        }
        // keys are interchangeable unless the preload names them
        let mut used = if self.preload.is_empty() { 0 } else { self.keys };
        let mut trace: Vec<String> = vec![];
        let sample = r.wants_sample();
        for n in 0..self.depth {
            let avail = (used + 1).min(self.keys);
            let per = self.steps.len();
            let extra = self.tick as usize + self.sweep as usize;
            let c = pick(avail * per + extra);
            if c < avail * per {
                let (k, t) = (c / per, c % per);
                used = used.max(k + 1);
                let key = &self.key_names[k];
                match &self.steps[t] {
                    Step::K(f) => {
                        let op = f(key.clone(), n);
                        if sample {
                            trace.push(format!("{:?}", op));
                        }
                        p.op(r, &op);
                    }
                    Step::Probe => {
                        if sample {
                            trace.push(format!("read {}", key));
                        }
                        p.probe(r, key);
                    }
                }
            } else if self.tick && c == avail * per {
                if sample {
                    trace.push("0.7 s pass".into());
                }
                r.log(|| "0.7 s pass".into());
                p.tick(TICK);
            } else {
                if sample {
                    trace.push("sweep".into());
                }
                p.sweep(r);
            }
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        p.readback(r, &self.key_names[..self.keys]);
        if self.drain {
            p.drain(r);
            if !p.dead {
                // and everything left that has a lifetime, once that is over
                p.tick(20 * 1_000_000_000);
                p.drain(r);
                p.readback(r, &self.key_names[..self.keys]);
            }
        }
        if !p.dead {
            r.outcome(&format!("{} live, {} stored", p.m.live_count(), p.sys.len()));
            if sample {
                let t = format!("{} | reference: {:?}", trace.join("; "), p.m.map);
                r.sample(t);
            }
        }
    }
}

fn ks(v: &[fn(String, usize) -> Op]) -> Vec<Step> {
    v.iter().map(|f| Step::K(*f)).collect()
}

/// Many keys: positions matter in the expiry list.
fn many_keys(name: &str, sizes: Vec<usize>, ops: usize, tick: bool) -> Lane {
    let mut budget = Budget::free();
    budget.total = u32::MAX;
    budget.per_kind[Kind::Rng as usize] = u32::MAX;
    Lane::new(name, budget, move |r| {
        let n = *pick_from(&sizes);
        let pattern = pick(3);
        let mut p = Pair::new();
        let names: Vec<String> = (0..n).map(|i| format!("key{}", i)).collect();
        for (i, k) in names.iter().enumerate() {
            let life = match pattern {
                0 => Some(5),
                1 => if i % 2 == 0 { Some(1) } else { None },
                _ => Some(1 + (i as u64 % 3) * 2),
            };
            p.op(r, &Op::Set(k.clone(), iv(i), life));
        }
        p.books = true;
        p.check_books(r, "loading");
        let mut where_: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1];
        where_.retain(|x| *x < n);
        where_.sort();
        where_.dedup();
        for j in 0..ops {
            let k = names[*pick_from(&where_)].clone();
            match pick(5 + tick as usize) {
                0 => p.op(r, &Op::Delete(k)),
                1 => p.op(r, &Op::Set(k, iv(j), None)),
                2 => p.op(r, &Op::Set(k, iv(j), Some(2))),
                3 => p.op(r, &Op::SetLife(k, None)),
                4 => p.op(r, &Op::SetLife(k, Some(2))),
                _ => {
                    p.tick(3 * TICK);
                    let m = p.sys.tracked().max(1);
                    let at = [0, m / 2, m - 1][pick(3)];
                    rt::set_rng(RngMode::Pick(at, m));
                    p.sweep_now(r);
                }
            }
            if p.dead {
                return;
            }
        }
        r.state(p.m.hash());
        p.readback(r, &names);
        p.drain(r);
        p.tick(20_000_000_000);
        p.drain(r);
        p.readback(r, &names);
        r.outcome(&format!("{} keys", n));
    })
}

/// Huge and odd lifetimes.
fn lifetimes_lane(name: &str) -> Lane {
    Lane::new(name, Budget::free(), |r| {
        let max_days = u64::MAX;
        let vals = [
            0, 1, 2, 59, 60, 3600, 86400, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, 1 << 33, 9_000_000_000, 1 << 40, 1 << 53, 1 << 62,
            i64::MAX as u64 - 1_700_000_001, i64::MAX as u64 - 1_000_000_000, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, max_days - 1, max_days,
        ];
        let l = *pick_from(&vals);
        let l2 = *pick_from(&[None, Some(1), Some(u64::MAX), Some(i64::MAX as u64)]);
        let mut p = Pair::new();
        p.books = true;
        let k = "k".to_string();
        let path = pick(7);
        match path {
            0 => p.op(r, &Op::Set(k.clone(), iv(0), Some(l))),
            1 => p.op(r, &Op::SetNew(k.clone(), iv(0), Some(l))),
            2 => {
                p.op(r, &Op::Set(k.clone(), iv(0), Some(7)));
                p.op(r, &Op::Update(k.clone(), iv(1), Some(l)))
            }
            3 => {
                p.op(r, &Op::Set(k.clone(), iv(0), None));
                p.op(r, &Op::SetLife(k.clone(), Some(l)))
            }
            4 => {
                p.op(r, &Op::Set(k.clone(), iv(0), Some(7)));
                p.op(r, &Op::SetLife(k.clone(), Some(l)))
            }
            5 => {
                p.op(r, &Op::Set(k.clone(), iv(0), Some(7)));
                p.op(r, &Op::SetNew(k.clone(), iv(1), Some(l)))
            }
            _ => p.op(r, &Op::Update(k.clone(), iv(1), Some(l))),
        }
        p.probe(r, &k);
        match pick(3) {
            0 => p.tick(TICK),
            1 => p.tick(2_000 * TICK),
            _ => {}
        }
        p.probe(r, &k);
        p.op(r, &Op::SetLife(k.clone(), l2));
        p.probe(r, &k);
        p.tick(2 * TICK);
        p.readback(r, &[k.clone()]);
        p.drain(r);
        r.state(p.m.hash());
        r.outcome(if p.m.live(&k).is_some() { "alive" } else { "expired or refused" });
        if r.wants_sample() {
            r.sample(format!("lifetime {} by path {}, then {:?}: {:?}", l, path, l2, p.m.map));
        }
    })
}

/// Every operation just before and just after the end of short and long lifetimes.
fn deadline_lane(name: &str, quick: bool) -> Lane {
    use steps::*;
    const MS: u64 = 1_000_000;
    const S: u64 = 1_000 * MS;
    let ops: Vec<fn(String, usize) -> Op> = vec![get, new, new2, upd, upd2, del, life, life2, set, vpush, vpop, vput, vget, vlen, mput, mdel, mget, mlen, mex];
    Lane::new(name, Budget::free(), move |r| {
        let life = *pick_from(&[1u64, 2, 10, 60, 3_600, 86_400, 31_536_000, 1 << 31]);
        let mut p = Pair::new();
        p.books = true;
        p.sys.text = flag();
        // the sub-second phase of the clock
        p.tick(*pick_from(if quick { &[0u64, 300 * MS + 1, S - 1][..] } else { &[0u64, 1, 300 * MS + 1, 500 * MS, 999 * MS, S - 1][..] }));
        let k = "k".to_string();
        let v = match pick(3) {
            0 => iv(1),
            1 => Val::Vec(Ct::Int, vec![iv(2)]),
            _ => Val::Map(Kt::Int, Ct::Int, [(Val::Int(1), iv(3))].into_iter().collect()),
        };
        match pick(3) {
            0 => p.op(r, &Op::Set(k.clone(), v, Some(life))),
            1 => {
                p.op(r, &Op::Set(k.clone(), iv(9), Some(5)));
                p.op(r, &Op::Update(k.clone(), v, Some(life)));
            }
            _ => p.op(r, &Op::SetNew(k.clone(), v, Some(life))),
        }
        let off = *pick_from(&[-1_000i64, -500, -50, -2, 2, 50, 500, 1_000]);
        let at = (life * S) as i64 + off * MS as i64;
        if at <= 0 {
            return;
        }
        // what has happened shortly before
        let at = match pick(5) {
            0 => at as u64,
            1 => {
                p.sweep(r);
                at as u64
            }
            n => {
                let short = at.min(if n == 2 { 1 } else { 700 * MS as i64 }) as u64;
                p.tick(at as u64 - short);
                match n {
                    2 => (0..10).for_each(|_| p.probe(r, &k)),
                    3 => p.probe(r, &k),
                    _ => p.sweep(r),
                }
                short
            }
        };
        p.tick(at);
        if flag() {
            p.probe(r, &k);
        }
        p.op(r, &pick_from(&ops)(k.clone(), 4));
        p.probe(r, &k);
        p.tick(3 * S);
        p.readback(r, &[k.clone()]);
        r.state(p.m.hash());
        r.outcome(if off > 0 { "after" } else { "before" });
    })
}

pub fn c01(quick: bool) -> Vec<Lane> {
    use steps::*;
    let muts = ks(&[set, set1, new, new1, upd, upd1, del, life, life2]);
    let mut with_probe = muts.clone();
    with_probe.push(Step::Probe);
    let types = {
        let mut v = ks(&[set_null, set_bool, set_str, set_float, set_vec, set_map, del]);
        v.push(Step::Probe);
        v.push(Step::K(vpush));
        v.push(Step::K(mput));
        v.push(Step::K(vpop));
        v
    };
    let mut lanes = vec![
        Hist::new(1, if quick { 6 } else { 7 }, with_probe.clone()).lane("one key, all operations"),
        Hist::new(2, if quick { 5 } else { 6 }, with_probe.clone()).lane("two keys, all operations"),
        Hist::new(3, if quick { 5 } else { 6 }, muts.clone()).lane("three keys, mutators"),
        Hist::new(2, if quick { 5 } else { 6 }, types).lane("two keys, values of all types"),
    ];
    let mut h = Hist::new(1, if quick { 6 } else { 8 }, ks(&[set1, new, upd, del, new1]));
    h.tick = true;
    lanes.push(h.lane("one key with expiry"));
    let mut h = Hist::new(2, if quick { 6 } else { 7 }, ks(&[set1, new, upd, del, set]));
    h.tick = true;
    h.sweep = true;
    lanes.push(h.lane("two keys with expiry and sweeps"));
    let mut h = Hist::new(3, if quick { 4 } else { 5 }, muts.clone());
    h.preload = vec![set1("a".into(), 90), set("b".into(), 91), set3("c".into(), 92), del("b".into(), 0), set1("b".into(), 93)];
    h.tick = true;
    h.sweep = true;
    lanes.push(h.lane("three preloaded keys"));
    // names that could be confused
    let mut h = Hist::new(4, if quick { 4 } else { 5 }, ks(&[set, set1, new, upd, del]));
    h.key_names = vec!["a".into(), "A".into(), "a ".into(), "".into()];
    h.preload = vec![Op::Null];
    lanes.push(h.lane("similar key names"));
    let mut h = Hist::new(2, if quick { 4 } else { 5 }, ks(&[set, set3, new, new1, upd, upd2, del, get, vpush, vset, mset, mdel, set_str, set_float, set_vec, set_map]));
    h.text = true;
    h.tick = true;
    lanes.push(h.lane("as query text"));
    let pairs = near_strings();
    let d = if quick { 3 } else { 5 };
    lanes.push(Lane::new("keys that are almost equal", Budget::free(), move |r| {
        let (x, y) = pick_from(&pairs).clone();
        let mut p = Pair::new();
        p.sys.text = flag();
        for n in 0..d {
            let k = if flag() { y.clone() } else { x.clone() };
            p.op(r, &pick_from(&[set as fn(String, usize) -> Op, new, upd, del, set3])(k, n));
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        p.probe(r, &x);
        p.probe(r, &y);
        r.outcome(&format!("{} live", p.m.live_count()));
    }));
    let longest = if quick { 2 } else { 3 };
    lanes.push(Lane::new("any two names", Budget::free(), move |r| {
        let before = *pick_from(&["", "k", "a_rather_long_name_of_forty_characters__"]);
        let name = || {
            let mut n = before.to_string();
            for i in 0..=pick(longest + 1) {
                let all = ["a", "b", "_", "\u{e9}", "\u{4e2d}", "0", "1"];
                n += pick_from(if i == 0 && before.is_empty() { &all[..5] } else { &all[..] });
            }
            n
        };
        let (x, y) = (name(), name());
        if x >= y {
            return;
        }
        let mut p = Pair::new();
        p.sys.text = true;
        p.op(r, &set(x.clone(), 1));
        p.op(r, &set(y.clone(), 2));
        p.op(r, &Op::Get(x.clone()));
        p.op(r, &del(y.clone(), 0));
        p.op(r, &Op::Exists(x));
        p.op(r, &Op::Exists(y));
        r.state(p.m.hash());
    }));
    let d = if quick { 3 } else { 5 };
    lanes.push(Lane::new("special names", Budget::free(), move |r| {
        let names = special_names();
        let k = pick_from(&names).clone();
        let mut p = Pair::new();
        p.sys.text = flag();
        p.op(r, &set("other".to_string(), 50));
        for n in 0..d {
            match pick(8) {
                6 => p.tick(TICK),
                7 => {
                    p.sweep_now(r);
                }
                c => p.op(r, &[set as fn(String, usize) -> Op, new, upd, del, set1, upd2][c](k.clone(), n)),
            };
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        p.probe(r, &k);
        p.probe(r, "other");
        r.outcome(&format!("{} live", p.m.live_count()));
    }));
    lanes.push(Lane::new("values of every kind", Budget::free(), move |r| {
        let values = border_values();
        let v = pick_from(&values).clone();
        let mut p = Pair::new();
        p.sys.text = flag();
        let k = "k".to_string();
        let life = *pick_from(&[None, Some(5)]);
        match pick(4) {
            0 => p.op(r, &Op::Set(k.clone(), v.clone(), life)),
            1 => p.op(r, &Op::SetNew(k.clone(), v.clone(), life)),
            2 => {
                p.op(r, &Op::Set(k.clone(), iv(0), None));
                p.op(r, &Op::Update(k.clone(), v.clone(), life));
            }
            _ => {
                p.op(r, &Op::Set(k.clone(), v.clone(), None));
                p.op(r, &Op::SetNew(k.clone(), iv(0), life));
            }
        }
        p.probe(r, &k);
        r.state(p.m.hash());
        r.distinct(hash64(&format!("{:?}", v)));
        r.outcome(&format!("{:?}", v.typ()));
    }));
    lanes.push(many_keys("many keys", if quick { vec![3, 9, 17, 40] } else { vec![2, 3, 5, 8, 9, 16, 17, 33, 65, 130, 300] }, if quick { 2 } else { 3 }, false));
    lanes
}

/// The storage called directly, with deadlines in the past and in the future, between seconds.
fn storage_lane(name: &str, keys: usize, depth: usize, deadlines: &'static [Option<i64>]) -> Lane {
    use server::storage::StorageElement;
    use vstd::time::{Duration, SystemTime};
    const NAMES: [&str; 3] = ["a", "b", "c"];
    #[derive(Clone, Copy, Debug)]
    enum Call {
        Set(usize, Option<i64>),
        New(usize, Option<i64>),
        Upd(usize, Option<i64>),
        Until(usize, Option<i64>),
        Del(usize),
        Purge(usize),
        Write(usize),
        Sweep,
        Tick,
    }
    let mut calls = vec![Call::Tick, Call::Sweep];
    for k in 0..keys {
        for d in deadlines {
            calls.extend([Call::Set(k, *d), Call::New(k, *d), Call::Upd(k, *d), Call::Until(k, *d)]);
        }
        calls.extend([Call::Del(k), Call::Purge(k), Call::Write(k)]);
    }
    let calls: &'static [Call] = calls.leak();
    Lane::new(name, Budget::free(), move |r| {
        let mut s = HashMapStorage::new();
        // value, deadline on the virtual clock, the deadline as given
        let mut m: std::collections::BTreeMap<usize, (i64, Option<i64>, Option<SystemTime>)> = Default::default();
        let mut fresh = 0;
        for step in 0..depth {
            let c = *pick_from(calls);
            let at = |d: Option<i64>| {
                let now = SystemTime::now();
                let clock = rt::peek_ns() as i64;
                (d.map(|d| clock + d), d.map(|d| if d < 0 { now - Duration::from_nanos(-d as u64) } else { now + Duration::from_nanos(d as u64) }))
            };
            let live = |m: &std::collections::BTreeMap<usize, (i64, Option<i64>, Option<SystemTime>)>, k: usize| m.get(&k).is_some_and(|e| e.1.is_none_or(|d| (rt::peek_ns() as i64) < d));
            fresh += 1;
            let v = fresh;
            let elem = |k: usize, e: Option<SystemTime>| StorageElement { key: NAMES[k].to_string(), value: server::storage::StorageValue::Int(v), expiration: e };
            let before = s.len().unwrap_or(0);
            r.transitions(1);
            // what it answers, what it should answer
            let got: Result<(String, String), String> = match c {
                Call::Set(k, d) => {
                    let (clock, e) = at(d);
                    m.insert(k, (v, clock, e));
                    guard(|| s.set(NAMES[k], elem(k, e))).map(|x| (format!("{:?}", x), "Ok(())".into()))
                }
                Call::New(k, d) => {
                    let (clock, e) = at(d);
                    let new = !live(&m, k);
                    if new {
                        m.insert(k, (v, clock, e));
                    }
                    guard(|| s.set_if_not_exists(NAMES[k], elem(k, e))).map(|x| (format!("{:?}", x), format!("Ok({})", new)))
                }
                Call::Upd(k, d) => {
                    let (clock, e) = at(d);
                    let there = live(&m, k);
                    if there {
                        m.insert(k, (v, clock, e));
                    }
                    guard(|| s.update(NAMES[k], elem(k, e))).map(|x| (format!("{:?}", x.map_err(|e| crate::why::kind_of(&e).0)), if there { "Ok(())".into() } else { "Err(\"KeyError\")".into() }))
                }
                Call::Until(k, d) => {
                    let (clock, e) = at(d);
                    let there = live(&m, k);
                    if there {
                        let x = m.get_mut(&k).unwrap();
                        (x.1, x.2) = (clock, e);
                    }
                    guard(|| s.update_expiration(NAMES[k], e)).map(|x| (format!("{:?}", x.map_err(|e| crate::why::kind_of(&e).0)), if there { "Ok(())".into() } else { "Err(\"KeyError\")".into() }))
                }
                Call::Del(k) => {
                    let there = live(&m, k);
                    m.remove(&k);
                    guard(|| s.delete(NAMES[k])).map(|x| (format!("{:?}", x), format!("Ok({})", there)))
                }
                Call::Purge(k) => {
                    let there = live(&m, k);
                    let known = m.contains_key(&k);
                    if !there {
                        m.remove(&k);
                    }
                    guard(|| s.check_and_expire(NAMES[k])).map(|x| {
                        let x = format!("{:?}", x.map_err(|e| crate::why::kind_of(&e).0));
                        let gone = "Err(\"KeyError\")".to_string();
                        // a sweep may have been there before
                        let want = if there { "Ok(false)".into() } else if known && x != gone { "Ok(true)".into() } else { gone };
                        (x, want)
                    })
                }
                Call::Write(k) => {
                    let there = live(&m, k);
                    if there {
                        m.get_mut(&k).unwrap().0 = v;
                    }
                    guard(|| s.get_mut(NAMES[k]).map(|e| e.value = server::storage::StorageValue::Int(v)))
                        .map(|x| (format!("{:?}", x.map_err(|e| crate::why::kind_of(&e).0)), if there { "Ok(())".into() } else { "Err(\"KeyError\")".into() }))
                }
                Call::Tick => {
                    rt::advance_clock(TICK);
                    Ok(Default::default())
                }
                Call::Sweep => {
                    rt::set_rng(RngMode::Enumerate(s.expiring_keys_count().unwrap_or(0).max(1)));
                    let x = guard(|| s.invalidate_expired_keys());
                    rt::set_rng(RngMode::Rotate(0));
                    x.map(|x| (format!("{:?}", x), format!("Ok({})", before.wrapping_sub(s.len().unwrap_or(0)))))
                }
            };
            r.log(|| format!("{:?} -> {:?}", c, got));
            match got {
                Err(p) => return r.violate("panic", format!("call {} {:?} panics: {}", step, c, p)),
                Ok((a, b)) if a != b => return r.violate("answer", format!("call {} {:?} answered {}, expected {}; reference {:?} at {}", step, c, a, b, m, rt::peek_ns())),
                _ => {}
            }
            let (len, tracked) = (s.len().unwrap_or(usize::MAX), s.expiring_keys_count().unwrap_or(usize::MAX));
            let permanent = m.values().filter(|e| e.1.is_none()).count();
            let alive = (0..keys).filter(|k| live(&m, *k)).count();
            if tracked > len || len - tracked != permanent || len < alive || len > m.len() {
                return r.violate("books", format!("after call {} {:?}: {} entries, {} tracked; reference {:?} at {}", step, c, len, tracked, m, rt::peek_ns()));
            }
            for k in 0..keys {
                let want = m.get(&k).filter(|_| live(&m, k)).map(|e| (e.0, e.2));
                let n = NAMES[k];
                let show = |e: StorageElement| match e.value {
                    server::storage::StorageValue::Int(i) => Some((i, e.expiration)),
                    _ => None,
                };
                let got = guard(|| (s.get(n).ok().and_then(show), s.get_if_exists(n).ok().flatten().and_then(show), s.contains_key(n).ok(), s.get_mut(n).ok().map(|e| e.clone()).and_then(show)));
                if got != Ok((want, want, Some(want.is_some()), want)) {
                    return r.violate("seen", format!("after call {} {:?}: {} is seen as {:?}, expected {:?}; at {}", step, c, n, got, want, rt::peek_ns()));
                }
            }
            r.state(hash64(&(len, tracked, alive, m.iter().map(|(k, e)| (*k, e.1.map(|d| d > rt::peek_ns() as i64))).collect::<Vec<_>>())));
        }
        // every expired entry can be purged, nothing else
        for k in 0..keys {
            let there = m.get(&k).is_some_and(|e| e.1.is_none_or(|d| (rt::peek_ns() as i64) < d));
            let got = guard(|| s.check_and_expire(NAMES[k]).ok());
            if there && got != Ok(Some(false)) || !there && got == Ok(Some(false)) || got.is_err() {
                return r.violate("purge", format!("check_and_expire({}) is {:?} at the end; reference {:?} at {}", NAMES[k], got, m, rt::peek_ns()));
            }
        }
        if s.len().ok() != Some((0..keys).filter(|k| m.get(k).is_some_and(|e| e.1.is_none_or(|d| (rt::peek_ns() as i64) < d))).count()) {
            r.violate("left", format!("{:?} entries are left after purging every key; reference {:?} at {}", s.len(), m, rt::peek_ns()));
        }
        r.outcome("fits");
    })
}
const PAST: i64 = -100_000_000;
const SOON: i64 = 300_000_000;
const LATER: i64 = 1_600_000_000;

pub fn c02(quick: bool) -> Vec<Lane> {
    use steps::*;
    let mut lanes = vec![];
    let all = {
        let mut v = ks(&[set, set1, new, new2, upd, upd2, del, life, life1]);
        v.push(Step::Probe);
        v
    };
    let mk = |keys, depth, steps: Vec<Step>, sweep| {
        let mut h = Hist::new(keys, depth, steps);
        h.tick = true;
        h.sweep = sweep;
        h
    };
    lanes.push(mk(1, if quick { 6 } else { 8 }, all.clone(), true).lane("one key, all operations, clock, sweeps"));
    lanes.push(mk(2, if quick { 5 } else { 6 }, all.clone(), true).lane("two keys, all operations, clock, sweeps"));
    // expired entries seen by every operation
    let coll = ks(&[vpush, vpop, vput, vget, vlen, mput, mdel, mget, mlen, mex, new, upd, life, life2, del, get]);
    for (what, pre) in [("vector", vset as fn(String, usize) -> Op), ("map", mset)] {
        let mut h = mk(2, if quick { 4 } else { 5 }, coll.clone(), true);
        h.preload = vec![pre("a".into(), 0), pre("b".into(), 1), life("b".into(), 0), life1("a".into(), 0)];
        lanes.push(h.lane(&format!("{} with a lifetime, every operation", what)));
    }
    let mut h = mk(1, if quick { 5 } else { 6 }, ks(&[set, set1, new, new2, upd, upd2, del, get, vset, vpush, vlen]), true);
    h.text = true;
    lanes.push(h.lane("as query text"));
    // before the deadline sweeping changes nothing
    let mut h = mk(3, if quick { 5 } else { 6 }, ks(&[get, del, upd2, life2]), true);
    h.preload = vec![set3("a".into(), 0), set1("b".into(), 1), set("c".into(), 2), set0("d".into(), 0)];
    h.keys = 3;
    lanes.push(h.lane("three keys with different lifetimes under sweeps"));
    lanes.push(mk(3, if quick { 6 } else { 7 }, ks(&[set1, set3, del]), true).lane("three keys, set and sweep"));
    lanes.push(deadline_lane("around the end of a lifetime", quick));
    lanes.push(storage_lane("storage, called directly", 1, if quick { 5 } else { 6 }, &[None, Some(PAST), Some(SOON), Some(LATER)]));
    lanes.push(many_keys("many keys", if quick { vec![4, 17] } else { vec![3, 5, 9, 17, 33, 65] }, if quick { 2 } else { 3 }, true));
    lanes
}

pub fn c03(quick: bool) -> Vec<Lane> {
    use steps::*;
    let mk = |keys, depth, steps: Vec<Step>, sweep| {
        let mut h = Hist::new(keys, depth, steps);
        h.tick = true;
        h.sweep = sweep;
        h
    };
    let all = ks(&[set, set1, set3, new, new2, upd, upd2, del, life, life1, life2]);
    let mut lanes = vec![
        lifetimes_lane("extreme lifetimes"),
        mk(1, if quick { 6 } else { 7 }, all.clone(), false).lane("one key"),
        mk(2, if quick { 5 } else { 6 }, all.clone(), true).lane("two keys"),
    ];
    let mut h = mk(1, if quick { 5 } else { 6 }, ks(&[set, set1, set3, new, new2, upd, upd2, del, mset, mput]), true);
    h.text = true;
    lanes.push(h.lane("as query text"));
    let coll = ks(&[vpush, vpop, vput, vget, vlen, get, upd, life, life2]);
    let mut h = mk(1, if quick { 6 } else { 7 }, coll, true);
    h.preload = vec![vset("a".into(), 0)];
    lanes.push(h.lane("elements of a vector with a lifetime"));
    let coll = ks(&[mput, mdel, mget, mlen, mex, get, upd2, life, life1]);
    let mut h = mk(1, if quick { 6 } else { 7 }, coll, true);
    h.preload = vec![mset("a".into(), 0)];
    lanes.push(h.lane("elements of a map with a lifetime"));
    lanes.push(mk(3, if quick { 5 } else { 6 }, ks(&[set1, set, upd2, life2, new1]), true).lane("three keys"));
    lanes.push(deadline_lane("around the end of a lifetime", quick));
    lanes
}

pub fn c04(quick: bool) -> Vec<Lane> {
    use steps::*;
    let mk = |keys, depth, steps: Vec<Step>| {
        let mut h = Hist::new(keys, depth, steps);
        h.tick = true;
        h.sweep = true;
        h.books = true;
        h.drain = true;
        h
    };
    let exp = ks(&[set, set1, set3, del, life, life1]);
    let all = ks(&[set, set1, new1, upd, upd2, del, life, life2]);
    let mut lanes = vec![
        mk(1, if quick { 6 } else { 7 }, all.clone()).lane("one key"),
        mk(2, if quick { 5 } else { 6 }, all.clone()).lane("two keys"),
        mk(3, if quick { 5 } else { 6 }, exp.clone()).lane("three keys"),
        mk(4, if quick { 7 } else { 8 }, ks(&[set1, del])).lane("four keys, set and delete"),
    ];
    let mut h = mk(4, if quick { 4 } else { 5 }, exp.clone());
    h.preload = vec![set1("a".into(), 0), set3("b".into(), 1), set1("c".into(), 2), set3("d".into(), 3)];
    lanes.push(h.lane("four preloaded keys"));
    let mut h = mk(4, if quick { 4 } else { 5 }, exp.clone());
    h.preload = vec![set1("a".into(), 0), set("b".into(), 1), set1("c".into(), 2), set0("d".into(), 3)];
    lanes.push(h.lane("four preloaded keys, mixed"));
    lanes.push(storage_lane("storage, called directly", 2, if quick { 4 } else { 5 }, &[None, Some(PAST), Some(SOON)]));
    lanes.push(storage_lane("storage of three keys, called directly", 3, if quick { 4 } else { 5 }, &[None, Some(SOON)]));
    lanes.push(many_keys("many keys", if quick { vec![2, 3, 8, 17] } else { vec![2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129] }, if quick { 2 } else { 3 }, true));
    lanes
}

// ------------------------------------------------------------------------------------------------
// C05, C06: collections
// ------------------------------------------------------------------------------------------------

/// Whole-value comparison after each history, through `get`.
fn finish_collection(r: &mut Run, p: &mut Pair, keys: &[String]) {
    for k in keys {
        p.op(r, &Op::TryGet(k.clone()));
        p.op(r, &Op::Type(k.clone()));
        p.op(r, &Op::VLen(k.clone()));
        p.op(r, &Op::MLen(k.clone()));
    }
}

fn other(t: Ct) -> Ct {
    match t {
        Ct::Bool => Ct::Int,
        Ct::Int => Ct::Float,
        Ct::Float => Ct::Str,
        Ct::Str => Ct::Bool,
    }
}

/// Pairs of integers that some narrowing or rounding would confuse.
const NEAR_INTS: [(i64, i64); 16] = [
    (1 << 53, (1 << 53) + 1),
    (i64::MAX, i64::MAX - 1),
    (i64::MIN, i64::MIN + 1),
    (i64::MIN, i64::MAX),
    (0, 1 << 32),
    (7, (1 << 32) + 7),
    (1, -1),
    (0, 256),
    (3, 65539),
    (5, (1 << 31) + 5),
    (-1, u32::MAX as i64),
    (-1, i64::MAX),
    (1 << 24, (1 << 24) + 1),
    (10, 100),
    (12, 21),
    (0, i64::MIN),
];
/// Pairs of strings that some normalisation or truncation would confuse.
fn near_strings() -> Vec<(String, String)> {
    let p = |a: &str, b: &str| (a.to_string(), b.to_string());
    let long = |n: usize, c: char| format!("{}{}", "x".repeat(n), c);
    vec![
        p("a", "A"),
        p("a", "a "),
        p("a", " a"),
        p("", " "),
        p("", "\"\""),
        p("1", "01"),
        p("1", "1.0"),
        p("ab", "ba"),
        p("aa", "bB"),
        p("\u{e9}", "e\u{301}"),
        p("\u{e9}", "\u{c9}"),
        p("\u{df}", "ss"),
        p("i", "\u{131}"),
        p("a\\n", "a\n"),
        p("a\t", "a    "),
        p("a", "a\\"),
        p("a\"", "a"),
        p("null", "none"),
        p("true", "True"),
        p("\u{1f600}", "\u{1f601}"),
        p("\u{ff41}", "a"),
        p("a\u{200b}", "a"),
        (long(15, 'a'), long(15, 'b')),
        (long(16, 'a'), long(16, 'b')),
        (long(31, 'a'), long(31, 'b')),
        (long(64, 'a'), long(64, 'b')),
        (long(255, 'a'), long(255, 'b')),
        (long(256, 'a'), long(256, 'b')),
        (long(1024, 'a'), long(1024, 'b')),
        ("x".repeat(64), "x".repeat(65)),
    ]
}
/// Names that code likes to treat in a special way.
pub fn special_names() -> Vec<String> {
    let mut v: Vec<String> = [
        "admin", "root", "user", "write", "read", "guest", "tmp", "temp", "tmp_k", "cache", "cache_k", "lock", "session", "_k", "__k", "__internal", "internal", "system", "sys", "config", "meta",
        "key", "keys", "all", "any", "size", "len", "count", "stats", "info", "ttl", "expire", "expired", "deleted", "tombstone", "null", "nil", "none", "undefined", "nan", "inf", "infinity", "true", "false",
        "test", "debug", "default", "self", "this", "get", "set", "shutdown", "stop", "quit", "vec", "map", "int", "str", "x", "k1", "k_1", "kk", "a_b_c", "con", "nul",
        "*", "%", "?", "k*", "user:1", "a.b", "a/b", "../k", "/", "#k", "$k", "@k", "!k", "~", "-k", "k-", "0", "-1", "1e5", "0x10", "\0", "\u{7f}", "\u{feff}k", "\u{202e}k", "[]", "{}", "[1]", "{\"a\":1}", "\"k\"",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    v.extend([7, 8, 9, 32, 63, 64, 65, 127, 128, 129, 512, 4096].map(|n| "n".repeat(n)));
    v
}
/// Values at the borders of their types.
fn border_values() -> Vec<Val> {
    let mut v = vec![Val::Null, Val::Bool(false), Val::Bool(true)];
    for (a, b) in NEAR_INTS {
        v.push(Val::Int(a));
        v.push(Val::Int(b));
    }
    for x in [0.0f32, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5e-3, 16777216.0, 16777218.0, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 1e-45, 123456.79, 1e10] {
        v.push(f(x));
    }
    for (a, b) in near_strings() {
        v.push(Val::Str(a));
        v.push(Val::Str(b));
    }
    v.extend(special_names().into_iter().map(Val::Str));
    v.sort();
    v.dedup();
    v
}
/// The type of a list that can hold the value.
fn list_type(v: &Val) -> Option<Ct> {
    CTS.into_iter().find(|t| t.admits(v))
}

pub fn c05(quick: bool) -> Vec<Lane> {
    let mut lanes = vec![];
    let depth = if quick { 5 } else { 6 };
    lanes.push(Lane::new("vector operations, all element types", Budget::free(), move |r| {
        let t = *pick_from(&CTS);
        let mut p = Pair::new();
        let k = "v".to_string();
        let init = pick(3);
        let xs: Vec<Val> = (0..init).map(|i| t.sample(50 + i)).collect();
        p.op(r, &Op::Set(k.clone(), Val::Vec(t, xs), None));
        let mut trace = vec![];
        let sample = r.wants_sample();
        for n in 0..depth {
            let op = match pick(13) {
                0 => Op::VPush(k.clone(), t.sample(n)),
                1 => Op::VPush(k.clone(), other(t).sample(n)),
                2 => Op::VPop(k.clone()),
                3 => Op::VGet(k.clone(), 0),
                4 => Op::VGet(k.clone(), 1),
                5 => Op::VGet(k.clone(), 2),
                6 => Op::VSet(k.clone(), 0, t.sample(n + 20)),
                7 => Op::VSet(k.clone(), 1, t.sample(n + 20)),
                8 => Op::VSet(k.clone(), 2, t.sample(n + 20)),
                9 => Op::VSet(k.clone(), 0, other(t).sample(n)),
                10 => Op::VLen(k.clone()),
                11 => Op::VGet(k.clone(), 3),
                _ => Op::VSet(k.clone(), 3, t.sample(n + 20)),
            };
            if sample {
                trace.push(format!("{:?}", op));
            }
            p.op(r, &op);
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        finish_collection(r, &mut p, &[k.clone()]);
        if let Some(e) = p.m.map.get(&k) {
            if let Val::Vec(_, xs) = &e.val {
                let n = xs.len();
                r.outcome(&format!("{:?} vector of {}", t, n));
                for i in 0..n + 1 {
                    p.op(r, &Op::VGet(k.clone(), i));
                }
            }
        }
        if sample {
            r.sample(trace.join("; "));
        }
    }));
    lanes.push(Lane::new("types, indexes and targets", Budget::free(), move |r| {
        // every kind of target x every operation x every kind of value, twice
        let t = *pick_from(&CTS);
        let mut p = Pair::new();
        let k = "v".to_string();
        match pick(9) {
            0 => p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![]), None)),
            1 => p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![t.sample(1), t.sample(2)]), None)),
            2 => p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![t.sample(1), t.sample(2)]), Some(9))),
            3 => p.op(r, &Op::Set(k.clone(), Val::Map(Kt::Int, t, [(Val::Int(0), t.sample(0))].into()), None)),
            4 => p.op(r, &Op::Set(k.clone(), t.sample(0), None)),
            5 => p.op(r, &Op::Set(k.clone(), Val::Null, None)),
            6 => {}
            7 => {
                p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![t.sample(1)]), Some(1)));
                p.tick(2 * TICK);
            }
            _ => {
                p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![t.sample(1), t.sample(2), t.sample(3)]), None));
                p.op(r, &Op::VPop(k.clone()));
                p.op(r, &Op::Set("w".into(), Val::Vec(t, vec![t.sample(4)]), None));
            }
        }
        let values = [Val::Null, Val::Bool(false), Val::Bool(true), s(""), s("x"), Val::Int(i64::MIN), Val::Int(0), f(0.0), f(-0.0), f(f32::MAX), Val::Vec(t, vec![]), Val::Map(Kt::Str, t, [].into())];
        let idx = [
            0usize, 1, 2, 3, 255, 256, 65535, 65536, usize::MAX, 1 << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 1, (1 << 33) + 1, (1 << 53) + 1,
            i64::MAX as usize - 1, i64::MAX as usize, 1 << 63,
        ];
        p.sys.text = flag();
        let few = [0usize, 1, 2, (1 << 32) + 1];
        for round in 0..2 {
            let idx = if round == 0 { &idx[..] } else { &few[..] };
            let op = match pick(5) {
                0 => Op::VPush(k.clone(), pick_from(&values).clone()),
                1 => Op::VPop(k.clone()),
                2 => Op::VGet(k.clone(), *pick_from(idx)),
                3 => Op::VSet(k.clone(), *pick_from(idx), pick_from(&values).clone()),
                _ => Op::VLen(k.clone()),
            };
            p.op(r, &op);
            if p.dead {
                return;
            }
        }
        r.state(p.m.hash());
        finish_collection(r, &mut p, &[k.clone(), "w".into()]);
        r.outcome(&p.m.map.get(&k).map_or("absent".into(), |e| format!("{:?}", e.val.typ())));
    }));
    lanes.push(Lane::new("values of elements", Budget::free(), move |r| {
        let values = border_values();
        let v = pick_from(&values).clone();
        let Some(t) = list_type(&v) else { return };
        let mut p = Pair::new();
        p.sys.text = flag();
        let k = "v".to_string();
        p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![t.sample(1), t.sample(2)]), None));
        match pick(3) {
            0 => p.op(r, &Op::VPush(k.clone(), v.clone())),
            1 => p.op(r, &Op::VSet(k.clone(), 1, v.clone())),
            _ => p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![v.clone(), t.sample(1), v.clone()]), None)),
        }
        p.op(r, &Op::TryGet(k.clone()));
        for i in 0..4 {
            p.op(r, &Op::VGet(k.clone(), i));
        }
        p.op(r, &Op::VLen(k.clone()));
        for _ in 0..4 {
            p.op(r, &Op::VPop(k.clone()));
        }
        r.state(p.m.hash());
        r.distinct(hash64(&format!("{:?}", v)));
        r.outcome(&format!("{:?}", t));
        if r.wants_sample() {
            r.sample(format!("{:?}", v));
        }
    }));
    lanes.push(Lane::new("as query text", Budget::free(), move |r| {
        let t = *pick_from(&CTS);
        let mut p = Pair::new();
        p.sys.text = true;
        let k = "v".to_string();
        p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![t.sample(50)]), None));
        for n in 0..depth - 1 {
            let op = match pick(9) {
                0 => Op::VPush(k.clone(), t.sample(n)),
                1 => Op::VPush(k.clone(), other(t).sample(n)),
                2 => Op::VPop(k.clone()),
                3 => Op::VGet(k.clone(), 0),
                4 => Op::VGet(k.clone(), 1),
                5 => Op::VSet(k.clone(), 0, t.sample(n + 20)),
                6 => Op::VSet(k.clone(), 1, t.sample(n + 20)),
                7 => Op::VLen(k.clone()),
                _ => Op::VSet(k.clone(), 0, other(t).sample(n)),
            };
            p.op(r, &op);
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        finish_collection(r, &mut p, &[k.clone()]);
        r.outcome(&format!("{:?}", t));
    }));
    let big = if quick { vec![3usize, 8, 33, 129, 260] } else { vec![1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 65, 129, 257, 1025, 5000] };
    lanes.push(Lane::new("long vectors", Budget::free(), move |r| {
        let t = *pick_from(&CTS);
        let n = *pick_from(&big);
        let mut p = Pair::new();
        let k = "v".to_string();
        p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![]), None));
        for i in 0..n {
            p.op(r, &Op::VPush(k.clone(), t.sample(i)));
        }
        p.op(r, &Op::TryGet(k.clone()));
        let at = [0, n / 2, n - 1, n, n + 1];
        for _ in 0..2 {
            match pick(4) {
                0 => p.op(r, &Op::VSet(k.clone(), *pick_from(&at), t.sample(777))),
                1 => {
                    for _ in 0..n / 2 + 1 {
                        p.op(r, &Op::VPop(k.clone()));
                    }
                }
                2 => p.op(r, &Op::VPush(k.clone(), t.sample(778))),
                _ => p.op(r, &Op::VGet(k.clone(), *pick_from(&at))),
            }
        }
        p.op(r, &Op::TryGet(k.clone()));
        p.op(r, &Op::VLen(k.clone()));
        for _ in 0..n + 4 {
            p.op(r, &Op::VPop(k.clone()));
        }
        p.op(r, &Op::TryGet(k.clone()));
        r.state(p.m.hash());
        r.outcome(&format!("{:?} x {}", t, n));
    }));
    lanes
}

pub fn c06(quick: bool) -> Vec<Lane> {
    let mut lanes = vec![];
    let depth = if quick { 5 } else { 6 };
    lanes.push(Lane::new("map operations, all key and value types", Budget::free(), move |r| {
        let a = *pick_from(&KTS);
        let t = *pick_from(&CTS);
        let mut p = Pair::new();
        let k = "m".to_string();
        let init = pick(2);
        let xs = (0..init).map(|i| (a.sample(i), t.sample(50 + i))).collect();
        p.op(r, &Op::Set(k.clone(), Val::Map(a, t, xs), None));
        let mut trace = vec![];
        let sample = r.wants_sample();
        for n in 0..depth {
            let op = match pick(11) {
                0 => Op::MSet(k.clone(), a.sample(0), t.sample(n)),
                1 => Op::MSet(k.clone(), a.sample(1), t.sample(n + 10)),
                2 => Op::MDel(k.clone(), a.sample(0)),
                3 => Op::MDel(k.clone(), a.sample(1)),
                4 => Op::MGet(k.clone(), a.sample(0)),
                5 => Op::MGet(k.clone(), a.sample(1)),
                6 => Op::MEx(k.clone(), a.sample(0)),
                7 => Op::MEx(k.clone(), a.sample(1)),
                8 => Op::MLen(k.clone()),
                9 => Op::MSet(k.clone(), a.sample(0), other(t).sample(n)),
                _ => Op::MSet(k.clone(), if a == Kt::Int { Kt::Str } else { Kt::Int }.sample(0), t.sample(n)),
            };
            if sample {
                trace.push(format!("{:?}", op));
            }
            p.op(r, &op);
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        finish_collection(r, &mut p, &[k.clone()]);
        for i in 0..2 {
            p.op(r, &Op::MGet(k.clone(), a.sample(i)));
        }
        if let Some(Entry { val: Val::Map(_, _, m), .. }) = p.m.map.get(&k) {
            r.outcome(&format!("{:?}->{:?} map of {}", a, t, m.len()));
        }
        if sample {
            r.sample(trace.join("; "));
        }
    }));
    lanes.push(Lane::new("types and targets", Budget::free(), move |r| {
        let a = *pick_from(&KTS);
        let t = *pick_from(&CTS);
        let mut p = Pair::new();
        let k = "m".to_string();
        match pick(8) {
            0 => p.op(r, &Op::Set(k.clone(), Val::Map(a, t, [].into()), None)),
            1 => p.op(r, &Op::Set(k.clone(), Val::Map(a, t, [(a.sample(0), t.sample(5)), (a.sample(1), t.sample(6))].into()), Some(9))),
            2 => p.op(r, &Op::Set(k.clone(), Val::Vec(t, vec![t.sample(0)]), None)),
            3 => p.op(r, &Op::Set(k.clone(), t.sample(0), None)),
            4 => p.op(r, &Op::Set(k.clone(), Val::Null, None)),
            5 => {}
            6 => {
                p.op(r, &Op::Set(k.clone(), Val::Map(a, t, [(a.sample(0), t.sample(5))].into()), Some(1)));
                p.tick(2 * TICK);
            }
            _ => {
                p.op(r, &Op::Set(k.clone(), Val::Map(a, t, [(a.sample(0), t.sample(5))].into()), None));
                p.op(r, &Op::Set("w".into(), Val::Map(a, t, [(a.sample(0), t.sample(6))].into()), None));
            }
        }
        let keys = [Val::Null, Val::Bool(true), Val::Int(0), Val::Int(-1), s("0"), s("k0"), s(""), f(0.0), Val::Vec(t, vec![]), Val::Map(a, t, [].into())];
        let values = [Val::Null, Val::Bool(false), s("x"), Val::Int(7), f(0.5), Val::Vec(t, vec![]), Val::Map(a, t, [].into())];
        p.sys.text = flag();
        for _ in 0..2 {
            let op = match pick(5) {
                0 => Op::MSet(k.clone(), pick_from(&keys).clone(), pick_from(&values).clone()),
                1 => Op::MGet(k.clone(), pick_from(&keys).clone()),
                2 => Op::MDel(k.clone(), pick_from(&keys).clone()),
                3 => Op::MEx(k.clone(), pick_from(&keys).clone()),
                _ => Op::MLen(k.clone()),
            };
            p.op(r, &op);
            if p.dead {
                return;
            }
        }
        r.state(p.m.hash());
        finish_collection(r, &mut p, &[k.clone(), "w".into()]);
        r.outcome(&p.m.map.get(&k).map_or("absent".into(), |e| format!("{:?}", e.val.typ())));
    }));
    let near = if quick { 4 } else { 5 };
    lanes.push(Lane::new("keys that are almost equal", Budget::free(), move |r| {
        let ints = flag();
        let (a, x, y) = if ints {
            let (x, y) = *pick_from(&NEAR_INTS);
            (Kt::Int, Val::Int(x), Val::Int(y))
        } else {
            let all = near_strings();
            let (x, y) = pick_from(&all).clone();
            (Kt::Str, Val::Str(x), Val::Str(y))
        };
        let t = Ct::Int;
        let mut p = Pair::new();
        p.sys.text = flag();
        let k = "m".to_string();
        let init = match pick(3) {
            0 => vec![],
            1 => vec![(x.clone(), Val::Int(-5))],
            _ => vec![(x.clone(), Val::Int(-5)), (y.clone(), Val::Int(-6))],
        };
        p.op(r, &Op::Set(k.clone(), Val::Map(a, t, init.into_iter().collect()), None));
        for n in 0..near - 1 {
            let e = if flag() { y.clone() } else { x.clone() };
            let op = match pick(4) {
                0 => Op::MSet(k.clone(), e, t.sample(n)),
                1 => Op::MDel(k.clone(), e),
                2 => Op::MGet(k.clone(), e),
                _ => Op::MEx(k.clone(), e),
            };
            p.op(r, &op);
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        finish_collection(r, &mut p, &[k.clone()]);
        for e in [&x, &y] {
            p.op(r, &Op::MGet(k.clone(), e.clone()));
            p.op(r, &Op::MEx(k.clone(), e.clone()));
        }
        r.outcome(&format!("{:?}", p.m.map.get(&k).map(|e| e.val.typ())));
        if r.wants_sample() {
            r.sample(format!("keys {:?} and {:?}: {:?}", x, y, p.m.map));
        }
    }));
    lanes.push(Lane::new("values of entries", Budget::free(), move |r| {
        let values = border_values();
        let v = pick_from(&values).clone();
        let Some(t) = list_type(&v) else { return };
        let a = *pick_from(&KTS);
        let mut p = Pair::new();
        p.sys.text = flag();
        let k = "m".to_string();
        let m = if flag() { vec![(a.sample(1), t.sample(1))] } else { vec![(a.sample(0), v.clone()), (a.sample(1), t.sample(3))] };
        p.op(r, &Op::Set(k.clone(), Val::Map(a, t, m.into_iter().collect()), None));
        p.op(r, &Op::TryGet(k.clone()));
        p.op(r, &Op::MSet(k.clone(), a.sample(*pick_from(&[0, 1, 2])), v.clone()));
        p.op(r, &Op::TryGet(k.clone()));
        for i in 0..3 {
            p.op(r, &Op::MGet(k.clone(), a.sample(i)));
            p.op(r, &Op::MEx(k.clone(), a.sample(i)));
            p.op(r, &Op::MDel(k.clone(), a.sample(i)));
            p.op(r, &Op::MLen(k.clone()));
        }
        r.state(p.m.hash());
        r.distinct(hash64(&format!("{:?}", v)));
        r.outcome(&format!("{:?}", t));
    }));
    lanes.push(Lane::new("as query text", Budget::free(), move |r| {
        let a = *pick_from(&KTS);
        let t = *pick_from(&CTS);
        let mut p = Pair::new();
        p.sys.text = true;
        let k = "m".to_string();
        p.op(r, &Op::Set(k.clone(), Val::Map(a, t, [(a.sample(0), t.sample(50))].into()), None));
        for n in 0..depth - 2 {
            let op = match pick(11) {
                0 => Op::MSet(k.clone(), a.sample(0), t.sample(n)),
                1 => Op::MSet(k.clone(), a.sample(1), t.sample(n + 10)),
                2 => Op::MDel(k.clone(), a.sample(0)),
                3 => Op::MDel(k.clone(), a.sample(1)),
                4 => Op::MGet(k.clone(), a.sample(0)),
                5 => Op::MGet(k.clone(), a.sample(1)),
                6 => Op::MEx(k.clone(), a.sample(0)),
                7 => Op::MEx(k.clone(), a.sample(1)),
                8 => Op::MLen(k.clone()),
                9 => Op::MSet(k.clone(), a.sample(0), other(t).sample(n)),
                _ => Op::MSet(k.clone(), if a == Kt::Int { Kt::Str } else { Kt::Int }.sample(0), t.sample(n)),
            };
            p.op(r, &op);
            if p.dead {
                return;
            }
            r.state(p.m.hash());
        }
        finish_collection(r, &mut p, &[k.clone()]);
        r.outcome(&format!("{:?}->{:?}", a, t));
    }));
    let big = if quick { vec![3usize, 9, 40, 150] } else { vec![1, 2, 3, 4, 5, 8, 16, 17, 33, 65, 129, 300, 1000] };
    lanes.push(Lane::new("large maps", Budget::free(), move |r| {
        let a = *pick_from(&KTS);
        let t = *pick_from(&CTS);
        let n = *pick_from(&big);
        let mut p = Pair::new();
        let k = "m".to_string();
        p.op(r, &Op::Set(k.clone(), Val::Map(a, t, [].into()), None));
        for i in 0..n {
            p.op(r, &Op::MSet(k.clone(), a.sample(i), t.sample(i)));
        }
        p.op(r, &Op::TryGet(k.clone()));
        let at = [0, n / 2, n - 1, n];
        for _ in 0..2 {
            let e = a.sample(*pick_from(&at));
            match pick(4) {
                0 => p.op(r, &Op::MSet(k.clone(), e, t.sample(777))),
                1 => p.op(r, &Op::MDel(k.clone(), e)),
                2 => p.op(r, &Op::MGet(k.clone(), e)),
                _ => p.op(r, &Op::MEx(k.clone(), e)),
            }
            p.op(r, &Op::MLen(k.clone()));
        }
        p.op(r, &Op::TryGet(k.clone()));
        for i in 0..n + 1 {
            p.op(r, &Op::MDel(k.clone(), a.sample(i)));
        }
        p.op(r, &Op::TryGet(k.clone()));
        r.state(p.m.hash());
        r.outcome(&format!("{:?}->{:?} x {}", a, t, n));
    }));
    lanes
}

// ------------------------------------------------------------------------------------------------
// C07, C08: requests
// ------------------------------------------------------------------------------------------------

pub fn preload(r: &mut Run, p: &mut Pair, which: usize) {
    let ops: Vec<Op> = match which {
        0 => vec![],
        1 => vec![
            Op::Set("a".into(), Val::Int(1), None),
            Op::Set("v".into(), Val::Vec(Ct::Int, vec![Val::Int(5)]), None),
            Op::Set("m".into(), Val::Map(Kt::Str, Ct::Int, [(s("x"), Val::Int(6))].into()), None),
        ],
        _ => vec![
            Op::Set("a".into(), Val::Int(1), Some(1)),
            Op::Set("v".into(), Val::Vec(Ct::Int, vec![]), Some(9)),
            Op::Set("m".into(), Val::Int(3), None),
            Op::Null,
        ],
    };
    for o in &ops {
        p.op(r, o);
    }
    if which == 2 {
        p.tick(2 * TICK);
    }
}

pub fn request(r: &mut Run, p: &mut Pair, ops: &[Op], level: Level) {
    p.sync();
    let want = p.m.request(ops, level);
    let got = p.sys.request(ops, level);
    r.transitions(ops.len() as u64);
    p.judge(r, &format!("{:?} at level {:?}", ops, level), &want, got, None);
    r.outcome(&want.class());
    r.state(p.m.hash());
    let keys: Vec<String> = ["a", "v", "m", "n"].iter().map(|x| x.to_string()).collect();
    p.readback(r, &keys);
    if r.wants_sample() {
        r.sample(format!("{:?} at {:?} -> {:?}", ops, level, want));
    }
}

pub fn c07(quick: bool) -> Vec<Lane> {
    let menu = |i: usize| -> Vec<Op> {
        vec![
            Op::Set("a".into(), Val::Int(10 + i as i64), None),
            Op::Get("a".into()),
            Op::Get("missing".into()),
            Op::SetNew("n".into(), Val::Int(20 + i as i64), None),
            Op::VPush("v".into(), Val::Int(30 + i as i64)),
            Op::VPop("v".into()),
            Op::Shutdown,
            Op::Delete("a".into()),
            Op::MSet("m".into(), s("x"), Val::Int(40 + i as i64)),
            Op::Null,
            Op::Update("n".into(), Val::Int(50 + i as i64), Some(8)),
            Op::SetLife("a".into(), Some(6)),
            Op::Sweep,
            Op::VLen("v".into()),
        ]
    };
    // every kind of refusal, between statements with visible effects
    let failing = || -> Vec<Op> {
        vec![
            Op::Get("missing".into()),
            Op::Type("missing".into()),
            Op::Life("missing".into()),
            Op::SetLife("missing".into(), Some(3)),
            Op::SetLife("missing".into(), None),
            Op::Update("missing".into(), Val::Int(1), None),
            Op::VGet("v".into(), 9),
            Op::VGet("v".into(), usize::MAX),
            Op::VSet("v".into(), 9, Val::Int(1)),
            Op::VSet("v".into(), 0, s("x")),
            Op::VPush("v".into(), s("x")),
            Op::VPush("v".into(), Val::Null),
            Op::VGet("a".into(), 0),
            Op::VSet("a".into(), 0, Val::Int(1)),
            Op::VPush("a".into(), Val::Int(1)),
            Op::VPop("a".into()),
            Op::VLen("a".into()),
            Op::VPop("missing".into()),
            Op::VLen("missing".into()),
            Op::VPush("missing".into(), Val::Int(1)),
            Op::MGet("m".into(), s("absent")),
            Op::MGet("m".into(), Val::Int(1)),
            Op::MSet("m".into(), Val::Int(1), Val::Int(1)),
            Op::MSet("m".into(), s("x"), s("y")),
            Op::MDel("m".into(), Val::Int(1)),
            Op::MEx("m".into(), Val::Int(1)),
            Op::MGet("a".into(), s("x")),
            Op::MSet("a".into(), s("x"), Val::Int(1)),
            Op::MDel("a".into(), s("x")),
            Op::MEx("a".into(), s("x")),
            Op::MLen("a".into()),
            Op::MLen("v".into()),
            Op::VLen("m".into()),
            Op::MLen("missing".into()),
            // and some that only look like it
            Op::Delete("missing".into()),
            Op::TryGet("missing".into()),
            Op::MDel("m".into(), s("absent")),
            Op::SetNew("a".into(), Val::Int(1), None),
            Op::Shutdown,
        ]
    };
    let effects = |i: usize| -> Vec<Op> {
        vec![
            Op::Set("a".into(), Val::Int(10 + i as i64), None),
            Op::SetNew("n".into(), Val::Int(20 + i as i64), None),
            Op::VPush("v".into(), Val::Int(30 + i as i64)),
            Op::MSet("m".into(), s("x"), Val::Int(40 + i as i64)),
            Op::Delete("v".into()),
            Op::Get("a".into()),
        ]
    };
    let max = if quick { 5 } else { 6 };
    let around = if quick { 1 } else { 2 };
    let failing_lane = Lane::new("every kind of refusal between effects", Budget::free(), move |r| {
        let mut p = Pair::new();
        let init = pick(3);
        preload(r, &mut p, init);
        p.sys.text = flag();
        let mut ops: Vec<Op> = vec![];
        let before = pick(around + 1);
        for i in 0..before {
            ops.push(pick_from(&effects(i)).clone());
        }
        ops.push(pick_from(&failing()).clone());
        let after = 1 + pick(around + 1);
        for i in 0..after {
            ops.push(pick_from(&effects(7 + i)).clone());
        }
        request(r, &mut p, &ops, Level::Admin);
    });
    let text_lane = Lane::new("as query text", Budget::free(), move |r| {
        let n = pick(max);
        let mut p = Pair::new();
        p.sys.text = true;
        let init = pick(2);
        preload(r, &mut p, init);
        let ops: Vec<Op> = (0..n).map(|i| pick_from(&menu(i)).clone()).collect();
        request(r, &mut p, &ops, Level::Admin);
    });
    let mut lanes = vec![failing_lane, text_lane, Lane::new("all statement lists", Budget::free(), move |r| {
        let n = pick(max + 1);
        let mut p = Pair::new();
        p.books = false;
        let init = pick(3);
        preload(r, &mut p, init);
        let ops: Vec<Op> = (0..n).map(|i| pick_from(&menu(i)).clone()).collect();
        request(r, &mut p, &ops, Level::Admin);
    })];
    lanes.push(Lane::new("two requests in a row", Budget::free(), move |r| {
        let mut p = Pair::new();
        let init = pick(2);
        preload(r, &mut p, init);
        for q in 0..2 {
            let n = pick(3);
            let ops: Vec<Op> = (0..n).map(|i| pick_from(&menu(i + 5 * q)).clone()).collect();
            request(r, &mut p, &ops, Level::Admin);
            if p.dead {
                return;
            }
        }
    }));
    lanes.push(Lane::new("long lists with one odd statement", Budget::free(), move |r| {
        let n = *pick_from(&[6usize, 17, 40, 130]);
        let at = *pick_from(&[0, 1, 2, n / 2, n - 2, n - 1]);
        let odd = pick_from(&[Op::Get("missing".into()), Op::Shutdown, Op::VPush("a".into(), Val::Null), Op::Null, Op::Delete("v".into())]).clone();
        let mut p = Pair::new();
        preload(r, &mut p, 1);
        let ops: Vec<Op> = (0..n)
            .map(|i| {
                if i == at {
                    odd.clone()
                } else if i % 3 == 0 {
                    Op::VPush("v".into(), Val::Int(i as i64))
                } else {
                    Op::Set("a".into(), Val::Int(i as i64), None)
                }
            })
            .collect();
        request(r, &mut p, &ops, Level::Admin);
    }));
    lanes
}

pub fn c08(quick: bool) -> Vec<Lane> {
    let all = || -> Vec<Op> {
        vec![
            Op::Get("a".into()),
            Op::TryGet("a".into()),
            Op::Exists("a".into()),
            Op::Type("a".into()),
            Op::Life("a".into()),
            Op::VGet("v".into(), 0),
            Op::VLen("v".into()),
            Op::MGet("m".into(), s("x")),
            Op::MLen("m".into()),
            Op::MEx("m".into(), s("x")),
            Op::Null,
            Op::Sweep,
            Op::Get("missing".into()),
            Op::Set("a".into(), Val::Int(77), None),
            Op::SetNew("n".into(), Val::Int(78), Some(3)),
            Op::Update("a".into(), Val::Int(79), None),
            Op::SetLife("a".into(), Some(5)),
            Op::Delete("a".into()),
            Op::VSet("v".into(), 0, Val::Int(80)),
            Op::VPush("v".into(), Val::Int(81)),
            Op::VPop("v".into()),
            Op::MSet("m".into(), s("x"), Val::Int(82)),
            Op::MDel("m".into(), s("x")),
            Op::Shutdown,
            Op::Update("missing".into(), Val::Int(79), None),
        ]
    };
    let max = if quick { 4 } else { 5 };
    let mut lanes = vec![Lane::new("all statement lists at all levels", Budget::free(), move |r| {
        let level = *pick_from(&LEVELS);
        let n = pick(max + 1);
        let mut p = Pair::new();
        preload(r, &mut p, 1);
        let menu = all();
        let ops: Vec<Op> = (0..n).map(|_| pick_from(&menu).clone()).collect();
        request(r, &mut p, &ops, level);
    })];
    lanes.push(Lane::new("as query text", Budget::free(), move |r| {
        let level = *pick_from(&LEVELS);
        let n = pick(max + 1);
        let mut p = Pair::new();
        p.sys.text = true;
        preload(r, &mut p, 1);
        let menu: Vec<Op> = all().into_iter().filter(|o| as_text(std::slice::from_ref(o)).is_some()).collect();
        let ops: Vec<Op> = (0..n).map(|_| pick_from(&menu).clone()).collect();
        request(r, &mut p, &ops, level);
    }));
    lanes.push(Lane::new("one privileged statement in a long list", Budget::free(), move |r| {
        let level = *pick_from(&LEVELS);
        let n = *pick_from(&[4usize, 5, 8, 16, 33, 64, 130]);
        let mut spots = vec![0, 1, 2, n / 2, n - 2, n - 1];
        spots.dedup();
        let at = *pick_from(&spots);
        let at2 = *pick_from(&spots);
        let menu = all();
        let one = pick_from(&menu).clone();
        let two = pick_from(&[Op::Get("a".into()), Op::Get("missing".into()), Op::Shutdown, Op::Set("n".into(), Val::Int(1), None)]).clone();
        let mut p = Pair::new();
        preload(r, &mut p, 1);
        let mut ops: Vec<Op> = (0..n).map(|i| if i % 2 == 0 { Op::Exists("a".into()) } else { Op::VLen("v".into()) }).collect();
        ops[at2] = two;
        ops[at] = one;
        request(r, &mut p, &ops, level);
    }));
    lanes.push(Lane::new("sequences of requests at different levels", Budget::free(), move |r| {
        let mut p = Pair::new();
        preload(r, &mut p, 1);
        let menu = [Op::Get("a".into()), Op::Set("a".into(), Val::Int(5), None), Op::Shutdown, Op::Delete("a".into()), Op::VPop("v".into())];
        for _ in 0..3 {
            let level = *pick_from(&LEVELS);
            let op = pick_from(&menu).clone();
            request(r, &mut p, &[op], level);
            if p.dead {
                return;
            }
        }
    }));
    lanes
}
