//! The explorer: depth-first enumeration of all choice sequences of a lane within its deviation
//! budgets, in forked worker processes, with replay files and evidence.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use vstd::rt::{self, Choice, Kind, KINDS};

/// Sets of visited states are not grown beyond this per worker.
const SET_CAP: usize = 4_000_000;
/// Keys of the known findings of the property.
static KNOWN: OnceLock<Vec<String>> = OnceLock::new();

/// Deviation budgets. `Free` choices cost nothing.
#[derive(Clone, Copy, Debug)]
pub struct Budget {
    pub per_kind: [u32; KINDS],
    pub total: u32,
}
impl Budget {
    /// Only free choices.
    pub fn free() -> Budget {
        Budget { per_kind: [0; KINDS], total: 0 }
    }
    /// `total` deviations, of the given kinds only.
    pub fn of(total: u32, kinds: &[(Kind, u32)]) -> Budget {
        let mut b = Budget { per_kind: [0; KINDS], total };
        for (k, n) in kinds {
            b.per_kind[*k as usize] = *n;
        }
        b
    }
    fn allows(&self, used: &[u32; KINDS], total: u32, k: Kind) -> bool {
        k == Kind::Free || (total < self.total && used[k as usize] < self.per_kind[k as usize])
    }
}

/// A violation with what is needed to replay it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub lane: String,
    pub choices: Vec<u16>,
    /// Short key, used to match known findings.
    pub key: String,
    pub detail: String,
}

/// What a worker has covered.
#[derive(Default, Serialize, Deserialize)]
pub struct Acc {
    pub runs: u64,
    pub choice_points: u64,
    pub transitions: u64,
    pub divergences: u64,
    pub violations: Vec<Violation>,
    pub outcomes: HashMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub capped: bool,
    pub states_capped: bool,
    pub known_hits: BTreeMap<String, String>,
    pub engine_errors: Vec<String>,
    #[serde(skip)]
    pub states: HashSet<u64>,
    #[serde(skip)]
    pub distinct: HashSet<u64>,
}
impl Acc {
    fn merge(&mut self, o: Acc) {
        self.runs += o.runs;
        self.choice_points += o.choice_points;
        self.transitions += o.transitions;
        self.divergences += o.divergences;
        self.violations.extend(o.violations);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 60 {
                self.samples.push(s);
            }
        }
        self.capped |= o.capped;
        self.states_capped |= o.states_capped;
        self.known_hits.extend(o.known_hits);
        self.engine_errors.extend(o.engine_errors);
        self.states.extend(o.states);
        self.distinct.extend(o.distinct);
    }
}

/// One execution of a lane.
pub struct Run<'a> {
    acc: &'a mut Acc,
    fail: Option<(String, String)>,
    /// Collect a trace for the user.
    pub verbose: bool,
    pub log: Vec<String>,
    pub case: String,
    run_no: u64,
}
impl<'a> Run<'a> {
    /// Report a violation (the first one counts).
    pub fn violate(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        if KNOWN.get().is_some_and(|k| k.iter().any(|x| *x == key)) {
            self.acc.known_hits.insert(key, detail.into());
            return;
        }
        if self.fail.is_none() {
            let mut detail: String = detail.into();
            if detail.len() > 20_000 {
                let cut = (0..=20_000).rev().find(|i| detail.is_char_boundary(*i)).unwrap();
                detail.truncate(cut);
                detail.push_str(" ...");
            }
            self.fail = Some((key, detail));
        }
    }
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
    /// A state of the system (or of the reference model tracking it) was visited.
    pub fn state(&mut self, h: u64) {
        if self.acc.states.len() < SET_CAP {
            self.acc.states.insert(h);
        } else {
            self.acc.states_capped = true;
        }
    }
    /// Fingerprint of what made this run different from others.
    pub fn distinct(&mut self, h: u64) {
        if self.acc.distinct.len() < SET_CAP {
            self.acc.distinct.insert(h);
        } else {
            self.acc.states_capped = true;
        }
    }
    /// Steps of the real code executed.
    pub fn transitions(&mut self, n: u64) {
        let beat = BEAT.load(std::sync::atomic::Ordering::Relaxed);
        if !beat.is_null() {
            // SAFETY: set to the slot of this worker; only unmapped once the workers are gone.
            unsafe { (*beat).fetch_add(1, std::sync::atomic::Ordering::Relaxed) };
        }
        self.acc.transitions += n;
    }
    /// Class of the observed outcome.
    pub fn outcome(&mut self, s: &str) {
        if let Some(v) = self.acc.outcomes.get_mut(s) {
            *v += 1;
        } else if self.acc.outcomes.len() < 5000 {
            self.acc.outcomes.insert(s.to_string(), 1);
        }
    }
    pub fn count(&mut self, s: &str, n: u64) {
        if let Some(v) = self.acc.counters.get_mut(s) {
            *v += n;
        } else {
            self.acc.counters.insert(s.to_string(), n);
        }
    }
    /// Should this run be written out as a sample?
    pub fn wants_sample(&self) -> bool {
        self.verbose || (self.acc.samples.len() < 4 && (self.run_no % 97) == 3)
    }
    pub fn sample(&mut self, s: String) {
        if self.acc.samples.len() < 4 {
            self.acc.samples.push(s);
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
}

/// A lane: a closed driver whose nondeterminism is all in choices.
pub struct Lane {
    pub name: String,
    pub budget: Budget,
    pub run: Box<dyn Fn(&mut Run)>,
    /// Stop after this much time (0: the check's time limit).
    pub max_secs: u64,
}
impl Lane {
    pub fn new(name: impl Into<String>, budget: Budget, run: impl Fn(&mut Run) + 'static) -> Lane {
        Lane { name: name.into(), budget, run: Box::new(run), max_secs: 0 }
    }
}

/// A free choice among `n`.
pub fn pick(n: usize) -> usize {
    rt::choose(Kind::Free, n)
}
/// A free choice of an element.
/// An enumerated yes or no.
pub fn flag() -> bool {
    pick(2) == 1
}
pub fn pick_from<T>(xs: &[T]) -> &T {
    &xs[pick(xs.len())]
}

/// Run code under test; a panic is returned as text.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| rt::panic_message(&*p))
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------------------------------------
// Worker processes
// ------------------------------------------------------------------------------------------------

const SLOTS: usize = 64;
const DESC: usize = 6000;

#[repr(C)]
struct Slot {
    beat: AtomicU64,
    item: AtomicU32,
    len: AtomicU32,
    desc: [u8; DESC],
}
#[repr(C)]
struct Shared {
    next: AtomicU32,
    stop: AtomicBool,
    slots: [Slot; SLOTS],
}

fn shared() -> &'static Shared {
    // SAFETY: fresh zeroed shared anonymous memory; all fields are valid when zero.
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}
fn unshare_mem(s: &'static Shared) {
    BEAT.store(std::ptr::null_mut(), SeqCst);
    // SAFETY: nobody uses it any more.
    unsafe {
        libc::munmap(s as *const Shared as *mut _, std::mem::size_of::<Shared>());
    }
}

/// The beat of this worker, also moved by every step of the code under test that returns.
static BEAT: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

fn note_prefix(slot: &Slot, prefix: &[u16]) {
    BEAT.store(&slot.beat as *const AtomicU64 as *mut AtomicU64, SeqCst);
    let n = prefix.len().min(DESC / 2);
    // SAFETY: only this worker writes its slot.
    unsafe {
        let p = slot.desc.as_ptr() as *mut u16;
        std::ptr::copy_nonoverlapping(prefix.as_ptr(), p, n);
    }
    slot.len.store(n as u32, SeqCst);
    slot.beat.fetch_add(1, SeqCst);
}
fn read_prefix(slot: &Slot) -> Vec<u16> {
    let n = slot.len.load(SeqCst) as usize;
    let mut v = vec![0u16; n];
    // SAFETY: the worker is gone.
    unsafe { std::ptr::copy_nonoverlapping(slot.desc.as_ptr() as *const u16, v.as_mut_ptr(), n) };
    v
}

fn cpu_ticks(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let after = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = after.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn memfd() -> i32 {
    // SAFETY: plain system call.
    let fd = unsafe { libc::memfd_create(b"acc\0".as_ptr() as *const _, 0) };
    assert!(fd >= 0, "memfd_create");
    fd
}
fn write_acc(fd: i32, acc: &Acc, extra: &[u8]) {
    use std::os::fd::FromRawFd;
    // SAFETY: the descriptor is ours.
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let j = serde_json::to_vec(acc).unwrap();
    let mut w = std::io::BufWriter::new(&mut f);
    w.write_all(&(j.len() as u64).to_le_bytes()).unwrap();
    w.write_all(&j).unwrap();
    for set in [&acc.states, &acc.distinct] {
        w.write_all(&(set.len() as u64).to_le_bytes()).unwrap();
        for s in set {
            w.write_all(&s.to_le_bytes()).unwrap();
        }
    }
    w.write_all(&(extra.len() as u64).to_le_bytes()).unwrap();
    w.write_all(extra).unwrap();
    w.flush().unwrap();
    drop(w);
    std::mem::forget(f);
}
fn read_acc(fd: i32) -> Option<(Acc, Vec<u8>)> {
    use std::os::fd::FromRawFd;
    // SAFETY: the descriptor is ours.
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    use std::io::Seek;
    f.seek(std::io::SeekFrom::Start(0)).ok()?;
    let mut b = vec![];
    f.read_to_end(&mut b).ok()?;
    let mut pos = 0usize;
    let u = |pos: &mut usize| -> Option<u64> {
        let v = u64::from_le_bytes(b.get(*pos..*pos + 8)?.try_into().ok()?);
        *pos += 8;
        Some(v)
    };
    let n = u(&mut pos)? as usize;
    let mut acc: Acc = serde_json::from_slice(b.get(pos..pos + n)?).ok()?;
    pos += n;
    for k in 0..2 {
        let m = u(&mut pos)?;
        let mut set = HashSet::with_capacity(m as usize);
        for _ in 0..m {
            set.insert(u(&mut pos)?);
        }
        if k == 0 {
            acc.states = set
        } else {
            acc.distinct = set
        }
    }
    let n = u(&mut pos)? as usize;
    let extra = b.get(pos..pos + n)?.to_vec();
    Some((acc, extra))
}

fn limit_memory(bytes: u64) {
    // SAFETY: plain system call.
    unsafe {
        let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// How a worker ended.
enum Death {
    Ok,
    Signal(i32),
    Exit(i32),
    Hang,
    Stuck,
}

/// One run; returns the choices made.
fn one(lane: &Lane, prefix: &[u16], acc: &mut Acc, verbose: bool) -> (Vec<Choice>, Vec<String>, bool) {
    statics::restore();
    rt::set_clock(0);
    rt::set_rng(rt::RngMode::Rotate(0));
    rt::set_passive_limit(0);
    rt::begin_choices(prefix);
    acc.runs += 1;
    let run_no = acc.runs;
    let mut r = Run { acc, fail: None, verbose, log: vec![], case: String::new(), run_no };
    let res = catch_unwind(AssertUnwindSafe(|| (lane.run)(&mut r)));
    let fail = r.fail.take();
    let log = std::mem::take(&mut r.log);
    drop(r);
    let (choices, div) = rt::end_choices();
    let mut bad = false;
    if let Err(p) = res {
        acc.engine_errors.push(format!("lane {}: {}", lane.name, rt::panic_message(&*p)));
        bad = true;
    }
    if let Some(d) = div {
        acc.divergences += 1;
        acc.counters.insert(format!("divergence in {}: {}", lane.name, d), 1);
    }
    acc.choice_points += choices.len() as u64;
    if let Some((key, detail)) = fail {
        acc.violations.push(Violation {
            lane: lane.name.clone(),
            choices: choices.iter().map(|c| c.c).collect(),
            key,
            detail,
        });
        bad = true;
    }
    (choices, log, bad)
}

/// Next prefix in depth-first order, positions below `base` fixed.
fn advance(log: &[Choice], base: usize, b: &Budget) -> Option<Vec<u16>> {
    let mut used = [0u32; KINDS];
    let mut total = 0;
    let mut best: Option<usize> = None;
    for (i, c) in log.iter().enumerate() {
        if i >= base && c.c + 1 < c.n {
            // raising this choice: if it is 0 now it becomes a deviation
            let ok = if c.c > 0 { true } else { b.allows(&used, total, c.kind) };
            if ok {
                best = Some(i);
            }
        }
        if c.c > 0 && c.kind != Kind::Free {
            used[c.kind as usize] += 1;
            total += 1;
        }
    }
    best.map(|i| {
        let mut p: Vec<u16> = log[..i].iter().map(|c| c.c).collect();
        p.push(log[i].c + 1);
        p
    })
}

/// All subtrees hanging off the default path below `prefix`.
fn children(log: &[Choice], base: usize, b: &Budget) -> Vec<Vec<u16>> {
    let mut out = vec![];
    let mut used = [0u32; KINDS];
    let mut total = 0;
    for (i, c) in log.iter().enumerate() {
        if i >= base {
            for alt in 1..c.n {
                if b.allows(&used, total, c.kind) {
                    let mut p: Vec<u16> = log[..i].iter().map(|c| c.c).collect();
                    p.push(alt);
                    out.push(p);
                }
            }
        }
        if c.c > 0 && c.kind != Kind::Free {
            used[c.kind as usize] += 1;
            total += 1;
        }
    }
    out
}

/// Settings of a check.
pub struct Check {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub workers: usize,
    pub deadline: Instant,
    pub start: Instant,
    pub total: Acc,
    pub lanes: Vec<String>,
    pub fatal: Vec<String>,
    pub per_lane: Vec<serde_json::Value>,
    /// Key of a violation -> known finding.
    pub known: Vec<(String, String)>,
    pub notes: Vec<String>,
    pub assumptions: Vec<String>,
}

impl Check {
    pub fn new(property: &str, tier: &str, secs: u64) -> Check {
        let start = Instant::now();
        let workers = std::env::var("VERIF_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16)
        });
        Check {
            property: property.to_string(),
            tier: tier.to_string(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
            workers,
            deadline: start + Duration::from_secs(secs),
            start,
            total: Acc::default(),
            lanes: vec![],
            fatal: vec![],
            per_lane: vec![],
            known: load_known(property),
            notes: vec![],
            assumptions: vec![],
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }
    pub fn violated(&self) -> bool {
        !self.total.violations.is_empty()
    }

    /// Fork workers that each take items until none is left.
    fn fork_pool(
        &mut self,
        lane: &Lane,
        n_workers: usize,
        body: &dyn Fn(&Shared, usize, &mut Acc) -> Vec<u8>,
    ) -> Vec<(Acc, Vec<u8>)> {
        let sh = shared();
        let mut out = vec![];
        let mut kids: Vec<(i32, i32, usize, u64, u64, Instant)> = vec![];
        let _ = std::io::stdout().flush();
        for w in 0..n_workers {
            let fd = memfd();
            // SAFETY: this process is single-threaded here.
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                limit_memory(3 << 30);
                rt::install_panic_hook();
                statics::snapshot();
                let mut acc = Acc::default();
                let extra = body(sh, w, &mut acc);
                write_acc(fd, &acc, &extra);
                unsafe { libc::_exit(0) };
            }
            kids.push((pid, fd, w, 0, 0, Instant::now()));
        }
        let mut deaths: Vec<(usize, Death)> = vec![];
        while !kids.is_empty() {
            let mut still = vec![];
            for (pid, fd, w, beat, ticks, since) in kids {
                let mut status = 0;
                let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
                if r == pid {
                    if libc::WIFSIGNALED(status) {
                        deaths.push((w, Death::Signal(libc::WTERMSIG(status))));
                        unsafe { libc::close(fd) };
                    } else {
                        let code = libc::WEXITSTATUS(status);
                        if code == 0 {
                            match read_acc(fd) {
                                Some(a) => {
                                    out.push(a);
                                    deaths.push((w, Death::Ok));
                                }
                                None => deaths.push((w, Death::Exit(-1))),
                            }
                        } else {
                            deaths.push((w, Death::Exit(code)));
                            unsafe { libc::close(fd) };
                        }
                    }
                    continue;
                }
                let b = sh.slots[w].beat.load(SeqCst);
                if b != beat {
                    still.push((pid, fd, w, b, cpu_ticks(pid), Instant::now()));
                    continue;
                }
                let spent = cpu_ticks(pid).saturating_sub(ticks);
                // the beat stops while results are written out; that is quick
                if spent > 2500 || since.elapsed() > Duration::from_secs(180) {
                    let d = if spent > 2500 { Death::Hang } else { Death::Stuck };
                    unsafe {
                        libc::kill(pid, libc::SIGKILL);
                        libc::waitpid(pid, &mut status, 0);
                        libc::close(fd);
                    }
                    deaths.push((w, d));
                    continue;
                }
                still.push((pid, fd, w, beat, ticks, since));
            }
            kids = still;
            if !kids.is_empty() {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        for (w, d) in deaths {
            let slot = &sh.slots[w];
            let prefix = read_prefix(slot);
            let crash = |what: String| Violation {
                lane: lane.name.clone(),
                choices: prefix.clone(),
                key: "crash".into(),
                detail: what,
            };
            match d {
                Death::Ok => {}
                Death::Signal(s) if s == libc::SIGKILL => {
                    self.fatal.push(format!("lane {}: a worker was killed (memory?)", lane.name));
                }
                Death::Signal(s) => self.total.violations.push(crash(format!(
                    "the code under test took its process down with signal {} (abort, stack overflow or memory exhaustion)",
                    s
                ))),
                Death::Hang => self.total.violations.push(crash("the code under test never came back (endless computation)".into())),
                Death::Stuck => self.fatal.push(format!("lane {}: a worker made no progress for 180 s", lane.name)),
                Death::Exit(c) => self.fatal.push(format!("lane {}: a worker ended with code {}", lane.name, c)),
            }
        }
        unshare_mem(sh);
        out
    }

    /// Explore a lane completely within its budget.
    pub fn explore(&mut self, lane: Lane) -> Option<Lane> {
        if self.violated() || !self.fatal.is_empty() {
            return None;
        }
        let t0 = Instant::now();
        let deadline = if lane.max_secs > 0 { self.deadline.min(t0 + Duration::from_secs(lane.max_secs)) } else { self.deadline };
        if Instant::now() >= deadline {
            self.total.capped = true;
            self.per_lane.push(serde_json::json!({"lane": lane.name, "skipped": "time limit reached"}));
            return None;
        }
        self.lanes.push(lane.name.clone());
        let target = 3000usize;
        // 1. split the tree
        let lane_ref = &lane;
        let first = self.fork_pool(&lane, 1, &|sh, w, acc| {
            let mut queue: std::collections::VecDeque<Vec<u16>> = [vec![]].into();
            let mut leaves = 0usize;
            let t = Instant::now();
            while let Some(p) = queue.pop_front() {
                if queue.len() + 1 >= target || t.elapsed() > Duration::from_secs(3) {
                    queue.push_front(p);
                    break;
                }
                note_prefix(&sh.slots[w], &p);
                let (log, _, bad) = one(lane_ref, &p, acc, false);
                leaves += 1;
                if bad {
                    break;
                }
                for c in children(&log, p.len(), &lane_ref.budget) {
                    queue.push_back(c);
                }
            }
            let _ = leaves;
            // replay determinism: the first run again must make the same choices
            if acc.violations.is_empty() && acc.engine_errors.is_empty() {
                let mut scratch = Acc::default();
                note_prefix(&sh.slots[w], &[]);
                let (l1, _, _) = one(lane_ref, &[], &mut scratch, false);
                let p: Vec<u16> = l1.iter().map(|c| c.c).collect();
                let (l2, _, _) = one(lane_ref, &p, &mut scratch, false);
                if l1 != l2 {
                    acc.divergences += 1;
                }
            }
            serde_json::to_vec(&queue.into_iter().collect::<Vec<_>>()).unwrap()
        });
        let mut items: Vec<Vec<u16>> = vec![];
        let mut lane_acc = Acc::default();
        for (a, extra) in first {
            lane_acc.merge(a);
            items = serde_json::from_slice(&extra).unwrap_or_default();
        }
        // 2. explore the subtrees
        if lane_acc.violations.is_empty() && !self.violated() && self.fatal.is_empty() && !items.is_empty() && lane_acc.engine_errors.is_empty() {
            // big subtrees (those that deviate early) first
            let items_ref = &items;
            let n = self.workers.min(items.len());
            let rest = self.fork_pool(&lane, n, &|sh, w, acc| {
                'items: loop {
                    if sh.stop.load(SeqCst) {
                        break;
                    }
                    let i = sh.next.fetch_add(1, SeqCst) as usize;
                    if i >= items_ref.len() {
                        break;
                    }
                    let base = items_ref[i].len();
                    let mut p = items_ref[i].clone();
                    sh.slots[w].item.store(i as u32, SeqCst);
                    let mut k = 0u32;
                    loop {
                        note_prefix(&sh.slots[w], &p);
                        let (log, _, bad) = one(lane_ref, &p, acc, false);
                        if bad {
                            sh.stop.store(true, SeqCst);
                            break 'items;
                        }
                        match advance(&log, base, &lane_ref.budget) {
                            Some(q) => p = q,
                            None => break,
                        }
                        k += 1;
                        if k % 64 == 0 {
                            if sh.stop.load(SeqCst) {
                                break 'items;
                            }
                            if Instant::now() > deadline {
                                acc.capped = true;
                                break 'items;
                            }
                        }
                    }
                    if Instant::now() > deadline {
                        if (sh.next.load(SeqCst) as usize) < items_ref.len() {
                            acc.capped = true;
                        }
                        break;
                    }
                }
                vec![]
            });
            for (a, _) in rest {
                lane_acc.merge(a);
            }
        }
        // shortest counterexample first
        lane_acc.violations.sort_by_key(|v| (v.choices.iter().filter(|c| **c != 0).count(), v.choices.len()));
        if lane_acc.divergences > 0 && lane_acc.violations.is_empty() {
            self.notes.push(format!("lane {}: {} executions did not follow their prefix", lane.name, lane_acc.divergences));
        }
        for e in lane_acc.engine_errors.drain(..) {
            self.fatal.push(e);
        }
        self.per_lane.push(serde_json::json!({
            "lane": lane.name,
            "executions": lane_acc.runs,
            "choice_points": lane_acc.choice_points,
            "transitions": lane_acc.transitions,
            "states": lane_acc.states.len(),
            "distinct_cases": lane_acc.distinct.len(),
            "distinct_outcomes": lane_acc.outcomes.len(),
            "deviation_bound": lane.budget.total,
            "complete": !lane_acc.capped,
            "seconds": t0.elapsed().as_secs_f64(),
        }));
        self.total.merge(lane_acc);
        Some(lane)
    }

    /// Does a violation show again when replayed in a fresh process?
    fn confirm(&self, lane: &Lane, v: &Violation) -> bool {
        let _ = std::io::stdout().flush();
        let sh = shared();
        // SAFETY: this process is single-threaded here.
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            limit_memory(3 << 30);
            rt::install_panic_hook();
            let mut acc = Acc::default();
            one(lane, &v.choices, &mut acc, false);
            let ok = acc.violations.iter().any(|w| w.key == v.key);
            unsafe { libc::_exit(if ok { 7 } else { 0 }) };
        }
        let t = Instant::now();
        let mut status = 0;
        let r = loop {
            let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
            if r == pid {
                break libc::WIFSIGNALED(status) || libc::WEXITSTATUS(status) == 7;
            }
            if t.elapsed() > Duration::from_secs(60) {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut status, 0);
                }
                break true;
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        unshare_mem(sh);
        r
    }

    /// Explore all lanes, then write the evidence and the verdict. Returns the exit code.
    pub fn run(mut self, lanes: Vec<Lane>) -> i32 {
        let mut confirmed = None;
        for lane in lanes {
            if std::env::var("VERIF_LANE").is_ok_and(|f| !lane.name.contains(&f)) {
                continue;
            }
            let t = Instant::now();
            let name = lane.name.clone();
            let lane = self.explore(lane);
            if std::env::var("VERIF_VERBOSE").is_ok() {
                eprintln!("{:6.1}s {:6.1}s {}", self.start.elapsed().as_secs_f64(), t.elapsed().as_secs_f64(), self.per_lane.last().map(|x| x.to_string()).unwrap_or(name));
            }
            if let (Some(lane), Some(v)) = (lane, self.total.violations.first()) {
                confirmed = Some(self.confirm(&lane, v));
                break;
            }
            if !self.fatal.is_empty() {
                break;
            }
        }
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replays"));
        let wall = self.start.elapsed().as_secs_f64();
        let complete = !self.total.capped && self.fatal.is_empty() && self.total.violations.is_empty();
        let mut outcomes: Vec<(&String, &u64)> = self.total.outcomes.iter().collect();
        outcomes.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
        let ev = serde_json::json!({
            "property": self.property,
            "tier": if self.tier == "thorough" { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.total.states.len(),
                "states_is_lower_bound": self.total.states_capped,
                "transitions": self.total.transitions,
                "traces_validated_against_impl": self.total.runs,
                "choice_points": self.total.choice_points,
                "distinct_cases": self.total.distinct.len(),
                "outcome_classes": outcomes.iter().take(25).map(|(k, v)| format!("{} x{}", k, v)).collect::<Vec<_>>(),
                "counters": self.total.counters,
                "samples": self.total.samples.iter().take(12).collect::<Vec<_>>(),
                "lanes": self.per_lane,
                "exhaustive": complete,
                "explanation": "Each lane enumerates every choice sequence (inputs, random picks, schedules, faults) within its stated bounds; every enumerated execution runs the real code of /repo under the modelled std/tokio/rand and is compared step by step with an independent reference. states = distinct reference/system states visited; transitions = operations or scheduling steps of the real code executed.",
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.total.violations.len(),
        });
        let _ = std::fs::write(dir.join(format!("{}.json", self.property)), serde_json::to_string_pretty(&ev).unwrap() + "\n");
        for (k, d) in &self.total.known_hits {
            let what = self.known.iter().find(|x| x.0 == *k).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: property={} {} ({})", self.property, what, d);
        }
        if let Some(v) = self.total.violations.first() {
            let path = dir.join("replays").join(format!("{}.json", self.property));
            let j = serde_json::json!({
                "property": self.property, "tier": self.tier, "lane": v.lane, "choices": v.choices,
                "key": v.key, "detail": v.detail,
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n");
            println!("{} violated in lane {}: {}", self.property, v.lane, v.detail);
            if confirmed == Some(false) {
                println!("(the replay in a fresh process did not show it again)");
            }
            println!("VIOLATION property={} replay={}", self.property, path.display());
            return 1;
        }
        if !self.fatal.is_empty() {
            for f in &self.fatal {
                println!("ERROR {}: {}", self.property, f);
            }
            return 2;
        }
        println!(
            "{} holds on everything explored: {} executions, {} states, {} transitions, {} lanes, {:.1} s{}",
            self.property,
            self.total.runs,
            self.total.states.len(),
            self.total.transitions,
            self.per_lane.len(),
            wall,
            if self.total.capped { " (stopped at the time limit)" } else { "" }
        );
        0
    }

    /// Replay one case with a trace.
    pub fn replay(lane: &Lane, choices: &[u16]) -> Acc {
        rt::install_panic_hook();
        let mut acc = Acc::default();
        let (log, lines, _) = one(lane, choices, &mut acc, true);
        for l in lines {
            println!("{}", l);
        }
        println!("choices: {:?}", log.iter().map(|c| c.c).collect::<Vec<_>>());
        acc
    }
}

/// The directory of the framework.
pub fn verif_dir() -> std::path::PathBuf {
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../..").canonicalize().unwrap_or_else(|_| "/verif".into())
}

/// Known findings of a property: lines `KNOWN property=<id> key=<key> <text>`.
fn load_known(property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let mut w = l.splitn(4, ' ');
        if w.next() == Some("KNOWN") && w.next() == Some(&format!("property={}", property)) {
            if let Some(k) = w.next().and_then(|k| k.strip_prefix("key=")) {
                out.push((k.to_string(), w.next().unwrap_or("").to_string()));
            }
        }
    }
    let _ = KNOWN.set(out.iter().map(|x| x.0.clone()).collect());
    out
}

/// Process-wide mutable state of the code under test is put back before every execution.
mod statics {
    use std::cell::RefCell;
    extern "C" {
        static mut __data_start: u8;
        static mut _end: u8;
    }
    thread_local! {
        static SNAP: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    }
    fn needed() -> bool {
        !include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../stage/bins/src/info.txt")).contains("statics=0")
    }
    fn range() -> (*mut u8, usize) {
        let a = &raw mut __data_start;
        let b = &raw mut _end;
        (a, b as usize - a as usize)
    }
    pub fn snapshot() {
        if !needed() {
            return;
        }
        let (a, n) = range();
        // SAFETY: the writable data of this single-threaded process.
        let v = unsafe { std::slice::from_raw_parts(a, n) }.to_vec();
        SNAP.with(|s| *s.borrow_mut() = v);
    }
    pub fn restore() {
        SNAP.with(|s| {
            let s = s.borrow();
            if s.is_empty() {
                return;
            }
            let (a, n) = range();
            assert_eq!(n, s.len());
            // SAFETY: nothing else runs; the explorer keeps its own state in thread-locals and on the heap.
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), a, n) };
        })
    }
}
