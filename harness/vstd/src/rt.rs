//! The model runtime: choice enumeration, virtual clock, and a controlled scheduler that runs the
//! code's threads and tasks as coroutines, one at a time.
//!
//! Every OS thread of the explorer owns an independent runtime (all state is thread-local).

use ::std::any::Any;
use ::std::cell::{Cell, RefCell};
use ::std::collections::{HashMap, VecDeque};
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe, Location};
use ::std::rc::Rc;
use ::std::task::Waker;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

// ------------------------------------------------------------------------------------------------
// Choices
// ------------------------------------------------------------------------------------------------

/// Kind of a choice point; every kind has its own deviation budget in the explorer.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    /// Switch away from a thread that could go on.
    Preempt = 0,
    /// Which thread continues when the running one blocked or ended.
    Switch = 1,
    /// Let the clock run to the next deadline although threads could go on.
    Time = 2,
    /// Number of bytes a write accepts.
    ShortWrite = 3,
    /// Number of bytes a read delivers.
    ShortRead = 4,
    /// An I/O error instead of success.
    IoError = 5,
    /// The outcome of a random draw.
    Rng = 6,
    /// A choice of the driver itself.
    Free = 7,
}
/// Number of kinds.
pub const KINDS: usize = 8;

/// One resolved choice.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    /// Kind.
    pub kind: Kind,
    /// Number of alternatives.
    pub n: u16,
    /// The alternative taken.
    pub c: u16,
}

#[derive(Default)]
struct Chooser {
    prefix: Vec<u16>,
    log: Vec<Choice>,
    diverged: Option<String>,
}

::std::thread_local! {
    static CH: RefCell<Chooser> = RefCell::new(Chooser::default());
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static RNG: RefCell<RngMode> = const { RefCell::new(RngMode::Rotate(0)) };
    static RNG_DRAWS: Cell<u64> = const { Cell::new(0) };
    static EXEC: RefCell<Option<Box<Exec>>> = const { RefCell::new(None) };
    static YIELDER: Cell<*const Yielder<(), ()>> = const { Cell::new(::std::ptr::null()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static PASSIVE_LIMIT: Cell<u64> = const { Cell::new(0) };
}

/// Start a run that follows `prefix` and then takes alternative 0 everywhere.
pub fn begin_choices(prefix: &[u16]) {
    CH.with(|c| {
        let mut c = c.borrow_mut();
        c.prefix.clear();
        c.prefix.extend_from_slice(prefix);
        c.log.clear();
        c.diverged = None;
    });
}

/// End a run: the resolved choices, and a message if the prefix could not be followed.
pub fn end_choices() -> (Vec<Choice>, Option<String>) {
    CH.with(|c| {
        let mut c = c.borrow_mut();
        if c.log.len() < c.prefix.len() && c.diverged.is_none() {
            c.diverged = Some(format!("run ended after {} of {} prescribed choices", c.log.len(), c.prefix.len()));
        }
        (::std::mem::take(&mut c.log), c.diverged.take())
    })
}

/// Resolve a choice among `n` alternatives.
pub fn choose(kind: Kind, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    CH.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.log.len();
        let mut v = if i < c.prefix.len() { c.prefix[i] } else { 0 };
        if v as usize >= n {
            c.diverged = Some(format!("choice {} is {} of only {} alternatives", i, v, n));
            v = 0;
        }
        c.log.push(Choice { kind, n: n as u16, c: v });
        v as usize
    })
}

// ------------------------------------------------------------------------------------------------
// Clock and random numbers
// ------------------------------------------------------------------------------------------------

/// Nanoseconds of virtual time; every reading is later than the one before.
pub fn now_ns() -> u64 {
    CLOCK.with(|c| {
        c.set(c.get() + 1);
        c.get()
    })
}
/// The virtual time without advancing it.
pub fn peek_ns() -> u64 {
    CLOCK.with(|c| c.get())
}
/// Set the virtual clock.
pub fn set_clock(ns: u64) {
    CLOCK.with(|c| c.set(ns));
}
/// Advance the virtual clock.
pub fn advance_clock(ns: u64) {
    CLOCK.with(|c| c.set(c.get() + ns));
}

/// Where random numbers come from.
#[derive(Clone, Debug)]
pub enum RngMode {
    /// Each draw is an enumerated choice of a pick among `n`.
    Enumerate(usize),
    /// Each draw picks index `i` of `n`.
    Pick(usize, usize),
    /// A fixed well-mixed sequence.
    Rotate(u64),
}
/// Set the source of random numbers.
pub fn set_rng(m: RngMode) {
    RNG_DRAWS.with(|d| d.set(0));
    RNG.with(|r| *r.borrow_mut() = m);
}
/// Random draws since the last reset.
pub fn rng_draws() -> u64 {
    RNG_DRAWS.with(|d| d.get())
}
/// Reset the draw counter.
pub fn reset_rng_draws() {
    RNG_DRAWS.with(|d| d.set(0));
}
/// A number which picks index `i` of `n` by remainder and by high-bits scaling, of all its bits
/// or of its upper half.
pub fn pick_value(i: usize, n: usize) -> u64 {
    if n == 0 {
        return 0;
    }
    let (i, n) = (i as u128, n as u128);
    if n > 1 << 20 {
        let mid = ((4 * i + 1) << 64) / (4 * n);
        return (mid - (mid % n) + i) as u64;
    }
    // a quarter into the i-th of n slices, then adjusted to the remainder i, in both halves
    let mid = ((4 * i + 1) << 32) / (4 * n);
    let high = (mid - (mid % n) + i) << 32;
    (high + (n + i - high % n) % n) as u64
}
fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// Draw a random number.
pub fn draw() -> u64 {
    let draws = RNG_DRAWS.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        if draws > 64 && !matches!(*r, RngMode::Rotate(_)) {
            // code that draws until it likes the number
            return splitmix(draws);
        }
        match &mut *r {
            RngMode::Enumerate(n) => pick_value(choose(Kind::Rng, *n), *n),
            RngMode::Pick(i, n) => pick_value(*i, *n),
            RngMode::Rotate(k) => {
                *k += 1;
                splitmix(*k)
            }
        }
    })
}

// ------------------------------------------------------------------------------------------------
// Scheduler
// ------------------------------------------------------------------------------------------------

/// Configuration of one execution.
#[derive(Clone, Debug)]
pub struct ExecCfg {
    /// Sleeps shorter than this last this long (oversleeping is always allowed).
    pub sleep_quantum: u64,
    /// Scheduling steps after which the execution is cut.
    pub max_steps: u64,
    /// Virtual time after which the execution is cut.
    pub max_time: u64,
    /// Offer preemptions at scheduling points.
    pub preempt: bool,
    /// A thread that is held up stays so until no other thread can go on for this long.
    pub hold: u64,
    /// Offer a choice of the next thread when one blocks.
    pub switch: bool,
    /// Offer letting the clock run ahead.
    pub time_slip: bool,
    /// Writes may be short.
    pub short_write: bool,
    /// Reads may be short.
    pub short_read: bool,
    /// Reads, writes and accepts may fail.
    pub io_error: bool,
    /// Record an operation trace.
    pub trace: bool,
    /// Preemptions are only offered while this flag is up (drivers raise it around the window of
    /// interest); `true` initially.
    pub window_open: bool,
}
impl Default for ExecCfg {
    fn default() -> Self {
        ExecCfg {
            sleep_quantum: 0,
            max_steps: 200_000,
            max_time: 3_600_000_000_000,
            preempt: true,
            hold: 0,
            switch: true,
            time_slip: false,
            short_write: false,
            short_read: false,
            io_error: false,
            trace: false,
            window_open: true,
        }
    }
}

/// How an execution ended.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// The driver returned.
    Done,
    /// The driver panicked (an oracle failed).
    DriverPanic,
    /// Every thread is blocked and no timer is pending.
    Deadlock,
    /// Step or time horizon reached.
    Horizon,
}

/// A recorded panic of a model thread.
#[derive(Clone, Debug)]
pub struct PanicRecord {
    /// Thread index.
    pub tid: usize,
    /// Thread name.
    pub name: String,
    /// Message with location.
    pub message: String,
}

/// Result of one execution.
#[derive(Clone, Debug)]
pub struct ExecResult {
    /// How it ended.
    pub end: End,
    /// Panics of threads other than the driver.
    pub panics: Vec<PanicRecord>,
    /// Panic message of the driver.
    pub driver_panic: Option<String>,
    /// Scheduling steps.
    pub steps: u64,
    /// Number of threads created.
    pub threads: usize,
    /// Virtual time at the end.
    pub time: u64,
    /// Recorded trace.
    pub trace: Vec<String>,
    /// State of the threads at the end (for diagnosis).
    pub blocked: Vec<String>,
}

type Pred = Box<dyn Fn() -> bool>;

enum Status {
    Ready,
    /// Waiting for the predicate or the deadline.
    Blocked { pred: Option<Pred>, deadline: Option<u64>, what: &'static str },
    /// Spinning: not scheduled until something changes.
    Yielded { version: u64 },
    Done,
}

struct Th {
    name: String,
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    status: Status,
    timed_out: bool,
    idle_ops: u32,
    failed_at: u64,
    killed: bool,
    held: Option<u64>,
    parent: usize,
    unpark: Rc<Cell<bool>>,
    done: Rc<Cell<bool>>,
    locals: HashMap<usize, Rc<dyn Any>>,
    exit_hooks: Vec<Waker>,
}

struct Timer {
    deadline: u64,
    waker: Waker,
}

struct Exec {
    cfg: ExecCfg,
    threads: Vec<Th>,
    current: usize,
    version: u64,
    steps: u64,
    steps_since_time: u64,
    turns: usize,
    timers: Vec<Timer>,
    panics: Vec<PanicRecord>,
    driver_panic: Option<String>,
    trace: Vec<String>,
    teardown: bool,
    window: bool,
    finish: Option<End>,
    next_pick: Option<usize>,
    wake_events: VecDeque<Waker>,
    process_root: Option<usize>,
}

struct Teardown;

/// Payload of a panic raised when code outside an execution would wait forever.
pub struct WouldHang(pub String);

/// True while running inside a model thread of an execution that is not being torn down.
pub fn active() -> bool {
    EXEC.with(|e| match &*e.borrow() {
        Some(x) => !x.teardown,
        None => false,
    })
}
fn in_exec() -> bool {
    EXEC.with(|e| e.borrow().is_some())
}
fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    EXEC.with(|e| f(e.borrow_mut().as_mut().expect("no execution")))
}

/// Index of the running model thread.
pub fn current_tid() -> usize {
    if in_exec() {
        with(|x| x.current)
    } else {
        0
    }
}
/// Name of the running model thread.
pub fn current_name() -> String {
    if in_exec() {
        with(|x| x.threads[x.current].name.clone())
    } else {
        "main".to_string()
    }
}

/// Something observable changed: spinning threads get another chance.
pub fn progress() {
    EXEC.with(|e| {
        if let Some(x) = e.borrow_mut().as_mut() {
            x.version += 1;
        }
    })
}

/// Open or close the window in which preemptions are enumerated.
pub fn set_window(open: bool) {
    if active() {
        with(|x| x.window = open)
    }
}

/// Which of `n` equal alternatives comes first: takes turns, or whichever the explorer says.
pub fn whose_turn(n: usize) -> usize {
    if !active() || n < 2 {
        return 0;
    }
    let (turn, sw) = with(|x| {
        x.turns += 1;
        (x.turns - 1, x.cfg.switch && x.window)
    });
    let c = if sw { choose(Kind::Switch, n) } else { 0 };
    (turn + c) % n
}

/// Change how long short sleeps last.
pub fn set_quantum(q: u64) {
    if active() {
        with(|x| x.cfg.sleep_quantum = q)
    }
}

/// Add a line to the trace.
pub fn note(s: impl FnOnce() -> String) {
    EXEC.with(|e| {
        if let Some(x) = e.borrow_mut().as_mut() {
            if x.cfg.trace {
                let line = format!("[t={:>12}ns] thread {} ({}): {}", peek_ns(), x.current, x.threads[x.current].name, s());
                x.trace.push(line);
            }
        }
    })
}

/// The configuration of the running execution, if any.
pub fn cfg<R>(f: impl FnOnce(&ExecCfg) -> R) -> Option<R> {
    EXEC.with(|e| e.borrow().as_ref().map(|x| f(&x.cfg)))
}

fn suspend() {
    let y = YIELDER.with(|y| y.get());
    assert!(!y.is_null(), "suspend outside a coroutine");
    // SAFETY: the yielder belongs to the running coroutine, whose stack is live.
    unsafe { (*y).suspend(()) };
    YIELDER.with(|yy| yy.set(y));
    if with(|x| x.teardown) && !::std::thread::panicking() {
        resume_unwind(Box::new(Teardown));
    }
}

fn is_enabled(x: &Exec, i: usize) -> bool {
    if x.threads[i].killed {
        return false;
    }
    match &x.threads[i].status {
        Status::Ready => true,
        Status::Blocked { pred, deadline, .. } => {
            if let Some(d) = deadline {
                if *d <= peek_ns() {
                    return true;
                }
            }
            match pred {
                Some(p) => p(),
                None => false,
            }
        }
        Status::Yielded { version } => *version != x.version,
        Status::Done => false,
    }
}

const IDLE_LIMIT: u32 = 40;
/// The clock runs ahead by at most this much at a time.
const SLIP_LIMIT: u64 = 2_000_000_000;
const STEPS_WITHOUT_TIME: u64 = 20_000;

/// A scheduling point before a visible operation of the running thread.
#[track_caller]
pub fn point(op: &'static str) {
    if !active() || ::std::thread::panicking() {
        return;
    }
    let loc = Location::caller();
    let must_yield = with(|x| {
        x.steps += 1;
        x.steps_since_time += 1;
        if x.cfg.trace {
            let line = format!(
                "[t={:>12}ns] thread {} ({}): {} at {}:{}",
                peek_ns(), x.current, x.threads[x.current].name, op, loc.file(), loc.line()
            );
            x.trace.push(line);
        }
        if x.steps > x.cfg.max_steps || peek_ns() > x.cfg.max_time {
            x.finish = Some(End::Horizon);
            return true;
        }
        let me = x.current;
        let version = x.version;
        x.threads[me].idle_ops += 1;
        if x.threads[me].idle_ops > IDLE_LIMIT {
            // no visible change for long: let the others go first
            x.threads[me].idle_ops = 0;
            x.threads[me].status = Status::Yielded { version };
            x.next_pick = None;
            return true;
        }
        false
    });
    if must_yield {
        suspend();
        return;
    }
    let (time_slip, preempt) = with(|x| (x.cfg.time_slip && x.window, x.cfg.preempt && x.window));
    if !time_slip && !preempt {
        return;
    }
    if time_slip {
        let has = with(|x| next_deadline(x)).is_some_and(|d| d <= peek_ns() + SLIP_LIMIT);
        if has && choose(Kind::Time, 2) == 1 {
            note(|| "clock runs ahead".to_string());
            advance_to_next_deadline();
        }
    }
    if preempt {
        let mut opts: Vec<usize> = Vec::with_capacity(8);
        with(|x| {
            let n = x.threads.len();
            let me = x.current;
            opts.push(me);
            for k in 1..n {
                let i = (me + k) % n;
                if is_enabled(x, i) {
                    opts.push(i);
                }
            }
        });
        if opts.len() > 1 {
            // one more alternative: the thread is held up until no other thread can go on
            let c = choose(Kind::Preempt, opts.len() + 1);
            if c == opts.len() {
                with(|x| {
                    let me = x.current;
                    x.threads[me].held = Some(peek_ns() + x.cfg.hold);
                    x.next_pick = Some(opts[1]);
                });
                suspend();
            } else if c > 0 {
                with(|x| x.next_pick = Some(opts[c]));
                suspend();
            }
        }
    }
}

/// Mark that the running thread's operation had an effect others can see.
pub fn effect() {
    EXEC.with(|e| {
        if let Some(x) = e.borrow_mut().as_mut() {
            x.version += 1;
            let me = x.current;
            if me < x.threads.len() {
                x.threads[me].idle_ops = 0;
            }
        }
    })
}

/// The running thread polled something without success: let others run until something changes.
#[track_caller]
pub fn yield_spin() {
    if !active() || ::std::thread::panicking() {
        return;
    }
    with(|x| {
        let me = x.current;
        let version = x.version;
        x.threads[me].status = Status::Yielded { version };
        x.threads[me].idle_ops = 0;
        x.next_pick = None;
        x.steps += 1;
        x.steps_since_time += 1;
    });
    suspend();
}

/// A non-blocking operation failed: the first time since anything changed the thread goes on, the
/// second time it waits for a change (it is spinning).
#[track_caller]
pub fn failed_try() {
    if !active() || ::std::thread::panicking() {
        passive_tick("polling something that does not change");
        return;
    }
    let again = with(|x| {
        let me = x.current;
        let again = x.threads[me].failed_at == x.version;
        x.threads[me].failed_at = x.version;
        again
    });
    if again {
        yield_spin();
    }
}

/// The process that `root` is the main thread of ends: none of its threads runs any more.
pub fn kill_tree(root: usize, include_root: bool) {
    with(|x| {
        x.version += 1;
        for i in 0..x.threads.len() {
            let mut a = i;
            let mut inside = false;
            loop {
                if a == root {
                    inside = true;
                    break;
                }
                if a == 0 {
                    break;
                }
                a = x.threads[a].parent;
            }
            if !inside || (i == root && !include_root) || matches!(x.threads[i].status, Status::Done) {
                continue;
            }
            x.threads[i].killed = true;
        }
    })
}
/// Declare which thread is the main thread of the server process.
pub fn set_process_root(tid: usize) {
    with(|x| x.process_root = Some(tid))
}
/// The server process ends now.
pub fn end_process(include_root: bool) {
    crate::net::process_exit();
    if let Some(r) = with(|x| x.process_root) {
        kill_tree(r, include_root);
    }
}
/// Kill single threads.
pub fn kill(tid: usize) {
    with(|x| {
        x.version += 1;
        x.threads[tid].killed = true;
    })
}
/// Was the thread killed with its process?
pub fn is_killed(tid: usize) -> bool {
    with(|x| x.threads[tid].killed)
}
/// True while what is left of an execution is being dismantled.
pub fn tearing_down() -> bool {
    EXEC.with(|e| match &*e.borrow() {
        Some(x) => x.teardown,
        None => false,
    })
}

/// Block until the predicate holds or the deadline passes; true if it timed out.
/// The predicate must only look at state, and is also checked right away.
#[track_caller]
pub fn block(what: &'static str, pred: Option<Pred>, deadline: Option<u64>) -> bool {
    if !in_exec() {
        ::std::panic::panic_any(WouldHang(format!("waits forever: {}", what)));
    }
    if with(|x| x.teardown) {
        if ::std::thread::panicking() {
            return true;
        }
        resume_unwind(Box::new(Teardown));
    }
    if ::std::thread::panicking() {
        // never switch while unwinding
        return true;
    }
    if let Some(p) = &pred {
        if p() {
            return false;
        }
    }
    note(|| format!("waits: {}", what));
    with(|x| {
        let me = x.current;
        x.threads[me].timed_out = false;
        x.threads[me].idle_ops = 0;
        x.threads[me].status = Status::Blocked { pred, deadline, what };
        x.next_pick = None;
        x.steps += 1;
        x.steps_since_time += 1;
    });
    suspend();
    with(|x| {
        let me = x.current;
        x.threads[me].timed_out
    })
}

/// Sleep for `d` nanoseconds of virtual time.
#[track_caller]
pub fn sleep(d: u64) {
    if !active() {
        if in_exec() {
            block("sleep", None, None);
            return;
        }
        advance_clock(d);
        return;
    }
    let q = cfg(|c| c.sleep_quantum).unwrap_or(0);
    let d = if d < q { q } else { d };
    let deadline = peek_ns() + d.max(1);
    block("sleep", None, Some(deadline));
}

/// Register a waker to be woken at a virtual time.
pub fn add_timer(deadline: u64, waker: Waker) {
    if in_exec() {
        with(|x| x.timers.push(Timer { deadline, waker }));
    }
}

/// Forget a timer that was not due yet.
pub fn drop_timer(deadline: u64, waker: &Waker) {
    if in_exec() {
        let t = with(|x| x.timers.iter().position(|t| t.deadline == deadline && t.waker.will_wake(waker)).map(|i| x.timers.swap_remove(i)));
        drop(t);
    }
}

fn next_deadline(x: &Exec) -> Option<u64> {
    let mut best: Option<u64> = None;
    for t in &x.threads {
        if t.killed {
            continue;
        }
        if let Status::Blocked { deadline: Some(d), .. } = t.status {
            if best.map_or(true, |b| d < b) {
                best = Some(d);
            }
        }
    }
    for t in &x.timers {
        if best.map_or(true, |b| t.deadline < b) {
            best = Some(t.deadline);
        }
    }
    best
}

fn fire_timers() {
    let now = peek_ns();
    let due: Vec<Waker> = with(|x| {
        x.version += 1;
        x.steps_since_time = 0;
        let mut due = vec![];
        let mut i = 0;
        while i < x.timers.len() {
            if x.timers[i].deadline <= now {
                due.push(x.timers.swap_remove(i).waker);
            } else {
                i += 1;
            }
        }
        due
    });
    for w in due {
        w.wake();
    }
}

fn advance_to_next_deadline() -> bool {
    let d = with(|x| next_deadline(x));
    match d {
        Some(d) => {
            if d > peek_ns() {
                set_clock(d);
            }
            fire_timers();
            true
        }
        None => false,
    }
}

fn take_stack() -> DefaultStack {
    STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(2 * 1024 * 1024).expect("stack"))
}

fn make_coroutine(tid: usize, f: Box<dyn FnOnce()>) -> Coroutine<(), (), (), DefaultStack> {
    Coroutine::with_stack(take_stack(), move |y: &Yielder<(), ()>, _| {
        YIELDER.with(|yy| yy.set(y as *const _));
        let r = catch_unwind(AssertUnwindSafe(move || {
            if with(|x| x.teardown) {
                return;
            }
            f()
        }));
        if let Err(p) = r {
            if !p.is::<Teardown>() {
                let message = panic_message(&*p);
                with(|x| {
                    if tid == 0 {
                        x.driver_panic = Some(message);
                    } else {
                        let name = x.threads[tid].name.clone();
                        x.panics.push(PanicRecord { tid, name, message });
                    }
                });
            }
        }
    })
}

/// Text of a panic payload, preferring the message recorded by the hook.
pub fn panic_message(p: &(dyn Any + Send)) -> String {
    if let Some(h) = p.downcast_ref::<WouldHang>() {
        return format!("hang: {}", h.0);
    }
    let hooked = LAST_PANIC.with(|l| l.borrow_mut().take());
    if let Some(m) = hooked {
        return m;
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Install the panic hook that records messages instead of printing them.
pub fn install_panic_hook() {
    ::std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(format!("{}{}", msg, loc)));
    }));
}

/// Create a model thread.
pub fn spawn(name: Option<String>, f: Box<dyn FnOnce()>) -> usize {
    assert!(active(), "thread creation outside an execution");
    let tid = with(|x| x.threads.len());
    let co = make_coroutine(tid, f);
    with(|x| {
        let parent = x.current;
        let name = name.unwrap_or_else(|| format!("{}.{}", x.threads[parent].name, tid));
        x.threads.push(Th {
            name,
            co: Some(co),
            status: Status::Ready,
            timed_out: false,
            idle_ops: 0,
            failed_at: u64::MAX,
            killed: false,
            held: None,
            parent,
            unpark: Rc::new(Cell::new(false)),
            done: Rc::new(Cell::new(false)),
            locals: HashMap::new(),
            exit_hooks: vec![],
        });
        x.version += 1;
        x.threads[parent].idle_ops = 0;
    });
    tid
}

/// Has a model thread ended?
pub fn is_done(tid: usize) -> bool {
    if !in_exec() {
        return true;
    }
    with(|x| matches!(x.threads[tid].status, Status::Done))
}
/// A flag that tells whether a model thread ended; usable in predicates.
pub fn done_flag(tid: usize) -> Rc<Cell<bool>> {
    with(|x| x.threads[tid].done.clone())
}
/// Who created a thread.
pub fn parent_of(tid: usize) -> usize {
    with(|x| x.threads[tid].parent)
}
/// Bytes the records of this module take up for all threads there have been.
pub fn own_bytes() -> usize {
    use ::std::mem::size_of;
    with(|x| {
        x.threads.capacity() * size_of::<Th>()
            + x.panics.capacity() * size_of::<PanicRecord>()
            + x.threads.iter().map(|t| t.name.capacity() + 2 * size_of::<(usize, usize, Cell<bool>)>() + t.exit_hooks.capacity() * size_of::<Waker>()).sum::<usize>()
    })
}
/// Names and states of all threads that have not ended.
pub fn live_threads() -> Vec<(usize, String, String)> {
    with(|x| {
        x.threads
            .iter()
            .enumerate()
            .filter_map(|(i, t)| {
                if t.killed {
                    return None;
                }
                let s = match &t.status {
                    Status::Ready => "runnable".to_string(),
                    Status::Blocked { what, deadline, .. } => format!("waiting: {} (deadline {:?})", what, deadline),
                    Status::Yielded { .. } => "spinning".to_string(),
                    Status::Done => return None,
                };
                Some((i, t.name.clone(), s))
            })
            .collect()
    })
}
/// Panics recorded so far.
pub fn panics() -> Vec<PanicRecord> {
    with(|x| x.panics.clone())
}
/// Whether a thread has panicked.
pub fn panicked(tid: usize) -> bool {
    with(|x| x.panics.iter().any(|p| p.tid == tid))
}
/// Rename the running thread.
pub fn set_name(n: &str) {
    with(|x| {
        let me = x.current;
        x.threads[me].name = n.to_string()
    })
}

/// Park token operations.
pub fn park(deadline: Option<u64>) {
    if !active() {
        block("park", None, None);
        return;
    }
    let me = current_tid();
    let flag = with(|x| x.threads[me].unpark.clone());
    let f2 = flag.clone();
    block("park", Some(Box::new(move || f2.get())), deadline);
    flag.set(false);
}
/// Unpark a thread.
pub fn unpark(tid: usize) {
    if in_exec() {
        with(|x| {
            x.threads[tid].unpark.set(true);
            x.version += 1;
        })
    }
}

/// Thread-local storage of the running model thread.
pub fn local_get(key: usize) -> Option<Rc<dyn Any>> {
    with(|x| {
        let me = x.current;
        x.threads[me].locals.get(&key).cloned()
    })
}
/// Set thread-local storage of the running model thread.
pub fn local_set(key: usize, v: Rc<dyn Any>) {
    with(|x| {
        let me = x.current;
        x.threads[me].locals.insert(key, v);
    })
}
/// Inside an execution (also during teardown)?
pub fn has_exec() -> bool {
    in_exec()
}

/// End the execution now (used for process exit from inside a server).
pub fn wait_forever(what: &'static str) -> ! {
    loop {
        block(what, None, None);
    }
}

/// Wake a task from outside of a borrow of the runtime.
pub fn defer_wake(w: Waker) {
    w.wake();
}

fn pick_next() -> Option<usize> {
    // a thread chosen by a preemption
    if let Some(t) = with(|x| x.next_pick.take()) {
        return Some(t);
    }
    loop {
        let mut opts: Vec<usize> = Vec::with_capacity(8);
        let force_time = with(|x| {
            let n = x.threads.len();
            for k in 1..=n {
                let i = (x.current + k) % n;
                if is_enabled(x, i) {
                    opts.push(i);
                }
            }
            x.steps_since_time > STEPS_WITHOUT_TIME
        });
        if force_time && with(|x| next_deadline(x).is_some()) {
            // an unbounded amount of work happens in no virtual time: real time would pass
            advance_to_next_deadline();
            continue;
        }
        if !opts.is_empty() {
            let free: Vec<usize> = with(|x| opts.iter().copied().filter(|i| x.threads[*i].held.is_none()).collect());
            if !free.is_empty() {
                opts = free;
            } else {
                // only threads that are held up: they go on when nothing else happens for a while
                let until = with(|x| opts.iter().filter_map(|i| x.threads[*i].held).min()).unwrap_or(0);
                if with(|x| next_deadline(x)).is_some_and(|d| d <= until) {
                    advance_to_next_deadline();
                    continue;
                }
            }
            if opts.len() == 1 {
                return Some(opts[0]);
            }
            let sw = with(|x| x.cfg.switch && x.window);
            let c = if sw { choose(Kind::Switch, opts.len()) } else { 0 };
            return Some(opts[c]);
        }
        if advance_to_next_deadline() {
            if peek_ns() > with(|x| x.cfg.max_time) {
                with(|x| x.finish = Some(End::Horizon));
                return None;
            }
            continue;
        }
        // nothing enabled, no timers: release spinners once, else deadlock
        let any = with(|x| {
            let mut any = false;
            x.version += 1;
            for t in x.threads.iter_mut() {
                if let (Status::Yielded { .. }, false) = (&t.status, t.killed) {
                    any = true;
                }
            }
            x.steps += 50;
            if x.steps > x.cfg.max_steps {
                x.finish = Some(End::Horizon);
            }
            any
        });
        if with(|x| x.finish.is_some()) {
            return None;
        }
        if !any {
            with(|x| x.finish = Some(End::Deadlock));
            return None;
        }
    }
}

fn resume(tid: usize) {
    let (mut co, _old) = with(|x| {
        x.current = tid;
        x.threads[tid].held = None;
        let now = peek_ns();
        let t = &mut x.threads[tid];
        if let Status::Blocked { pred, deadline, .. } = &t.status {
            let ok = pred.as_ref().map_or(false, |p| p());
            t.timed_out = !ok && deadline.map_or(false, |d| d <= now);
        }
        // the old predicate is dropped outside of the borrow: it may own channel ends
        let old = ::std::mem::replace(&mut t.status, Status::Ready);
        (t.co.take().expect("coroutine"), old)
    });
    drop(_old);
    let r = co.resume(());
    match r {
        CoroutineResult::Yield(()) => with(|x| x.threads[tid].co = Some(co)),
        CoroutineResult::Return(()) => {
            let stack = co.into_stack();
            STACKS.with(|s| s.borrow_mut().push(stack));
            let (hooks, locals) = with(|x| {
                x.version += 1;
                x.threads[tid].status = Status::Done;
                x.threads[tid].done.set(true);
                (::std::mem::take(&mut x.threads[tid].exit_hooks), ::std::mem::take(&mut x.threads[tid].locals))
            });
            drop(locals);
            for w in hooks {
                w.wake();
            }
        }
    }
}

/// Register a waker called when a thread ends.
pub fn on_exit(tid: usize, w: Waker) {
    with(|x| x.threads[tid].exit_hooks.push(w));
}

/// Run `driver` as thread 0 of a fresh execution.
pub fn run_exec(cfg: ExecCfg, driver: impl FnOnce() + 'static) -> ExecResult {
    assert!(!in_exec(), "nested execution");
    set_clock(0);
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let window = cfg.window_open;
    EXEC.with(|e| {
        *e.borrow_mut() = Some(Box::new(Exec {
            cfg,
            threads: vec![],
            current: 0,
            version: 0,
            steps: 0,
            steps_since_time: 0,
            turns: 0,
            timers: vec![],
            panics: vec![],
            driver_panic: None,
            trace: vec![],
            teardown: false,
            window,
            finish: None,
            next_pick: None,
            wake_events: VecDeque::new(),
            process_root: None,
        }))
    });
    let co = make_coroutine(0, Box::new(driver));
    with(|x| {
        x.threads.push(Th {
            name: "driver".to_string(),
            co: Some(co),
            status: Status::Ready,
            timed_out: false,
            idle_ops: 0,
            failed_at: u64::MAX,
            killed: false,
            held: None,
            parent: 0,
            unpark: Rc::new(Cell::new(false)),
            done: Rc::new(Cell::new(false)),
            locals: HashMap::new(),
            exit_hooks: vec![],
        })
    });
    resume(0);
    let end = loop {
        if with(|x| matches!(x.threads[0].status, Status::Done)) {
            break if with(|x| x.driver_panic.is_some()) { End::DriverPanic } else { End::Done };
        }
        if let Some(e) = with(|x| x.finish) {
            break e;
        }
        match pick_next() {
            Some(t) => resume(t),
            None => break with(|x| x.finish).unwrap_or(End::Deadlock),
        }
    };
    let blocked = live_threads().into_iter().map(|(i, n, s)| format!("thread {} ({}): {}", i, n, s)).collect();
    let (panics, driver_panic, steps, threads, trace) = with(|x| {
        (x.panics.clone(), x.driver_panic.clone(), x.steps, x.threads.len(), ::std::mem::take(&mut x.trace))
    });
    let time = peek_ns();
    // tear down what is left, newest first
    with(|x| x.teardown = true);
    let n = with(|x| x.threads.len());
    for i in (0..n).rev() {
        let mut rounds = 0;
        while with(|x| x.threads[i].co.is_some()) && rounds < 1000 {
            resume(i);
            rounds += 1;
        }
    }
    let leftovers = EXEC.with(|e| e.borrow_mut().take());
    if let Some(mut x) = leftovers {
        let timers = ::std::mem::take(&mut x.timers);
        let _ = ::std::mem::take(&mut x.wake_events);
        drop(timers);
        for t in x.threads.iter_mut() {
            if let Some(mut co) = t.co.take() {
                // SAFETY: leaks whatever the stuck coroutine still owns.
                unsafe { co.force_reset() };
            }
        }
        drop(x);
    }
    ExecResult { end, panics, driver_panic, steps, threads, time, trace, blocked }
}

/// Bound the number of operations of code that runs outside an execution.
pub fn set_passive_limit(n: u64) {
    PASSIVE_LIMIT.with(|l| l.set(n));
}
/// Count an operation outside an execution; panics with [`WouldHang`] beyond the bound.
pub fn passive_tick(what: &str) {
    if in_exec() {
        return;
    }
    PASSIVE_LIMIT.with(|l| {
        let v = l.get();
        if v == 1 {
            l.set(0);
            ::std::panic::panic_any(WouldHang(format!("endless loop: {}", what)));
        }
        if v > 1 {
            l.set(v - 1);
        }
    });
}
