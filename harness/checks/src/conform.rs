//! Conformance of the modelled world to the real one: the same scenarios are played against the
//! servers under the models and against the real binaries over the loopback network, and the
//! replies, the ends of the connections and the ends of the processes are compared.
//! `checks --conform DIR` with the binaries of /repo in DIR (see bin/conform.py).
use crate::servers;
use crate::world::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vstd::net::NetCfg;

struct Real(Child);
impl Real {
    fn start(bin: &std::path::Path) -> Real {
        let c = Command::new(bin).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("the server binary");
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(10) {
            // a look that leaves no connection behind
            let listening = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default().lines().any(|l| l.contains(":1EC6 00000000:0000 0A"));
            if listening {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        Real(c)
    }
    fn ended(&mut self, within: Duration) -> bool {
        let t = Instant::now();
        loop {
            if matches!(self.0.try_wait(), Ok(Some(_))) {
                return true;
            }
            if t.elapsed() > within {
                return false;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}
impl Drop for Real {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn read_all(mut s: &TcpStream) -> Answer {
    let mut a = Answer { accepted: true, ..Answer::default() };
    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
    let mut b = [0u8; 4096];
    loop {
        match s.read(&mut b) {
            Ok(0) => {
                a.closed = true;
                return a;
            }
            Ok(n) => a.bytes.extend(&b[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return a,
            Err(_) => {
                a.closed = true;
                return a;
            }
        }
    }
}
fn real_act(s: &Step, held: &mut Vec<TcpStream>) -> Option<Answer> {
    let (parts, then) = match s {
        Step::Ask { user, query } => (vec![(request_bytes(user.as_deref(), query), 0)], Then::Read),
        Step::Raw { parts, then } => (parts.clone(), *then),
        Step::Gap(n) => {
            std::thread::sleep(Duration::from_nanos(*n));
            return None;
        }
        Step::AcceptError(_) => return None,
    };
    let Ok(mut c) = TcpStream::connect(("127.0.0.1", 7878)) else {
        return Some(Answer { refused: true, ..Answer::default() });
    };
    for (b, gap) in &parts {
        std::thread::sleep(Duration::from_nanos(*gap));
        let _ = c.write_all(b);
    }
    match then {
        Then::Read => {}
        Then::Finish => {
            let _ = c.shutdown(Shutdown::Write);
        }
        Then::Hold => {
            held.push(c);
            return Some(Answer::default());
        }
        _ => {
            drop(c);
            std::thread::sleep(Duration::from_millis(30));
            return Some(Answer::default());
        }
    }
    Some(read_all(&c))
}

/// The scenarios: every request of the menu by itself, in pairs, in long sessions.
fn scripts() -> Vec<Vec<Step>> {
    let menu = servers::menu();
    let mut v: Vec<Vec<Step>> = vec![];
    let look = |user: &str| [Step::ask(user, "try_get k"), Step::ask(user, "ex k"), Step::ask(user, "type k")];
    for s in &menu {
        v.push([&[s.clone()][..], &look("read")].concat());
    }
    for (i, a) in menu.iter().enumerate() {
        for b in menu.iter().skip(i % 5).step_by(5).take(12) {
            v.push([&[a.clone(), b.clone()][..], &look("read")].concat());
        }
    }
    for before in ["set k 1", "get k", "set k int [1]"] {
        for stop in ["shutdown", "set k 2; shutdown", "shutdown; set k 3"] {
            v.push(vec![Step::ask("write", before), Step::ask("admin", stop)]);
            v.push(vec![Step::ask("write", before), Step::ask("admin", stop), Step::Gap(9 * SECOND), Step::ask("read", "ex k")]);
            v.push(vec![Step::ask("read", stop), Step::ask("write", before), Step::ask("admin", stop)]);
        }
    }
    let n = menu.len();
    for from in 0..n {
        for stride in [1usize, 7] {
            v.push(servers::long_session(from, stride, 60));
        }
    }
    v
}

pub fn main(dir: &str) -> i32 {
    let all = scripts();
    let mut bad = 0;
    let mut tally: BTreeMap<String, usize> = BTreeMap::new();
    let mut steps = 0;
    let t0 = Instant::now();
    let mut slowest = Duration::ZERO;
    for (kind, bin) in [(Server::Simple, "simple_server"), (Server::Multi, "multi_server"), (Server::Async, "async_server")] {
        for s in &all {
            let model = play(kind, s, 10 * SECOND, NetCfg::default(), false);
            let mut real = Real::start(&std::path::Path::new(dir).join(bin));
            let mut held = vec![];
            let mut down = false;
            for (i, step) in s.iter().enumerate() {
                let t = Instant::now();
                let a = real_act(step, &mut held);
                if !matches!(step, Step::Gap(_)) {
                    slowest = slowest.max(t.elapsed());
                }
                if servers::leaves(step) {
                    continue;
                }
                let (m, x) = (servers::face(&model.answers[i]), servers::face(&a));
                steps += 1;
                // once it goes down, the moment at which connections are refused is a matter of timing
                let gone = |f: &str| ["connection refused", "closed without a reply"].contains(&f);
                *tally.entry(m.chars().take(3).collect()).or_default() += 1;
                if m != x && !(down && gone(&m) && gone(&x)) {
                    bad += 1;
                    println!("DIFFERENT at {:?} {:?} server, {:?}, step {}: modelled {:?}, real {:?} after {:?}", t0.elapsed(), kind, short(s), i, m, x, t.elapsed());
                    break;
                }
                down |= m.contains("ShuttingDown") || gone(&m);
            }
            let m = model.process_end.is_some();
            let x = real.ended(Duration::from_millis(if m { 10_000 } else { 0 }));
            if m != x {
                bad += 1;
                println!("DIFFERENT {:?} server, {:?}: the process {} when modelled, really {}", kind, short(s), m, x);
            }
            *tally.entry(format!("process ended: {}", m)).or_default() += 1;
        }
    }
    println!("{} scenarios on each of 3 servers, {} compared steps, {} differences, slowest real reply {:?}; {:?}", all.len(), steps, bad, slowest, tally);
    (bad > 0) as i32
}
