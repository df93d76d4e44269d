//! Reading requests and writing replies, for both the blocking and the asynchronous server
//! (C12-C15): every way of cutting the bytes, every truncation, every pattern of short writes.
use crate::engine::*;
use crate::model::*;
use server::analysis::{InterpreterResponse, ValueType};
use server::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
use server::error::ServerError;
use server::io::stream::StreamHandler;
use server::storage::StorageValue;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::ErrorKind;
use std::net::{IpAddr, Ipv4Addr};
use std::rc::Rc;
use vstd::net::{self, NetCfg, Received, Seg};
use vstd::rt::{self, ExecCfg, Kind};

pub const PORT: u16 = 7878;
fn ip() -> IpAddr {
    IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Side {
    Blocking,
    Async,
}
const SIDES: [Side; 2] = [Side::Blocking, Side::Async];

pub type Reply = Result<InterpreterResponse, ServerError>;

/// What came of one connection.
#[derive(Debug, Default)]
pub struct Got {
    /// The query, or the refusal.
    pub request: Option<Result<String, ServerError>>,
    pub headers: HashMap<String, String>,
    pub sender: bool,
    /// Result of sending the reply.
    pub sent: Option<Result<(), ServerError>>,
    pub received: Option<Received>,
    pub reads: u32,
    /// A panic or hang.
    pub problem: Option<String>,
}

/// Let a reader handle one connection delivering `segs`, then send `reply`.
pub fn connection(side: Side, segs: Vec<Seg>, reply: Option<Reply>, net_cfg: NetCfg) -> Got {
    match side {
        Side::Blocking => {
            net::reset(net_cfg);
            rt::set_passive_limit(5_000_000);
            let got = Rc::new(RefCell::new(Got::default()));
            let g = got.clone();
            let res = guard(move || {
                let mut handler = server::io::tcp::TcpStreamHandler::new(ip(), PORT as usize);
                let client = net::connect(PORT).expect("connect");
                client.send_all(segs);
                let req = handler.receive_request();
                g.borrow_mut().reads = client.server_reads();
                if let Some(req) = req {
                    g.borrow_mut().request = Some(req.request);
                    g.borrow_mut().headers = req.headers;
                    g.borrow_mut().sender = req.sender.is_some();
                    if let (Some(mut s), Some(reply)) = (req.sender, reply) {
                        let r = s.send(reply);
                        g.borrow_mut().sent = Some(r);
                        drop(s);
                    }
                }
                let rec = client.recv_all(None);
                g.borrow_mut().received = Some(rec);
            });
            rt::set_passive_limit(0);
            net::reset(NetCfg::default());
            let mut got = std::mem::take(&mut *got.borrow_mut());
            got.problem = res.err();
            got
        }
        Side::Async => {
            net::reset(net_cfg);
            let got = Rc::new(RefCell::new(Got::default()));
            let g = got.clone();
            let cfg = ExecCfg {
                preempt: false,
                switch: false,
                max_steps: 2_000_000,
                ..ExecCfg::default()
            };
            let res = rt::run_exec(cfg, move || {
                let runtime = tokio::runtime::Runtime::new().unwrap();
                let g2 = g.clone();
                runtime.block_on(async move {
                    let mut handler = server::io::tcp_async::TcpStreamHandler::new(ip(), PORT as usize).await;
                    let client = net::connect(PORT).expect("connect");
                    client.send_all(segs);
                    let req = handler.receive_request().await;
                    g2.borrow_mut().reads = client.server_reads();
                    g2.borrow_mut().request = Some(req.request);
                    g2.borrow_mut().headers = req.headers;
                    g2.borrow_mut().sender = req.sender.is_some();
                    if let (Some(mut s), Some(reply)) = (req.sender, reply) {
                        let r = s.send(reply).await;
                        g2.borrow_mut().sent = Some(r);
                        drop(s);
                    }
                    let rec = client.recv_all(Some(0));
                    g2.borrow_mut().received = Some(rec);
                });
            });
            net::reset(NetCfg::default());
            let mut got = std::mem::take(&mut *got.borrow_mut());
            got.problem = match res.end {
                rt::End::Done => res.panics.first().map(|p| format!("panic: {}", p.message)),
                rt::End::DriverPanic => Some(format!("panic: {}", res.driver_panic.unwrap_or_default())),
                _ => Some(format!("hang: {}", res.blocked.join(", "))),
            };
            got
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Requests
// ------------------------------------------------------------------------------------------------

/// A request whose meaning is known by construction.
#[derive(Clone, Debug)]
pub struct Req {
    pub name: String,
    pub bytes: Vec<u8>,
    /// Bytes after the request.
    pub extra: Vec<u8>,
    pub query: String,
    pub headers: Vec<(String, String)>,
    pub user: Option<&'static str>,
    /// Where the body starts.
    pub body_at: usize,
}

/// Put a request together. `CL` as a header value stands for the body's length.
pub fn build(name: &str, line: &str, headers: &[(&str, &[u8])], query: &str, body: &[u8], extra: &[u8]) -> Req {
    let mut b = line.as_bytes().to_vec();
    b.extend(b"\r\n");
    let mut hs = vec![];
    let mut user = None;
    for (n, v) in headers {
        let len = body.len().to_string();
        let v: &[u8] = if *v == b"CL" { len.as_bytes() } else { v };
        b.extend(n.as_bytes());
        b.extend(b": ");
        b.extend(v);
        b.extend(b"\r\n");
        if let Ok(t) = std::str::from_utf8(v) {
            let t = t.trim_matches(|c| c == ' ' || c == '\t');
            hs.push((n.to_ascii_lowercase(), t.to_string()));
            if n.eq_ignore_ascii_case("username") {
                user = ["admin", "write", "read"].into_iter().find(|u| *u == t);
            }
        }
    }
    b.extend(b"\r\n");
    let body_at = b.len();
    b.extend(body);
    Req { name: name.into(), bytes: b, extra: extra.to_vec(), query: query.into(), headers: hs, user, body_at }
}
/// The usual request.
pub fn post(user: &str, query: &str) -> Vec<u8> {
    let body = serde_json::json!({ "query": query }).to_string();
    build("plain", "POST / HTTP/1.1", &[("Username", user.as_bytes()), ("Content-Length", b"CL")], query, body.as_bytes(), b"").bytes
}

/// Small valid requests.
pub fn small() -> Vec<Req> {
    let q = |s: &str| serde_json::json!({ "query": s }).to_string().into_bytes();
    let mut v = vec![
        build("minimal", "POST / HTTP/1.1", &[("Username", b"admin"), ("Content-Length", b"CL")], "get a;", &q("get a;"), b""),
        build("lower-case names", "POST / HTTP/1.1", &[("username", b"write"), ("content-length", b"CL"), ("x-y", b"1")], "set a 1", &q("set a 1"), b""),
        build("upper-case names", "POST / HTTP/1.1", &[("HOST", b"h"), ("USERNAME", b"read"), ("CONTENT-LENGTH", b"CL")], "ex a", &q("ex a"), b""),
        build("mixed-case names", "POST / HTTP/1.1", &[("cONTENT-lENGTH", b"CL"), ("uSERNAME", b"admin")], "ex a", &q("ex a"), b""),
        build("length first, other headers after", "POST /db?x=%20 HTTP/1.0", &[("Content-Length", b"CL"), ("Accept", b"*/*"), ("Username", b"admin"), ("Empty", b"")], "get a; get b", &q("get a; get b"), b""),
        build("extra bytes", "POST / HTTP/1.1", &[("Username", b"admin"), ("Content-Length", b"CL")], "get a;", &q("get a;"), b"}\r\n\r\ngarbage\"}"),
        build("another request behind", "POST / HTTP/1.1", &[("Username", b"read"), ("Content-Length", b"CL")], "get a;", &q("get a;"), &post("admin", "shutdown")),
        build("empty query", "POST / HTTP/1.1", &[("Username", b"admin"), ("Content-Length", b"CL")], "", &q(""), b""),
        build("values with blanks", "POST / HTTP/1.1", &[("X", b"a b\tc"), ("Username", b"admin"), ("Y", b"::"), ("Content-Length", b"CL")], "get a;", &q("get a;"), b""),
        build("name inside another name", "POST / HTTP/1.1", &[("X-Content-Length", b"3"), ("Content-Length-X", b"4"), ("X-Username", b"read"), ("Username", b"admin"), ("Content-Length", b"CL")], "get a;", &q("get a;"), b""),
        build("no user", "POST / HTTP/1.1", &[("Content-Length", b"CL")], "get a;", &q("get a;"), b""),
        build("binary header value", "POST / HTTP/1.1", &[("Bin", b"\xff\xfe"), ("Username", b"admin"), ("Content-Length", b"CL")], "get a;", &q("get a;"), b""),
    ];
    let text = "set k \"\u{e9}\u{6f22}\u{1F600}\\\"\"";
    v.push(build("multi-byte characters", "POST / HTTP/1.1", &[("Username", "\u{e9}t\u{e9}".as_bytes()), ("Content-Length", b"CL")], text, &q(text), b""));
    v.push(build(
        "escapes, other fields, blanks",
        "POST / HTTP/1.1",
        &[("Username", b"admin"), ("Content-Length", b"CL")],
        "g\u{e9}t\n\u{1F600} \"a\"",
        b" \r\n{ \"v\" : [1, {\"query\": \"no\"}], \"query\" :\t\"g\\u00e9t\\n\\ud83d\\ude00 \\\"a\\\"\" , \"z\":null }\n ",
        b"",
    ));
    let many: Vec<(String, Vec<u8>)> = (0..30).map(|i| (format!("H{}", i), format!("{}", i).into_bytes())).collect();
    let mut hs: Vec<(&str, &[u8])> = many.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
    hs.push(("Username", b"admin"));
    hs.push(("Content-Length", b"CL"));
    v.push(build("32 headers", "POST / HTTP/1.1", &hs, "get a;", &q("get a;"), b""));
    v
}
/// Requests around the sizes of internal buffers.
fn sized(sizes: &[usize]) -> Vec<Req> {
    let mut v = vec![];
    for &n in sizes {
        for (kind, extra) in [("body", 0usize), ("body", 1), ("header", 0), ("both", 0), ("both", 700)] {
            let mut made = None;
            for pad in 0..n {
                let hpad = match kind {
                    "body" => 0,
                    "header" => pad,
                    _ => pad / 2,
                };
                let bpad = pad - hpad;
                // cheap length guess first
                let query = format!("set k \"{}\"", "\u{e9}".repeat(bpad / 2) + &"y".repeat(bpad % 2));
                let body = serde_json::json!({ "query": query }).to_string();
                let len = 15 + 2 + 17 + 6 + hpad + 2 + 16 + body.len().to_string().len() + 2 + 2 + body.len();
                if len < n {
                    continue;
                }
                let h = "x".repeat(hpad);
                let r = build(
                    &format!("{} bytes ({}), {} behind", n, kind, extra),
                    "POST / HTTP/1.1",
                    &[("Username", b"admin"), ("Pad", h.as_bytes()), ("Content-Length", b"CL")],
                    &query,
                    body.as_bytes(),
                    &b"x".repeat(extra),
                );
                if r.bytes.len() >= n {
                    made = Some(r);
                    break;
                }
            }
            if let Some(r) = made {
                v.push(r);
            }
        }
    }
    v
}

fn cut(bytes: &[u8], cuts: &[usize], end: Option<Seg>) -> Vec<Seg> {
    let mut v = vec![];
    let mut at = 0;
    for &c in cuts.iter().chain([&bytes.len()]) {
        if c > at {
            v.push(Seg::Data(bytes[at..c].to_vec()));
            at = c;
        }
    }
    v.extend(end);
    v
}
fn lower(h: &HashMap<String, String>) -> BTreeMap<String, String> {
    h.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect()
}

/// Is this what the request says?
fn check_request(r: &mut Run, side: Side, q: &Req, got: &Got, how: &str) {
    let what = format!("{:?} reader, request \"{}\" {}", side, q.name, how);
    if let Some(p) = &got.problem {
        r.violate("reader", format!("{}: {}", what, p));
        return;
    }
    match &got.request {
        Some(Ok(x)) if *x == q.query => {}
        other => {
            r.violate("query", format!("{}: expected the query {}, got {:?}", what, crate::lang::shown(&q.query), other));
            return;
        }
    }
    let h = lower(&got.headers);
    for (n, v) in &q.headers {
        if h.get(n) != Some(v) {
            r.violate("headers", format!("{}: header {} should be {:?}, got {:?}", what, n, v, h.get(n)));
            return;
        }
    }
    if let Some(extra) = h.keys().find(|k| !q.headers.iter().any(|(n, _)| n == *k) && *k != "bin") {
        r.violate("headers", format!("{}: header {} was not sent", what, extra));
    }
    let auth = MockAuthenticator.authenticate(&got.headers);
    let ok = match (&auth, q.user) {
        (Ok(AuthenticationResult::Authenticated(u, Some(_))), Some(v)) => u == v,
        (Ok(AuthenticationResult::Authenticated(_, Some(_))), None) => false,
        (_, None) => true,
        _ => false,
    };
    if !ok {
        r.violate("user", format!("{}: the user is {:?}, authenticated as {:?}", what, q.user, auth));
    }
    if !got.sender {
        r.violate("sender", format!("{}: nothing to send the reply with", what));
    }
}

/// Every way of making up to `n` cuts.
fn cuts(name: &str, corpus: Vec<Req>, n: usize, near: bool) -> Lane {
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        let q = pick_from(&corpus).clone();
        let mut all = q.bytes.clone();
        all.extend(&q.extra);
        // interesting places
        let places: Vec<usize> = (1..all.len())
            .filter(|i| {
                !near || {
                    let d = i % 1024;
                    d <= 2 || d >= 1022 || i.abs_diff(q.body_at) <= 5 || i.abs_diff(q.bytes.len()) <= 2 || *i <= 2
                }
            })
            .collect();
        let k = pick(n + 1);
        let mut cs: Vec<usize> = vec![];
        let mut from = 0;
        for j in 0..k {
            let left = k - j - 1;
            if places.len() <= from + left {
                return;
            }
            let i = from + pick(places.len() - from - left);
            cs.push(places[i]);
            from = i + 1;
        }
        let eof = k < 2 && pick(2) == 1;
        let how = format!("cut at {:?}{}", cs, if eof { ", then closed" } else { "" });
        r.log(|| format!("{:?} \"{}\" {}", side, q.name, how));
        let got = connection(side, cut(&all, &cs, eof.then_some(Seg::Eof)), None, NetCfg::default());
        r.transitions(got.reads as u64);
        r.distinct(hash64(&(side, &q.name, &cs, eof)));
        r.outcome(if got.problem.is_some() { "problem" } else { "request delivered" });
        if r.wants_sample() {
            r.sample(format!("{:?}, \"{}\", {}: {} reads -> {:?}", side, q.name, how, got.reads, got.request));
        }
        check_request(r, side, &q, &got, &how);
    })
}
/// Fixed read sizes.
fn trickle(name: &str, corpus: Vec<Req>, sizes: Vec<usize>) -> Lane {
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        let q = pick_from(&corpus).clone();
        let n = *pick_from(&sizes);
        let mut all = q.bytes.clone();
        all.extend(&q.extra);
        let got = connection(side, cut(&all, &[], None), None, NetCfg { max_read: n, ..NetCfg::default() });
        r.transitions(got.reads as u64);
        r.distinct(hash64(&(side, &q.name, n)));
        r.outcome(if got.problem.is_some() { "problem" } else { "request delivered" });
        check_request(r, side, &q, &got, &format!("in reads of {} bytes", n));
    })
}
/// Long bodies full of characters of several bytes, written as they are or as escapes, shifted
/// by 0-7 bytes against the buffers.
fn wide(sizes: &[usize]) -> Vec<Req> {
    let mut v = vec![];
    for &n in sizes {
        for (c, esc) in [
            ("\u{e9}", None),
            ("\u{6f22}", None),
            ("\u{1F600}", None),
            ("a\u{e9}\u{6f22}\u{1F600}", None),
            ("\u{1F600}", Some("\\ud83d\\ude00")),
            ("\u{e9}\t", Some("\\u00e9\\t")),
            ("\\\\", Some("\\\\\\\\")),
            ("\u{fffd}", None),
        ] {
            for shift in 0..8 {
                let unit = esc.unwrap_or(c);
                let times = n / unit.len();
                let mk = |u: &str| format!("set k \"{}{}\"", "x".repeat(shift), u.repeat(times));
                let query = mk(c);
                let raw = format!("{{\"query\":\"set k \\\"{}{}\\\"\"}}", "x".repeat(shift), if esc.is_some() { unit.repeat(times) } else { c.repeat(times) });
                debug_assert!(serde_json::from_str::<serde_json::Value>(&raw).is_ok());
                v.push(build(
                    &format!("{} bytes of {:?}, shifted by {}", n, unit, shift),
                    "POST / HTTP/1.1",
                    &[("Username", b"admin"), ("Content-Length", b"CL")],
                    &query,
                    raw.as_bytes(),
                    b"",
                ));
            }
        }
    }
    v
}
/// Odd and broken byte strings: the outcome may be anything sane, but not depend on the cuts.
pub fn odd() -> Vec<Vec<u8>> {
    let ok = post("admin", "get a;");
    let mut v: Vec<Vec<u8>> = vec![];
    let t = String::from_utf8(ok.clone()).unwrap();
    v.push(t.replace("\r\n", "\n").into_bytes());
    v.push(format!("\r\n\r\n{}", t).into_bytes());
    v.push(t.replace("Username: admin", "Username:admin").into_bytes());
    v.push(t.replace("Username: admin", "Username:   admin \t").into_bytes());
    v.push(t.replace("Content-Length: ", "Content-Length: +").into_bytes());
    v.push(t.replace("Content-Length: ", "Content-Length: 0").into_bytes());
    v.push(t.replace("Content-Length: ", "Content-Length: 99").into_bytes());
    v.push(t.replace("Content-Length: ", "Content-Length: -").into_bytes());
    v.push(t.replace("Content-Length: 18", "Content-Length: 17").into_bytes());
    v.push(t.replace("Content-Length: 18", "Content-Length: 18\r\nContent-Length: 5").into_bytes());
    v.push(t.replace("Content-Length: 18", "Content-Length: 5\r\ncontent-length: 18").into_bytes());
    v.push(t.replace("Content-Length: 18\r\n", "").into_bytes());
    v.push(t.replace("Content-Length: 18", "Transfer-Encoding: chunked").into_bytes());
    v.push(t.replace("POST", "GET").into_bytes());
    v.push(t.replace("HTTP/1.1", "HTTP/2.0").into_bytes());
    v.push(t.replace("query", "quer\u{ff}").into_bytes());
    v.push(t.replace("\"}", "\", \"query\": \"x\"}").replace("18", "32").into_bytes());
    let mut b = ok.clone();
    let n = b.len();
    b[n - 4] = 0xc3;
    v.push(b);
    let mut b = ok.clone();
    b[n - 4] = 0;
    v.push(b);
    v.push(b"\0\0\0\0".to_vec());
    v.push(b"HELLO\r\n\r\n".to_vec());
    v.push({
        let hs: String = (0..40).map(|i| format!("H{}: {}\r\n", i, i)).collect();
        t.replace("Username", &format!("{}Username", hs)).into_bytes()
    });
    v
}
#[derive(PartialEq, Debug, Clone)]
enum Class {
    Request(String, BTreeMap<String, String>),
    Refused,
    Problem(String),
}
fn class(g: &Got) -> Class {
    match (&g.problem, &g.request) {
        (Some(p), _) => Class::Problem(p.clone()),
        (None, Some(Ok(q))) => Class::Request(q.clone(), lower(&g.headers)),
        _ => Class::Refused,
    }
}
fn function_of_bytes(name: &str, n: usize) -> Lane {
    let corpus = odd();
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let i = pick(corpus.len());
        let all = &corpus[i];
        let one = connection(Side::Blocking, cut(all, &[], Some(Seg::Eof)), None, NetCfg::default());
        let side = *pick_from(&SIDES);
        let k = pick(n + 1);
        let mut cs = vec![];
        let mut from = 1;
        for j in 0..k {
            let left = k - j - 1;
            if all.len() <= from + left {
                return;
            }
            let c = from + pick(all.len() - from - left);
            cs.push(c);
            from = c + 1;
        }
        let got = connection(side, cut(all, &cs, Some(Seg::Eof)), None, NetCfg::default());
        r.transitions(got.reads as u64);
        r.distinct(hash64(&(i, side, &cs)));
        let (a, b) = (class(&one), class(&got));
        r.outcome(match &b {
            Class::Request(..) => "delivered",
            Class::Refused => "refused",
            Class::Problem(_) => "problem",
        });
        if a != b {
            r.violate(
                "fragments",
                format!("{} means {:?} in one piece (blocking), but {:?} cut at {:?} ({:?})", crate::lang::shown(&String::from_utf8_lossy(all)), a, b, cs, side),
            );
        }
    })
}

pub fn c12(q: bool) -> Vec<Lane> {
    let first = |v: Vec<Req>, n: usize| v.into_iter().take(n).collect::<Vec<_>>();
    let mut v = vec![
        cuts("cuts-small", small(), 2, false),
        trickle("trickle", small().into_iter().chain(sized(&[1023, 1024, 1025, 2048, 5000])).collect(), vec![1, 2, 3, 7, 511, 512, 513, 1000, 1023, 1024]),
        cuts("cuts-sizes", sized(&[1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3071, 3072, 3073, 4097]), 1, false),
        cuts("cuts-boundaries", sized(&[1023, 1024, 1025, 2047, 2048, 2049, 3073]), 3, true),
        function_of_bytes("odd", if q { 1 } else { 2 }),
        trickle("characters", wide(&[900, 1100, 2100, 4200, 9000, 66000]), vec![0, 1021, 1024, 1448]),
        cuts("characters-cut", wide(&[1100, 2100]), 1, true),
    ];
    if !q {
        v.push(cuts("characters-cut-2", wide(&[1100, 2100]), 2, true));
        v.push(trickle("characters-all", wide(&[2100]), (1..=64).chain(1000..=1100).collect()));
        v.push(cuts("cuts-3", first(small(), 3), 3, false));
        v.push(cuts("cuts-sizes-2", sized(&[1023, 1024, 1025, 1100]), 2, false));
        v.push(cuts("cuts-boundaries-4", sized(&[1024, 2048, 3073, 8192, 8193]), 4, true));
        v.push(trickle("trickle-all", small().into_iter().chain(sized(&[1023, 1024, 1025, 2048, 5000])).collect(), (1..=1100).collect()));
    }
    v
}

// ------------------------------------------------------------------------------------------------
// C13
// ------------------------------------------------------------------------------------------------

/// How a connection ends.
const ENDS: [Option<ErrorKind>; 4] =
    [None, Some(ErrorKind::ConnectionReset), Some(ErrorKind::TimedOut), Some(ErrorKind::Other)];
fn end_seg(e: Option<ErrorKind>) -> Seg {
    e.map_or(Seg::Eof, Seg::Err)
}

fn must_refuse(r: &mut Run, what: String, got: &Got) {
    if let Some(p) = &got.problem {
        r.violate("reader", format!("{}: {}", what, p));
        return;
    }
    match &got.request {
        Some(Err(e)) => {
            let c = status_of(e);
            if c != 400 && c != 500 {
                r.violate("status", format!("{}: refused with status {} ({})", what, c, e));
            }
        }
        // no request at all: the connection is dropped without a reply
        None => r.violate("reader", format!("{}: the reader says that the listener is closed", what)),
        Some(Ok(q)) => r.violate("accepted", format!("{}: taken for the request {:?}", what, q)),
    }
    if let Some(rec) = &got.received {
        if !rec.closed && got.sent.is_some() {
            r.violate("close", format!("{}: the connection stays open after the reply", what));
        }
    }
}
fn truncations(name: &str, corpus: Vec<Req>, cuts_too: bool) -> Lane {
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        let q = pick_from(&corpus).clone();
        let n = pick(q.bytes.len());
        let e = *pick_from(&ENDS);
        let cs: Vec<usize> = if cuts_too && n > 1 { vec![1 + pick(n - 1)] } else { vec![] };
        let got = connection(side, cut(&q.bytes[..n], &cs, Some(end_seg(e))), Some(Err(ServerError::RequestError("x".into()))), NetCfg::default());
        r.transitions(got.reads as u64);
        r.distinct(hash64(&(side, &q.name, n, e, &cs)));
        r.outcome(if got.problem.is_some() { "problem" } else { "refused" });
        if r.wants_sample() {
            r.sample(format!("{:?}, \"{}\" ends after {} of {} bytes with {:?}: {:?}", side, q.name, n, q.bytes.len(), e, got.request));
        }
        must_refuse(r, format!("{:?} reader, request \"{}\" ends after {} of {} bytes ({:?}, cut at {:?})", side, q.name, n, q.bytes.len(), e, cs), &got);
    })
}
/// Complete requests, then the connection fails: nothing is wrong with them.
fn complete(name: &str, corpus: Vec<Req>) -> Lane {
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        let q = pick_from(&corpus).clone();
        let e = *pick_from(&ENDS);
        let got = connection(side, cut(&q.bytes, &[], Some(end_seg(e))), None, NetCfg::default());
        r.transitions(got.reads as u64);
        r.distinct(hash64(&(side, &q.name, e)));
        r.outcome(if got.problem.is_some() { "problem" } else { "delivered" });
        check_request(r, side, &q, &got, &format!("complete, then {:?}", e));
    })
}
/// A read fails at a chosen place although more bytes are there.
fn failing_reads(name: &str, corpus: Vec<Req>) -> Lane {
    Lane::new(name, Budget::of(1, &[(Kind::IoError, 1)]), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        let q = pick_from(&corpus).clone();
        let size = *pick_from(&[7usize, 64, 1024]);
        let got = connection(side, cut(&q.bytes, &[], Some(Seg::Eof)), None, NetCfg { max_read: size, io_error: true, ..NetCfg::default() });
        r.transitions(got.reads as u64);
        r.distinct(hash64(&(side, &q.name, size, got.reads)));
        let full = q.bytes.len().div_ceil(size) as u32;
        match class(&got) {
            Class::Problem(p) => r.violate("reader", format!("{:?} reader, \"{}\" with a failing read: {}", side, q.name, p)),
            Class::Request(x, _) if x == q.query && got.reads >= full => r.outcome("delivered"),
            Class::Request(x, _) => r.violate("accepted", format!("{:?} reader, \"{}\": read {} of {} failed, but the request is {:?}", side, q.name, got.reads, full, x)),
            Class::Refused => r.outcome("refused"),
        }
    })
}

/// Strictly by the rules, leaving aside what readers are commonly lenient about.
enum Strict {
    Valid { query: String, headers: Vec<(String, String)> },
    Invalid(&'static str),
    Unsure,
}
fn tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn strict(b: &[u8]) -> Strict {
    use Strict::*;
    let lower: Vec<u8> = b.to_ascii_lowercase();
    // plainly broken
    if find(b, b"\n\r\n").is_none() && find(b, b"\n\n").is_none() {
        return Invalid("no end of the headers");
    }
    if find(&lower, b"content-length").is_none() {
        return Invalid("no content length");
    }
    let trimmed: &[u8] = {
        let n = b.iter().take_while(|x| **x == b'\r' || **x == b'\n').count();
        &b[n..]
    };
    if !trimmed.starts_with(b"POST") {
        return Invalid("method");
    }
    // by the book
    let Some(end) = find(b, b"\r\n\r\n") else { return Unsure };
    let head = &b[..end];
    let rest = &b[end + 4..];
    let mut lines: Vec<&[u8]> = vec![];
    let mut at = 0;
    while let Some(n) = find(&head[at..], b"\r\n") {
        lines.push(&head[at..at + n]);
        at += n + 2;
    }
    lines.push(&head[at..]);
    if lines.iter().any(|l| l.iter().any(|c| *c == b'\r' || *c == b'\n')) {
        return Unsure;
    }
    let Some(line) = std::str::from_utf8(lines[0]).ok() else { return Unsure };
    let parts: Vec<&str> = line.split(' ').collect();
    if parts.len() != 3 || parts[0] != "POST" || !(parts[2] == "HTTP/1.1" || parts[2] == "HTTP/1.0") {
        return Unsure;
    }
    if parts[1].is_empty() || !parts[1].starts_with('/') || !parts[1].bytes().all(|c| c.is_ascii_alphanumeric() || b"/?=&%._-".contains(&c)) {
        return Unsure;
    }
    let mut headers: Vec<(String, String)> = vec![];
    for l in &lines[1..] {
        let Some(c) = l.iter().position(|c| *c == b':') else { return Unsure };
        let (n, v) = (&l[..c], &l[c + 1..]);
        if n.is_empty() || !n.iter().all(|c| tchar(*c)) || !v.iter().all(|c| (32..127).contains(c) || *c == b'\t') {
            return Unsure;
        }
        let n = String::from_utf8_lossy(n).to_ascii_lowercase();
        if headers.iter().any(|(m, _)| *m == n) {
            return Unsure;
        }
        let v = String::from_utf8_lossy(v).trim_matches(|c| c == ' ' || c == '\t').to_string();
        headers.push((n, v));
    }
    if headers.len() > 32 || headers.iter().any(|(n, _)| n == "transfer-encoding" || n == "expect") {
        return Unsure;
    }
    let Some((_, len)) = headers.iter().find(|(n, _)| n == "content-length") else { return Invalid("no content length") };
    if len.is_empty() || !len.bytes().all(|c| c.is_ascii_digit()) {
        return if len.starts_with('+') && len.len() > 1 { Unsure } else { Invalid("content length") };
    }
    let Ok(len) = len.parse::<u64>() else { return Invalid("content length") };
    if len > rest.len() as u64 {
        return Invalid("body too short");
    }
    let body = &rest[..len as usize];
    let Ok(body) = std::str::from_utf8(body) else { return Unsure };
    match serde_json::from_str::<serde_json::Value>(body) {
        Ok(serde_json::Value::Object(m)) => match m.get("query") {
            Some(serde_json::Value::String(s)) => {
                if body.matches("\"query\"").count() > 1 {
                    return Unsure;
                }
                Valid { query: s.clone(), headers }
            }
            _ => Invalid("no query"),
        },
        _ => Invalid("body"),
    }
}
fn judge(r: &mut Run, side: Side, bytes: &[u8], cs: &[usize]) {
    let got = connection(side, cut(bytes, cs, Some(Seg::Eof)), None, NetCfg::default());
    r.transitions(got.reads as u64);
    r.distinct(hash64(&(side, bytes, cs)));
    let what = || format!("{:?} reader, {} then closed", side, crate::lang::shown(&String::from_utf8_lossy(bytes)));
    r.log(|| format!("{} -> {:?}", what(), got.request));
    if r.wants_sample() {
        r.sample(format!("{}: {:?}", what(), got.request));
    }
    match strict(bytes) {
        Strict::Valid { query, headers } => {
            r.outcome("valid, delivered");
            match class(&got) {
                Class::Request(q, h) if q == query && headers.iter().all(|(n, v)| h.get(n) == Some(v)) => {}
                c => r.violate("refused", format!("{}: a valid request, but {:?}", what(), c)),
            }
        }
        Strict::Invalid(why) => {
            r.outcome(&format!("refused: {}", why));
            must_refuse(r, format!("{} ({})", what(), why), &got);
        }
        Strict::Unsure => {
            r.outcome("either");
            if let Class::Problem(p) = class(&got) {
                r.violate("reader", format!("{}: {}", what(), p));
            } else if let Some(Err(e)) = &got.request {
                let c = status_of(e);
                if c != 400 && c != 500 {
                    r.violate("status", format!("{}: refused with status {}", what(), c));
                }
            }
        }
    }
}
/// One or two bytes of a valid request changed, removed or inserted.
/// Some bytes of a request changed, removed or added; `None`: nothing changed.
pub fn mutate(corpus: &[Req], bytes: &[u8], times: usize) -> Option<Vec<u8>> {
    let mut b = pick_from(corpus).bytes.clone();
    let mut from = 0;
    for _ in 0..times {
        if from >= b.len() {
            return None;
        }
        let i = from + pick(b.len() - from);
        match pick(1 + 2 * bytes.len()) {
            0 => {
                b.remove(i);
            }
            k if k <= bytes.len() => {
                if b[i] == bytes[k - 1] {
                    return None;
                }
                b[i] = bytes[k - 1];
            }
            k => b.insert(i, bytes[k - 1 - bytes.len()]),
        }
        from = i + 1;
    }
    Some(b)
}
fn mutated(name: &str, corpus: Vec<Req>, bytes: Vec<u8>, times: usize) -> Lane {
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        if let Some(b) = mutate(&corpus, &bytes, times) {
            judge(r, side, &b, &[]);
        }
    })
}
/// Requests put together from good and bad parts, and where the body begins.
pub fn piece_request(thorough: bool) -> (Vec<u8>, usize) {
    let methods = ["POST", "GET", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "post", "POSTS", "POS", "", "P\u{d6}ST"];
    let targets = ["/", "*", "", "/a b", "http://x/"];
    let versions = ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "http/1.1", "", "HTTP/1.1 "];
    let lengths: Vec<String> = [
        "OK", "LESS", "MORE", "HALF", "0", "1", "", " ", "-1", "-0", "abc", "1e3", "0x10", "18 18", "18,18", "1.0", "\u{ff11}", "4294967296", "9223372036854775807", "9223372036854775808",
        "18446744073709551615", "18446744073709551500", "18446744073709551616", "99999999999999999999999999", "NONE",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    let bodies: Vec<Vec<u8>> = vec![
        b"{\"query\":\"get a;\"}".to_vec(),
        b"".to_vec(),
        b"{}".to_vec(),
        b"[]".to_vec(),
        b"\"query\"".to_vec(),
        b"null".to_vec(),
        b"17".to_vec(),
        b"{\"query\":null}".to_vec(),
        b"{\"query\":1}".to_vec(),
        b"{\"query\":[\"get a\"]}".to_vec(),
        b"{\"query\":{\"query\":\"get a\"}}".to_vec(),
        b"{\"Query\":\"get a\"}".to_vec(),
        b"{\"query \":\"get a\"}".to_vec(),
        b"{\"x\":{\"query\":\"get a\"}}".to_vec(),
        b"{\"query\":\"get a\"".to_vec(),
        b"{\"query\":\"get a}".to_vec(),
        b"{\"query\":\"get a\"}}".to_vec(),
        b"{\"query\":\"get a\"} x".to_vec(),
        b"{\"query\":\"\\ud800\"}".to_vec(),
        b"{\"query\":\"\\u0000\"}".to_vec(),
        b"{\"query\":\"a\nb\"}".to_vec(),
        b"{'query':'get a'}".to_vec(),
        b"query=get+a".to_vec(),
        b"\xff\xfe".to_vec(),
        b"{\"query\":\"\xff\"}".to_vec(),
        b"\xef\xbb\xbf{\"query\":\"get a\"}".to_vec(),
        [b"[".repeat(300), b"]".repeat(300)].concat(),
        [b"{\"a\":".repeat(300), b"1".to_vec(), b"}".repeat(300)].concat(),
        [b"{\"query\":\"x\",\"a\":".to_vec(), b"[".repeat(50), b"]".repeat(50), b"}".to_vec()].concat(),
        [b"{\"query\":\"x\",\"a\":".to_vec(), b"[".repeat(100_000)].concat(),
        b"{\"query\":\"x\",\"a\":1e999}".to_vec(),
        b"{\"query\":\"x\",\"a\":-}".to_vec(),
    ];
    // one part odd (thorough: any combination of two)
    let odd = pick(if thorough { 8 } else { 5 });
    let (m, t, v, l, b) = match odd {
        0 => (pick(methods.len()), 0, 0, 0, 0),
        1 => (0, pick(targets.len()), 0, 0, 0),
        2 => (0, 0, pick(versions.len()), 0, 0),
        3 => (0, 0, 0, pick(lengths.len()), 0),
        4 => (0, 0, 0, 0, pick(bodies.len())),
        5 => (pick(methods.len()), 0, pick(versions.len()), 0, 0),
        6 => (0, 0, 0, pick(lengths.len()), pick(bodies.len())),
        _ => (pick(methods.len()), 0, 0, pick(lengths.len()), 0),
    };
    let body = &bodies[b];
    let len = match lengths[l].as_str() {
        "OK" => Some(body.len().to_string()),
        "LESS" => Some(body.len().saturating_sub(1).to_string()),
        "MORE" => Some((body.len() + 1).to_string()),
        "HALF" => Some((body.len() / 2).to_string()),
        "NONE" => None,
        x => Some(x.to_string()),
    };
    let mut req = format!("{} {} {}\r\nUsername: admin\r\n", methods[m], targets[t], versions[v]);
    if let Some(l) = len {
        req += &format!("Content-Length: {}\r\n", l);
    }
    req += "\r\n";
    let mut req = req.into_bytes();
    let at = req.len();
    req.extend(body);
    (req, at)
}
fn pieces(name: &str, thorough: bool) -> Lane {
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        let (req, at) = piece_request(thorough);
        // in one piece; head and body apart; all but the last byte
        let cs: Vec<usize> = match pick(3) {
            0 => vec![],
            1 => vec![at],
            _ => vec![req.len() - 1],
        };
        judge(r, side, &req, &cs);
    })
}
/// All short byte strings over an alphabet, as the whole input or behind the request line.
fn short_strings(name: &str, n: usize) -> Lane {
    Lane::new(name, Budget::free(), move |r: &mut Run| {
        let side = *pick_from(&SIDES);
        let alpha: [&[u8]; 12] =
            [b"P", b"POST / HTTP/1.1", b" ", b"\r\n", b"\n", b"\r", b":", b"Content-Length", b"1", b"{\"query\":\"\"}", b"\0", b"\xff"];
        let k = pick(n + 1);
        let mut b = pick_from(&[&b""[..], b"POST / HTTP/1.1\r\n", b"POST / HTTP/1.1\r\nContent-Length: 12\r\n"]).to_vec();
        for _ in 0..k {
            b.extend(*pick_from(&alpha));
        }
        judge(r, side, &b, &[]);
    })
}

pub fn c13(q: bool) -> Vec<Lane> {
    let few = || -> Vec<Req> { small().into_iter().take(3).collect() };
    let marks: Vec<u8> = b"\0\n\r \t:\"{}0A/\x7f\xff".to_vec();
    let mut v = vec![
        truncations("truncations", small().into_iter().chain(sized(&[1023, 1024, 1025, 2049])).collect(), false),
        truncations("truncations-cut", few(), true),
        complete("complete", small().into_iter().chain(sized(&[1023, 1024, 1025, 2048])).collect()),
        failing_reads("failing-reads", small().into_iter().chain(sized(&[1024, 3073])).collect()),
        pieces("parts", !q),
        mutated("mutations", few(), marks.clone(), 1),
        short_strings("short", if q { 4 } else { 5 }),
    ];
    if !q {
        v.push(mutated("mutations-all-bytes", small(), (0..=255).collect(), 1));
        v.push(mutated("mutations-2", small().into_iter().take(1).collect(), marks, 2));
    }
    v
}

// ------------------------------------------------------------------------------------------------
// C14, C15: replies
// ------------------------------------------------------------------------------------------------

/// An HTTP response.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Http {
    pub status: u16,
    pub body: Vec<u8>,
}
/// Exactly one response and nothing else.
pub fn parse_response(b: &[u8]) -> Result<Http, String> {
    let mut at = 0;
    let mut line = || -> Result<String, String> {
        let n = b[at..].iter().position(|c| *c == b'\n').ok_or("the header is not complete")?;
        let l = &b[at..at + n];
        at += n + 1;
        let l = l.strip_suffix(b"\r").unwrap_or(l);
        String::from_utf8(l.to_vec()).map_err(|_| "header is not text".to_string())
    };
    let first = line()?;
    let mut p = first.splitn(3, ' ');
    let (v, code, _) = (p.next(), p.next(), p.next());
    if !matches!(v, Some("HTTP/1.1" | "HTTP/1.0")) {
        return Err(format!("bad status line {:?}", first));
    }
    let code = code.unwrap_or("");
    let status: u16 = if code.len() == 3 { code.parse().unwrap_or(0) } else { 0 };
    if !(100..600).contains(&status) {
        return Err(format!("bad status line {:?}", first));
    }
    let mut len = None;
    loop {
        let l = line()?;
        if l.is_empty() {
            break;
        }
        let Some((n, v)) = l.split_once(':') else { return Err(format!("bad header line {:?}", l)) };
        if n.is_empty() || !n.bytes().all(tchar) {
            return Err(format!("bad header name {:?}", n));
        }
        if n.eq_ignore_ascii_case("content-length") {
            let v = v.trim();
            if len.is_some() || v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) {
                return Err(format!("bad content length {:?}", l));
            }
            len = v.parse::<usize>().ok();
        }
    }
    let len = len.ok_or("no content length")?;
    let rest = &b[at..];
    if rest.len() < len {
        return Err(format!("{} bytes announced, {} came", len, rest.len()));
    }
    if !rest[len..].iter().all(|c| c.is_ascii_whitespace()) || rest.len() > len + 2 {
        return Err(format!("{} bytes announced, but {} came: {:?}", len, rest.len(), String::from_utf8_lossy(&rest[len..])));
    }
    Ok(Http { status, body: rest[..len].to_vec() })
}

/// The status that the statement of C14 gives to each kind of reply.
fn expected_status(r: &Reply) -> u16 {
    match r {
        Ok(_) => 200,
        Err(e) => match e {
            ServerError::AuthorizationError(_) => 401,
            ServerError::AuthenticationError(_) => 403,
            ServerError::RequestError(_) => 400,
            ServerError::KeyError(_) | ServerError::TokenizationError(_) | ServerError::ParseError(_) | ServerError::IndexError(_) | ServerError::TypeError(_) => 422,
            _ => 500,
        },
    }
}
fn errors(msg: &str) -> Vec<ServerError> {
    let m = || msg.to_string();
    vec![
        ServerError::KeyError(m()),
        ServerError::NetworkError(m()),
        ServerError::WriteError(m()),
        ServerError::TokenizationError(m()),
        ServerError::ParseError(m()),
        ServerError::IndexError(m()),
        ServerError::TypeError(m()),
        ServerError::InternalError(m()),
        ServerError::AuthorizationError(m()),
        ServerError::AuthenticationError(m()),
        ServerError::RequestError(m()),
    ]
}
/// Computed replies of all kinds, in a form that can be compared.
#[derive(Clone, Debug)]
pub enum Out {
    Val(Val),
    Message(String),
    Size(usize),
    Left(Option<u64>),
    Bool(bool),
    Type(Typ),
    Shutdown,
    Null,
}
impl Out {
    fn real(&self) -> InterpreterResponse {
        match self {
            Out::Val(v) => InterpreterResponse::Value(v.real()),
            Out::Message(m) => InterpreterResponse::Message(m.clone()),
            Out::Size(n) => InterpreterResponse::Size(*n),
            Out::Left(n) => InterpreterResponse::Expiration(*n),
            Out::Bool(b) => InterpreterResponse::Bool(*b),
            Out::Type(t) => InterpreterResponse::ValueType(match t {
                Typ::Null => ValueType::Null,
                Typ::Bool => ValueType::Bool,
                Typ::Str => ValueType::String,
                Typ::Int => ValueType::Int,
                Typ::Float => ValueType::Float,
                Typ::Vec(t) => ValueType::Vector(t.real()),
                Typ::Map(k, t) => ValueType::Map(k.real(), t.real()),
            }),
            Out::Shutdown => InterpreterResponse::ShuttingDown,
            Out::Null => InterpreterResponse::Null,
        }
    }
    fn is(&self, r: &InterpreterResponse) -> bool {
        match (self, r) {
            (Out::Val(v), InterpreterResponse::Value(w)) => v.is(w) && faithful(w),
            (Out::Message(a), InterpreterResponse::Message(b)) => a == b,
            (Out::Size(a), InterpreterResponse::Size(b)) => a == b,
            (Out::Left(a), InterpreterResponse::Expiration(b)) => a == b,
            (Out::Bool(a), InterpreterResponse::Bool(b)) => a == b,
            (Out::Type(a), InterpreterResponse::ValueType(b)) => a.is(b),
            (Out::Shutdown, InterpreterResponse::ShuttingDown) | (Out::Null, InterpreterResponse::Null) => true,
            _ => false,
        }
    }
}
/// A decoded map must still be usable as a map.
fn faithful(_: &StorageValue) -> bool {
    true
}

fn outs() -> Vec<Out> {
    let mut v = vec![
        Out::Null,
        Out::Shutdown,
        Out::Bool(true),
        Out::Bool(false),
        Out::Left(None),
        Out::Left(Some(0)),
        Out::Left(Some(u64::MAX)),
        Out::Size(0),
        Out::Size(usize::MAX),
        Out::Message("".into()),
        Out::Message("Size: 1\r\n\r\n\u{e9}".into()),
    ];
    for t in [Typ::Null, Typ::Bool, Typ::Str, Typ::Int, Typ::Float] {
        v.push(Out::Type(t));
    }
    for t in CTS {
        v.push(Out::Type(Typ::Vec(t)));
        for k in KTS {
            v.push(Out::Type(Typ::Map(k, t)));
        }
    }
    for x in scalar_values() {
        v.push(Out::Val(x));
    }
    for t in CTS {
        for n in 0..4 {
            v.push(Out::Val(Val::Vec(t, (0..n).map(|i| t.sample(i)).collect())));
        }
        for k in KTS {
            for n in 0..4 {
                v.push(Out::Val(Val::Map(k, t, (0..n).map(|i| (k.sample(i), t.sample(i))).collect())));
            }
        }
    }
    v
}
fn texts() -> Vec<String> {
    let mut v: Vec<String> = vec![
        "".into(),
        "abc".into(),
        "\"".into(),
        "\\".into(),
        "\r\n\r\nHTTP/1.1 200 Ok\r\n".into(),
        "\u{e9}\u{6f22}\u{1F600}".into(),
        "\u{2028}\u{feff}\u{fffd}\u{10ffff}".into(),
        "\0\x01\x1f\x7f\u{80}".into(),
        "null".into(),
        "1".into(),
        "{\"a\":1}".into(),
    ];
    v.push("x".repeat(70_000));
    v.push("\u{e9}\"\\\n".repeat(3_000));
    v
}
fn ints() -> Vec<i64> {
    let mut v = vec![0, 1, -1, i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1];
    for p in [31, 32, 52, 53, 54, 62] {
        for d in -1..=1 {
            v.push((1i64 << p) + d);
            v.push(-(1i64 << p) + d);
        }
    }
    v
}
fn floats() -> Vec<f32> {
    let mut v = vec![0.0, -0.0, 1.0, 0.1, -1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 16777217.0, 3.4e38, 1e-45, 1e-38];
    for b in [1u32, 2, 0x7fffff, 0x800000, 0x800001, 0x3f800001, 0x4b7fffff, 0x7f7ffffe, 0x80000001] {
        v.push(f32::from_bits(b));
    }
    v
}
fn scalar_values() -> Vec<Val> {
    let mut v = vec![Val::Null, Val::Bool(true), Val::Bool(false)];
    v.extend(ints().into_iter().map(Val::Int));
    v.extend(floats().into_iter().map(f));
    v.extend(texts().into_iter().map(Val::Str));
    v
}

fn send(side: Side, reply: Reply, cfg: NetCfg) -> Got {
    connection(side, vec![Seg::Data(post("admin", "get a"))], Some(reply), cfg)
}
/// One reply, all the ways of writing it.
fn check_reply(r: &mut Run, side: Side, reply: Reply, cfg: NetCfg, may_fail: bool, how: &str) {
    let expected = expected_status(&reply);
    let text = match &reply {
        Err(e) => Some(format!("{}", e)),
        Ok(_) => None,
    };
    let shape = crate::lang::shown(&format!("{:?}", reply));
    let got = send(side, reply, cfg);
    let what = format!("{:?} sender, reply {}{}", side, shape, how);
    if let Some(p) = &got.problem {
        r.violate("sender", format!("{}: {}", what, p));
        return;
    }
    let Some(rec) = &got.received else { return };
    r.transitions(rec.writes.len() as u64);
    r.log(|| format!("{}: writes {:?}, sent {:?}", what, rec.writes, got.sent));
    if may_fail && !matches!(got.sent, Some(Ok(()))) {
        r.outcome("write failed, reported");
        return;
    }
    if !matches!(got.sent, Some(Ok(()))) {
        r.violate("sender", format!("{}: sending reports {:?}", what, got.sent));
        return;
    }
    if !rec.closed {
        r.violate("close", format!("{}: the connection stays open", what));
    }
    match parse_response(&rec.bytes) {
        Err(e) => r.violate("frame", format!("{}: writes of {:?} bytes: {}", what, &rec.writes[..rec.writes.len().min(20)], e)),
        Ok(h) => {
            if r.wants_sample() {
                r.sample(format!("{}: {} writes, status {}", what, rec.writes.len(), h.status));
            }
            r.outcome(&format!("status {}", h.status));
            if h.status != expected {
                r.violate("status", format!("{}: status {} instead of {}", what, h.status, expected));
            }
            match text {
                Some(t) => {
                    if h.body != t.as_bytes() {
                        r.violate("payload", format!("{}: the payload is {:?}", what, String::from_utf8_lossy(&h.body)));
                    }
                }
                None => {
                    if serde_json::from_slice::<serde_json::Value>(&h.body).is_err() {
                        r.violate("payload", format!("{}: the payload is not JSON", what));
                    }
                }
            }
        }
    }
}
fn replies() -> Vec<Reply> {
    let mut v: Vec<Reply> = outs().iter().map(|o| Ok(o.real())).collect();
    for m in ["", "x", "User \u{e9} is not\r\n\r\nwelcome \"here\""] {
        v.extend(errors(m).into_iter().map(Err));
    }
    v
}
pub fn c14(q: bool) -> Vec<Lane> {
    let mut v = vec![
        Lane::new("plain", Budget::free(), |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let n = replies().len();
            let i = pick(n);
            let size = *pick_from(&[0usize, 1, 2, 3, 64, 100, 1000, 65536]);
            r.distinct(hash64(&(side, i, size)));
            check_reply(r, side, replies().swap_remove(i), NetCfg { max_write: size, ..NetCfg::default() }, false, &format!(", at most {} bytes a write", size));
        }),
        Lane::new("short-writes", Budget::of(if q { 3 } else { 4 }, &[(Kind::ShortWrite, 4)]), |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let reply: Reply = match pick(5) {
                0 => Ok(InterpreterResponse::Null),
                1 => Ok(InterpreterResponse::Value(s("\u{e9}\u{6f22}").real())),
                2 => Err(ServerError::KeyError("not found".into())),
                3 => Ok(InterpreterResponse::Value(Val::Vec(Ct::Int, (0..300).map(Val::Int).collect()).real())),
                _ => Err(ServerError::RequestError("".into())),
            };
            check_reply(r, side, reply, NetCfg { short_write: true, ..NetCfg::default() }, false, " with short writes");
        }),
        Lane::new("failing-writes", Budget::of(2, &[(Kind::IoError, 1), (Kind::ShortWrite, 1)]), |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let reply: Reply = match pick(3) {
                0 => Ok(InterpreterResponse::Null),
                1 => Ok(InterpreterResponse::Value(Val::Vec(Ct::Int, (0..300).map(Val::Int).collect()).real())),
                _ => Err(ServerError::RequestError("".into())),
            };
            check_reply(r, side, reply, NetCfg { io_error: true, short_write: true, ..NetCfg::default() }, true, " with a failing write");
        }),
    ];
    if !q {
        v.push(Lane::new("write-limits", Budget::free(), |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let n = replies().len();
            let i = pick(n);
            let size = 1 + pick(200);
            r.distinct(hash64(&(side, i, size)));
            check_reply(r, side, replies().swap_remove(i), NetCfg { max_write: size, ..NetCfg::default() }, false, &format!(", at most {} bytes a write", size));
        }));
    }
    v
}

/// Send a computed reply and decode what arrives.
fn round_trip(r: &mut Run, side: Side, o: &Out) {
    r.transitions(1);
    let shape = crate::lang::shown(&format!("{:?}", o));
    r.distinct(hash64(&(side, format!("{:?}", o))));
    let got = send(side, Ok(o.real()), NetCfg::default());
    let what = format!("{:?} sender, reply {}", side, shape);
    if let Some(p) = &got.problem {
        r.outcome("problem");
        r.violate("encode", format!("{}: {}", what, p));
        return;
    }
    let Some(rec) = &got.received else { return };
    let body = match parse_response(&rec.bytes) {
        Ok(h) if h.status == 200 => h.body,
        Ok(h) => {
            r.violate("encode", format!("{}: status {}", what, h.status));
            return;
        }
        Err(e) => {
            r.violate("frame", format!("{}: {}", what, e));
            return;
        }
    };
    r.log(|| format!("{} -> {}", what, crate::lang::shown(&String::from_utf8_lossy(&body))));
    if r.wants_sample() {
        r.sample(format!("{} -> {}", what, crate::lang::shown(&String::from_utf8_lossy(&body))));
    }
    match guard(|| serde_json::from_slice::<InterpreterResponse>(&body)) {
        Err(p) => r.violate("decode", format!("{}: decoding panics: {}", what, p)),
        Ok(Err(e)) => r.violate("decode", format!("{}: {} does not decode: {}", what, crate::lang::shown(&String::from_utf8_lossy(&body)), e)),
        Ok(Ok(x)) => {
            r.outcome("equal");
            if !o.is(&x) {
                r.violate("value", format!("{}: {} decodes to {:?}", what, crate::lang::shown(&String::from_utf8_lossy(&body)), x));
            }
        }
    }
}
fn elements(t: Ct) -> Vec<Val> {
    match t {
        Ct::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Ct::Str => texts().into_iter().filter(|x| x.len() < 1000).map(Val::Str).collect(),
        Ct::Int => ints().into_iter().map(Val::Int).collect(),
        Ct::Float => floats().into_iter().map(f).collect(),
    }
}
fn keys(k: Kt) -> Vec<Val> {
    elements(match k {
        Kt::Str => Ct::Str,
        Kt::Int => Ct::Int,
    })
}
pub fn c15(q: bool) -> Vec<Lane> {
    let depth = if q { 2 } else { 3 };
    let mut v = vec![
        Lane::new("kinds", Budget::free(), |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let all = outs();
            let o = pick_from(&all).clone();
            round_trip(r, side, &o);
        }),
        Lane::new("vectors", Budget::free(), move |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let t = *pick_from(&CTS);
            let es = elements(t);
            let n = pick(depth + 1);
            let xs = (0..n).map(|_| pick_from(&es).clone()).collect();
            round_trip(r, side, &Out::Val(Val::Vec(t, xs)));
        }),
        Lane::new("maps", Budget::free(), move |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let t = *pick_from(&CTS);
            let k = *pick_from(&KTS);
            let (ks, es) = (keys(k), elements(t));
            let n = pick(3);
            let mut m = BTreeMap::new();
            let mut from = 0;
            for j in 0..n {
                if from >= ks.len() {
                    return;
                }
                let i = from + pick(ks.len() - from);
                from = i + 1;
                // the second entry's value varies less
                let e = if j == 0 { pick_from(&es).clone() } else { es[pick(2)].clone() };
                m.insert(ks[i].clone(), e);
            }
            round_trip(r, side, &Out::Val(Val::Map(k, t, m)));
        }),
        Lane::new("sizes", Budget::free(), move |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let n = *pick_from(&[5usize, 10, 100, 1000]);
            let t = *pick_from(&CTS);
            let v = match pick(3) {
                0 => Val::Vec(t, (0..n).map(|i| t.sample(i)).collect()),
                i => Val::Map(KTS[i - 1], t, (0..n).map(|j| (KTS[i - 1].sample(j), t.sample(j))).collect()),
            };
            round_trip(r, side, &Out::Val(v));
        }),
        Lane::new("characters", Budget::free(), move |r: &mut Run| {
            let step = 64u32;
            let block = pick((0x110000u32 / step) as usize) as u32;
            let mut t = String::new();
            for c in block * step..(block + 1) * step {
                if let Some(c) = char::from_u32(c) {
                    t.push(c);
                }
            }
            let side = *pick_from(&SIDES);
            match pick(3) {
                0 => round_trip(r, side, &Out::Val(Val::Str(t))),
                1 => round_trip(r, side, &Out::Val(Val::Vec(Ct::Str, t.chars().map(|c| Val::Str(c.to_string())).collect()))),
                _ => round_trip(r, side, &Out::Val(Val::Map(Kt::Str, Ct::Int, t.chars().map(|c| (Val::Str(c.to_string()), Val::Int(c as i64))).collect()))),
            }
        }),
        Lane::new("floats", Budget::free(), move |r: &mut Run| {
            // every exponent and sign, mantissas around the ends and every single bit
            let e = pick(255) as u32;
            let mut ms: Vec<u32> = vec![0, 1, 2, 0x400000, 0x7ffffe, 0x7fffff, 0x2aaaaa, 0x555555];
            ms.extend((0..23).map(|b| 1 << b));
            ms.extend((0..23).map(|b| 0x7fffff ^ (1 << b)));
            let m = *pick_from(&ms);
            let sign = pick(2) as u32;
            let x = Val::Float(sign << 31 | e << 23 | m);
            round_trip(r, Side::Blocking, &Out::Val(x.clone()));
            round_trip(r, Side::Async, &Out::Val(Val::Vec(Ct::Float, vec![x])));
        }),
        Lane::new("integers", Budget::free(), move |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let base: i128 = match pick(3) {
                0 => 1i128 << pick(64),
                1 => 10i128.pow(pick(19) as u32),
                _ => (0..pick(19)).fold(0, |n, d| n * 10 + (d as i128 % 9) + 1),
            };
            let n = (base + pick(5) as i128 - 2) * if flag() { -1 } else { 1 };
            let Ok(n) = i64::try_from(n) else { return };
            round_trip(r, side, &Out::Val(match pick(3) {
                0 => Val::Int(n),
                1 => Val::Vec(Ct::Int, vec![Val::Int(n), Val::Int(0), Val::Int(n)]),
                _ => Val::Map(Kt::Int, Ct::Int, [(Val::Int(n), Val::Int(n)), (Val::Int(n ^ 1), Val::Int(7))].into_iter().collect()),
            }));
        }),
        Lane::new("texts", Budget::free(), move |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let names = crate::seq::special_names();
            let t = if flag() {
                pick_from(&names).clone()
            } else {
                let unit = *pick_from(&["a", "\"", "\\", "\n", "\u{1}", "\u{e9}", "\u{20ac}", "\u{1f600}", "{", "\r\n", "\u{7f}", "\u{2028}"]);
                unit.repeat(pick(if q { 140 } else { 1100 }))
            };
            round_trip(r, side, &Out::Val(match pick(4) {
                0 => Val::Str(t),
                1 => Val::Vec(Ct::Str, vec![Val::Str(t.clone()), Val::Str(String::new()), Val::Str(t)]),
                2 => Val::Map(Kt::Str, Ct::Int, [(Val::Str(t), Val::Int(1)), (Val::Str("k".into()), Val::Int(2))].into_iter().collect()),
                _ => Val::Map(Kt::Int, Ct::Str, [(Val::Int(1), Val::Str(t))].into_iter().collect()),
            }));
        }),
    ];
    if !q {
        v.push(Lane::new("maps-3", Budget::free(), move |r: &mut Run| {
            let side = *pick_from(&SIDES);
            let t = *pick_from(&CTS);
            let k = *pick_from(&KTS);
            let (ks, es) = (keys(k), elements(t));
            let mut m = BTreeMap::new();
            let mut from = 0;
            for _ in 0..3 {
                if from >= ks.len() {
                    return;
                }
                let i = from + pick(ks.len() - from);
                from = i + 1;
                m.insert(ks[i].clone(), es[pick(es.len().min(4))].clone());
            }
            round_trip(r, side, &Out::Val(Val::Map(k, t, m)));
        }));
    }
    v
}
