//! Sequential clients against the three servers (C16-C18, C22, and the server-level parts of
//! C11-C15).
use crate::engine::*;
use crate::http;
use crate::lang;
use crate::model::*;
use crate::world::*;
use std::io::ErrorKind;
use vstd::net::NetCfg;

fn ask(user: &str, query: &str) -> Step {
    Step::ask(user, query)
}
fn nobody(query: &str) -> Step {
    Step::Ask { user: None, query: query.into() }
}

/// Play and check everything that holds of every scenario: no panic, no hang, right answers.
fn run(r: &mut Run, kind: Server, script: &[Step], linger: u64, net: NetCfg) -> (Played, Model, bool) {
    let p = play(kind, script, linger, net, r.verbose);
    r.transitions(p.steps);
    r.distinct(hash64(&(kind, short(script))));
    for l in p.trace.iter().rev().take(if r.verbose { 400 } else { 0 }).rev() {
        r.log.push(l.clone());
    }
    let mut m = Model::default();
    if let Some(t) = &p.trouble {
        r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(script), t));
    }
    if let Some(x) = p.panics.first() {
        r.violate("panic", format!("{:?} server, {:?}: {} panicked: {}", kind, short(script), x.name, x.message));
    }
    let down = follow(r, kind, script, &p, &mut m);
    r.state(m.hash());
    if !down && p.process_end.is_some() {
        r.violate("stopped", format!("{:?} server, {:?}: the process ended although no shutdown was executed", kind, short(script)));
    }
    if r.wants_sample() {
        let a: Vec<String> = p.answers.iter().flatten().map(|a| a.shown()).collect();
        r.sample(format!("{:?} server: {:?} -> {:?} ({} steps)", kind, short(script), a, p.steps));
    }
    (p, m, down)
}
fn simply(r: &mut Run, kind: Server, script: &[Step]) {
    run(r, kind, script, 0, NetCfg::default());
}

// ------------------------------------------------------------------------------------------------
// C16: who reaches the data
// ------------------------------------------------------------------------------------------------

const USERS: [Option<&str>; 12] = [
    Some("admin"),
    Some("write"),
    Some("read"),
    None,
    Some("unauthenticated"),
    Some("bob"),
    Some(""),
    Some("Admin"),
    Some("READ"),
    Some("admin,read"),
    Some("adminx"),
    Some("read write"),
];
/// Queries of every level.
const QUERIES: [&str; 8] = [
    "get k",
    "set k 1",
    "set k 2; get k",
    "get j; set k 3",
    "ex k; ex j",
    "del k",
    "shutdown",
    "set j 1; shutdown",
];
fn step(user: Option<&str>, q: &str) -> Step {
    Step::Ask { user: user.map(|x| x.to_string()), query: q.into() }
}
/// Requests that carry the user name in odd places; the bytes, and who sent it.
fn odd_identity() -> Vec<(Vec<u8>, Option<&'static str>)> {
    let body = |q: &str, more: &str| format!("{{\"query\":\"{}\"{}}}", q, more).into_bytes();
    let mk = |h: &[(&str, &[u8])], b: &[u8], extra: &[u8]| {
        let mut r = http::build("", "POST / HTTP/1.1", h, "", b, extra).bytes;
        r.extend(extra);
        r
    };
    let q = "set k 9; get k";
    vec![
        (mk(&[("username", b"write"), ("Content-Length", b"CL")], &body(q, ""), b""), Some("write")),
        (mk(&[("USERNAME", b"read"), ("Content-Length", b"CL")], &body(q, ""), b""), Some("read")),
        (mk(&[("X-Username", b"admin"), ("Content-Length", b"CL")], &body(q, ""), b""), None),
        (mk(&[("User", b"admin"), ("Content-Length", b"CL")], &body(q, ""), b""), None),
        (mk(&[("Usernam", b"admin"), ("Content-Length", b"CL")], &body(q, ""), b""), None),
        (mk(&[("Usernames", b"admin"), ("Content-Length", b"CL")], &body(q, ""), b""), None),
        (mk(&[("Content-Length", b"CL")], &body(q, ",\"Username\":\"admin\""), b""), None),
        (mk(&[("Content-Length", b"CL")], &body(q, ""), b"\r\nUsername: admin\r\n\r\n"), None),
        (mk(&[("Content-Length", b"CL")], &body(q, ""), &request_bytes(Some("admin"), q)), None),
        (mk(&[("Username", b"read"), ("Content-Length", b"CL")], &body(q, ""), &request_bytes(Some("admin"), q)), Some("read")),
        (mk(&[("Content-Length", b"CL"), ("Comment", b"Username: admin")], &body(q, ""), b""), None),
        (mk(&[("Username", b" admin\t"), ("Content-Length", b"CL")], &body(q, ""), b""), Some("admin")),
    ]
}
/// Requests that suggest an identity in some way other than the user name header.
fn suggestions() -> Vec<(String, Vec<(String, String)>, String)> {
    let line = "POST / HTTP/1.1".to_string();
    let mut v = vec![];
    for (u, colon, both) in [("admin", "YWRtaW46", "YWRtaW46YWRtaW4="), ("write", "d3JpdGU6", "d3JpdGU6d3JpdGU="), ("read", "cmVhZDo=", "cmVhZDpyZWFk")] {
        let mut h = |n: &str, x: String| v.push((line.clone(), vec![(n.to_string(), x)], String::new()));
        for b in [colon, both] {
            h("Authorization", format!("Basic {}", b));
            h("Proxy-Authorization", format!("Basic {}", b));
        }
        for n in [
            "X-Username", "X-User", "X-User-Name", "User-Name", "User_Name", "UserName2", "User", "Login", "Name", "Identity", "X-Forwarded-User", "X-Forwarded-Username", "X-Remote-User",
            "Remote-User", "X-Auth-User", "X-Authenticated-User", "X-WebAuth-User", "From", "X-Role", "Role", "X-Auth", "X-Admin", "Auth", "Account", "X-Api-Key", "Api-Key", "Token", "User-Agent",
            "Host", "Origin", "Referer", "X-Forwarded-For", "Via", "Password", "Authentication",
        ] {
            h(n, u.to_string());
        }
        for (n, x) in [
            ("Authorization", "Bearer %"), ("Authorization", "%"), ("Authorization", "Username %"), ("Authorization", "Digest username=\"%\""), ("Cookie", "username=%"), ("Cookie", "user=%; session=1"),
            ("Cookie", "Username=%"), ("Host", "%@localhost"), ("Host", "%:%@localhost:7878"), ("From", "%@localhost"), ("X-Forwarded-Host", "%"), ("Forwarded", "for=%"), ("Content-Type", "application/json; username=%"),
            ("Accept", "username/%"), ("Keep-Alive", "Username: %"), ("X-Override-Username", "%"), ("X-Original-Username", "%"), ("Sudo", "%"), ("X-Sudo", "%"), ("X-Impersonate", "%"), ("Username-Override", "%"),
        ] {
            h(n, x.replace('%', u));
        }
        for l in ["/?username=%", "/?Username=%", "/?user=%", "/%", "/%/", "/?%", "/;username=%", "http://%@localhost/", "http://%:%@localhost:7878/", "/?username=%&x=1", "/#%", "/users/%"] {
            v.push((format!("POST {} HTTP/1.1", l.replace('%', u)), vec![], String::new()));
        }
        for f in ["username", "Username", "user", "authorization", "role", "level", "as", "auth", "authentication", "headers", "identity", "token", "admin", "on_behalf_of"] {
            v.push((line.clone(), vec![], format!(",\"{}\":\"{}\"", f, u)));
        }
        v.push((line.clone(), vec![], format!(",\"headers\":{{\"Username\":\"{}\"}}", u)));
        v.push((line.clone(), vec![], format!(",\"authorization\":{{\"username\":\"{}\"}}", u)));
        v.push((line.clone(), vec![], format!(",\"authorization\":\"{}\"", ["Admin", "Write", "Read"][["admin", "write", "read"].iter().position(|x| *x == u).unwrap()])));
    }
    for (n, x) in [("X-Debug", "1"), ("X-Test", "true"), ("X-Real-IP", "127.0.0.1"), ("X-Forwarded-For", "127.0.0.1"), ("X-Admin", "true"), ("Host", "localhost"), ("Connection", "upgrade"), ("X-Internal", "1"), ("Expect", "100-continue"), ("Authorization", "Basic"), ("Authorization", "")] {
        v.push((line.clone(), vec![(n.into(), x.into())], String::new()));
    }
    v
}
/// One change to a name.
fn mutations(base: &str) -> Vec<String> {
    let mut v = vec![];
    let cs: Vec<char> = base.chars().collect();
    let s = |c: &[char]| c.iter().collect::<String>();
    // an inserted character, at every place
    for x in "@/:;,.-_+|=%#&*0\\\"'`~!?()[]{}<>$^x \u{e9}".chars() {
        for i in 0..=cs.len() {
            let mut c = cs.clone();
            c.insert(i, x);
            v.push(s(&c));
        }
    }
    // a character missing, doubled, or in the other case
    for i in 0..cs.len() {
        let mut c = cs.clone();
        c.remove(i);
        v.push(s(&c));
        let mut c = cs.clone();
        c.insert(i, cs[i]);
        v.push(s(&c));
        let mut c = cs.clone();
        c[i] = c[i].to_ascii_uppercase();
        v.push(s(&c));
        if i > 0 {
            let mut c = cs.clone();
            c.swap(i, i - 1);
            v.push(s(&c));
            v.push(s(&cs[..i]));
            v.push(s(&cs[i..]));
        }
    }
    v.push(base.to_uppercase());
    v.push(format!("{}{}", base, base));
    v.push(cs.iter().rev().collect());
    // as part of something bigger
    for x in ["example.com", "x", "1", "admin", "write", "read", "unauthenticated", "true", "*", "root", "localhost"] {
        for sep in ["@", ":", "/", "\\", ",", ";", "=", "|", ".", "-", "_", "+", " ", "&", "%20", "%00", "%40", "#"] {
            v.push(format!("{}{}{}", base, sep, x));
            v.push(format!("{}{}{}", x, sep, base));
        }
    }
    for (a, b) in [("\"", "\""), ("'", "'"), ("<", ">"), ("(", ")"), ("[", "]"), ("{", "}"), ("`", "`"), ("Basic ", ""), ("Bearer ", ""), ("user=", ""), ("CN=", ",O=x")] {
        v.push(format!("{}{}{}", a, base, b));
    }
    // spelt differently
    v.push(base.bytes().map(|b| format!("%{:02x}", b)).collect());
    v.push(base.bytes().map(|b| format!("\\u{:04x}", b)).collect());
    v.push(base.bytes().map(|b| format!("&#{};", b)).collect());
    for (i, c) in cs.iter().enumerate() {
        let like = match c {
            'a' => "\u{430}",
            'e' => "\u{435}",
            'i' => "\u{131}",
            'r' => "\u{280}",
            't' => "\u{442}",
            'd' => "\u{501}",
            'u' => "\u{57d}",
            'n' => "\u{578}",
            _ => continue,
        };
        let mut c = cs.clone();
        c[i] = like.chars().next().unwrap();
        v.push(s(&c));
    }
    v
}
/// Names that are almost the known ones, whether or not they happen to be one.
fn names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for b in ["admin", "write", "read", "unauthenticated"] {
        v.extend(mutations(b));
    }
    for x in ["root", "user", "guest", "administrator", "writer", "reader", "superuser", "system", "test", "anonymous", "null", "none", "true", "0", "1", "*", "%", ".", "a", "w", "r", "server", "Write Read Admin"] {
        v.push(x.into());
    }
    v.push("x".repeat(10_000));
    v.push(format!("admin{}", "n".repeat(1000)));
    // the blanks around a header's value do not belong to it
    v.retain(|n| n.trim() == n);
    v.sort();
    v.dedup();
    v
}
pub fn c16(q: bool) -> Vec<Lane> {
    let mut v = vec![
        Lane::new("names", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let all = names();
            let n = pick_from(&all).clone();
            let q = *pick_from(&["set k 2; get k", "get k"]);
            simply(r, kind, &[ask("write", "set k 1"), ask(&n, q), ask("read", "get k"), ask(&n, "shutdown"), ask("read", "get k")]);
        }),
        Lane::new("pairs", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let a = step(*pick_from(&USERS), *pick_from(&QUERIES));
            let b = step(*pick_from(&USERS), *pick_from(&QUERIES));
            simply(r, kind, &[ask("write", "set j 7"), a, b, ask("read", "try_get k"), ask("read", "try_get j")]);
        }),
        Lane::new("odd-identities", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let before = step(*pick_from(&USERS[..6]), "set k 1");
            let all = odd_identity();
            let i = pick(all.len());
            let (bytes, user) = all[i].clone();
            let after = step(*pick_from(&USERS[..6]), "del k");
            let query = "set k 9; get k";
            // judged as if it were a plain request of that user
            let script = [before.clone(), Step::Raw { parts: vec![(bytes, 0)], then: Then::Finish }, ask("admin", "try_get k"), after.clone(), ask("read", "try_get k")];
            let judged = [before, step(user, query), ask("admin", "try_get k"), after, ask("read", "try_get k")];
            let p = play(kind, &script, 0, NetCfg::default(), r.verbose);
            r.transitions(p.steps);
            r.distinct(hash64(&(kind, short(&script))));
            if let Some(t) = p.trouble.clone().or(p.panics.first().map(|x| x.message.clone())) {
                r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(&script), t));
            }
            let mut m = Model::default();
            follow(r, kind, &judged, &p, &mut m);
        }),
        Lane::new("suggested-identities", Budget::free(), |r: &mut Run| {
            // only the user name header counts, whatever else a request says
            let kind = *pick_from(&SERVERS);
            let all = suggestions();
            let (line, extra, field) = pick_from(&all).clone();
            let user = *pick_from(&[None, Some("bob"), Some("read"), Some("unauthenticated"), Some("")]);
            let query = *pick_from(&["set k 9; get k", "get k"]);
            let first = flag();
            let body = format!("{{\"query\":\"{}\"{}}}", query, field).into_bytes();
            let mut hs: Vec<(&str, &[u8])> = extra.iter().map(|(a, b)| (a.as_str(), b.as_bytes())).collect();
            if let Some(u) = user {
                hs.insert(if first { 0 } else { hs.len() }, ("Username", u.as_bytes()));
            }
            hs.push(("Content-Length", b"CL"));
            let bytes = http::build("", &line, &hs, "", &body, b"").bytes;
            let script = [ask("write", "set k 1"), Step::Raw { parts: vec![(bytes, 0)], then: Then::Read }, ask("admin", "try_get k")];
            let judged = [ask("write", "set k 1"), step(user, query), ask("admin", "try_get k")];
            let p = play(kind, &script, 0, NetCfg::default(), r.verbose);
            r.transitions(p.steps);
            r.distinct(hash64(&(kind, short(&script))));
            if let Some(t) = p.trouble.clone().or(p.panics.first().map(|x| x.message.clone())) {
                r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(&script), t));
            }
            let mut m = Model::default();
            follow(r, kind, &judged, &p, &mut m);
        }),
        Lane::new("cut-off-identities", Budget::free(), |r: &mut Run| {
            // a request of one user that ends too early, then a client without that identity
            let kind = *pick_from(&SERVERS);
            let full = request_bytes(Some(*pick_from(&["admin", "write"])), "set k 9");
            let n = pick(full.len());
            let then = *pick_from(&[Then::Finish, Then::Close, Then::Reset]);
            let b = step(*pick_from(&USERS[2..6]), "set k 1");
            simply(r, kind, &[Step::raw(&full[..n], then), b, ask("read", "try_get k")]);
        }),
    ];
    v.extend(crate::conc::identities(Server::Multi, q));
    v.extend(crate::conc::identities(Server::Async, q));
    if !q {
        v.push(Lane::new("triples", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let s: Vec<Step> = (0..3).map(|_| step(*pick_from(&USERS[..6]), *pick_from(&QUERIES))).chain([ask("read", "try_get k"), ask("read", "try_get j")]).collect();
            simply(r, kind, &s);
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------------
// C17: when a server stops
// ------------------------------------------------------------------------------------------------

/// How long an executed shutdown may take.
const STOP_LIMIT: u64 = 30 * SECOND;

fn shutdown_queries() -> Vec<String> {
    let parts = ["get nokey", "set k 1", "vpush k 1", "ex k", "shutdown", "get", "\"shutdown\"", "set s \"shutdown\"", "bogus"];
    let mut v: Vec<String> = vec!["SHUTDOWN".into(), " shutdown ;; ".into(), "Shutdown; shutdown".into(), "shutdownx".into(), "shut down".into(), "shutdown k".into(), "shutdown 1".into()];
    for a in parts {
        v.push(a.into());
        for b in parts {
            v.push(format!("{}; {}", a, b));
        }
    }
    for (a, b) in [("set k 1", "get nokey"), ("get nokey", "set k 1"), ("ex k", "ex k"), ("set k 1", "get k")] {
        v.push(format!("{}; {}; shutdown", a, b));
        v.push(format!("{}; shutdown; {}", a, b));
        v.push(format!("shutdown; {}; {}", a, b));
    }
    v
}
/// After the script the server stops iff a shutdown was executed, and serves otherwise.
fn stop_check(r: &mut Run, kind: Server, mut script: Vec<Step>) {
    let n = script.len();
    // probes: only meaningful when it does not stop
    script.push(ask("read", "ex probe"));
    let mut m = Model::default();
    // does the reference stop?
    let mut stops = false;
    for s in &script {
        if let Step::Ask { user, query } = s {
            if expected(&mut m, user.as_deref(), query) == Some(Rep::Shutdown) {
                stops = true;
            }
        }
    }
    if stops {
        script.truncate(n);
    }
    let (p, _, down) = run(r, kind, &script, if stops { STOP_LIMIT } else { 3 * SECOND }, NetCfg::default());
    if r.failed() {
        return;
    }
    r.outcome(if stops { "stops" } else { "goes on" });
    if down != stops {
        r.violate("shutdown", format!("{:?} server, {:?}: shutdown executed: {}, expected {}", kind, short(&script), down, stops));
    } else if stops && p.process_end.is_none() {
        r.violate("not-stopped", format!("{:?} server, {:?}: the process is still running {} s after the shutdown", kind, short(&script), STOP_LIMIT / SECOND));
    }
}
pub fn c17(q: bool) -> Vec<Lane> {
    let mut v = vec![
        Lane::new("queries", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let user = *pick_from(&USERS[..7]);
            let all = shutdown_queries();
            let q = pick_from(&all).clone();
            stop_check(r, kind, vec![step(user, &q)]);
        }),
        Lane::new("histories", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let menu = [
                ask("read", "shutdown"),
                ask("write", "set k 1; shutdown"),
                ask("admin", "get nokey; shutdown"),
                ask("admin", "shutdown x"),
                ask("admin", "set k \"shutdown\"; get k"),
                nobody("shutdown"),
                ask("bob", "shutdown"),
                Step::raw(&request_bytes(Some("admin"), "shutdown")[..60], Then::Finish),
                Step::Gap(7 * SECOND),
            ];
            let a = pick_from(&menu).clone();
            let b = pick_from(&menu).clone();
            let last = pick_from(&[ask("admin", "shutdown"), ask("admin", "set k 1; shutdown; set k 2"), ask("write", "shutdown")]).clone();
            stop_check(r, kind, vec![a, b, last]);
        }),
        Lane::new("truncated", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let full = request_bytes(Some("admin"), "shutdown");
            let n = pick(full.len());
            let then = *pick_from(&[Then::Finish, Then::Close, Then::Reset, Then::ResetUnread]);
            stop_check(r, kind, vec![Step::raw(&full[..n], then)]);
        }),
        Lane::new("others-connected", Budget::free(), |r: &mut Run| {
            // clients that connect right behind the shutdown and say nothing, half a request or a
            // whole request, and never hang up
            let kind = *pick_from(&SERVERS);
            let full = request_bytes(Some("read"), "get k");
            let n = *pick_from(&[0, 1, full.len() / 2, full.len() - 1, full.len()]);
            let others = 1 + pick(4);
            let body = request_bytes(Some("admin"), "shutdown");
            let mut script = vec![ask("write", "set k 1"), Step::raw(&body, Then::Hold)];
            for _ in 0..others {
                script.push(Step::raw(&full[..n], Then::Hold));
            }
            let p = play(kind, &script, STOP_LIMIT, NetCfg::default(), r.verbose);
            r.transitions(p.steps);
            r.distinct(hash64(&(kind, n, others)));
            if let Some(t) = &p.trouble {
                r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(&script), t));
            } else if p.process_end.is_none() {
                r.violate("not-stopped", format!("{:?} server, {:?}: still running {} s after the shutdown", kind, short(&script), STOP_LIMIT / SECOND));
            } else {
                r.outcome("stopped");
            }
        }),
        Lane::new("requester-leaves", Budget::free(), |r: &mut Run| {
            // the shutdown is executed although the requester does not wait for the reply
            let kind = *pick_from(&SERVERS);
            let then = *pick_from(&[Then::Close, Then::Reset]);
            let script = vec![Step::raw(&request_bytes(Some("admin"), "shutdown"), then)];
            let p = play(kind, &script, STOP_LIMIT, NetCfg::default(), r.verbose);
            r.transitions(p.steps);
            r.distinct(hash64(&(kind, then)));
            r.outcome("stopped");
            if let Some(t) = &p.trouble {
                r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(&script), t));
            } else if p.process_end.is_none() {
                r.violate("not-stopped", format!("{:?} server: the requester of the shutdown left ({:?}), the server goes on", kind, then));
            }
        }),
    ];
    v.push(crate::conc::shutdowns(Server::Multi, q));
    v.push(crate::conc::shutdowns(Server::Async, q));
    if !q {
        v.push(Lane::new("pairs", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let all = shutdown_queries();
            let a = step(*pick_from(&USERS[..4]), &pick_from(&all).clone());
            let b = step(*pick_from(&USERS[..4]), &pick_from(&all).clone());
            stop_check(r, kind, vec![a, b]);
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------------
// C18: the next client is served
// ------------------------------------------------------------------------------------------------

fn nuisances() -> Vec<Step> {
    let set = request_bytes(Some("write"), "try_set other 1");
    let whole = |then| Step::raw(&set, then);
    let mut v = vec![
        Step::raw(b"", Then::Finish),
        Step::raw(b"", Then::Close),
        Step::raw(b"", Then::ResetUnread),
        Step::raw(&set[..set.len() / 2], Then::Finish),
        Step::raw(&set[..set.len() / 2], Then::Close),
        Step::raw(&set[..set.len() / 2], Then::Reset),
        Step::raw(&set[..set.len() - 1], Then::Finish),
        Step::raw(&set[..set.len() - 1], Then::Reset),
        Step::raw(&set[..10], Then::Close),
        whole(Then::Close),
        whole(Then::Reset),
        whole(Then::ResetUnread),
        Step::raw(b"\0\xff\x01garbage", Then::Finish),
        Step::raw(b"GET / HTTP/1.1\r\n\r\n", Then::Finish),
        Step::raw(b"POST / HTTP/1.1\r\n\r\n", Then::Finish),
        Step::raw(b"POST / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\n", Then::Finish),
        Step::raw(b"POST / HTTP/1.1\r\nContent-Length: 18446744073709551600\r\n\r\nxx", Then::Close),
        Step::raw(b"POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\n", Then::Read),
        Step::raw(b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 2\r\n\r\n{}", Then::Read),
        Step::raw(&[b"POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: 200000\r\n\r\n".to_vec(), b"[".repeat(200_000)].concat(), Then::Read),
        Step::raw(&b"x".repeat(5000), Then::Close),
        Step::AcceptError(ErrorKind::ConnectionAborted),
        Step::AcceptError(ErrorKind::Other),
        nobody("set other 1"),
        ask("bob", "set other 1"),
        ask("unauthenticated", "set other 1"),
        ask("read", "set other 1"),
        ask("write", "shutdown"),
    ];
    // queries that once were, or could be, too much for somebody
    for q in [
        "", " ", ";", "get", "get ", "set", "set a", "set a \"", "set a \"x", "set a \"\\", "set a vec", "set a vec[", "set a vec[int]:", "set a int", "set a int [", "set a int [1", "set a int [1,", "set a int [1 2]", "set a int [\"x\"]", "set a int [1]]",
        "set a map[", "set a map[str:", "set a map[str:int]", "set a str int", "set a float int {1.5:1}", "set a str int {1:1}", "set a str int {\"a\":1,}", "set a str int {\"a\" 1}", "set a str int {", "set a str int {\"a\"", "set a str int {\"a\":", "set other 1 -1",
        "set other 1 18446744073709551615", "set other 1 99999999999999999999999", "set a 9223372036854775808", "set a -9223372036854775808", "set a 1e99999", "set a --1", "set a -", "set a .",
        "vget other -1", "vget other 18446744073709551615", "vset other 99 1", "mget other 1", "mset other \"a\" 1", "\u{0}", "\u{1F600}", "get \u{130}", "upd other 1 18446744073709551614",
        "try_set a 1 18446744073709551615", "lt other", "lt other 5", "none", "set v int [1]; vset v 1 5", "set v int [1]; vget v 1; vpop v", "set v str []; vpop v; vpop v",
        "set m str int {}; mget m 5", "set m str int {}; mset m 5 5", "set m str int {}; mdel m 5", "set m int str {}; mex m \"x\"", "set m str int {\"a\":1}; get m",
        "set m int float {1:1.5}; get m; mget m 1", "set v bool [true]; get v",
        "[[[[[[", "]]]]", "::::", "{{{{", "set a vec[vec]", "set a map map {}", "get get", "set set set", "shutdownshutdown", "\"\"\"\"", "\\",
    ] {
        v.push(ask("write", q));
    }
    v.push(ask("write", &"get a;".repeat(20_000)));
    v.push(ask("write", &"[".repeat(100_000)));
    v.push(ask("write", &format!("set big \"{}\"; get big", "x".repeat(200_000))));
    v
}
fn serve_after(r: &mut Run, kind: Server, bad: Vec<Step>) {
    let mut script = vec![ask("write", "set k 1")];
    script.extend(bad);
    // as many as the multithreaded server has workers, and one more
    for i in 0..4 {
        script.push(ask("write", &format!("set p {}", i)));
        script.push(ask("read", "get p"));
    }
    script.push(ask("read", "get k"));
    let p = play(kind, &script, 0, NetCfg::default(), r.verbose);
    r.transitions(p.steps);
    r.distinct(hash64(&(kind, short(&script))));
    for l in p.trace.iter().rev().take(if r.verbose { 600 } else { 0 }).rev() {
        r.log.push(l.clone());
    }
    if let Some(x) = p.panics.first() {
        r.violate("panic", format!("{:?} server, {:?}: {} panicked: {}", kind, short(&script), x.name, x.message));
        return;
    }
    if let Some(t) = &p.trouble {
        r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(&script), t));
        return;
    }
    if p.process_end.is_some() {
        r.violate("stopped", format!("{:?} server, {:?}: the process ended", kind, short(&script)));
        return;
    }
    // only the well-behaved ones are judged
    let n = script.len();
    let mut m = Model::default();
    for (i, s) in script.iter().enumerate() {
        let Some(Some(a)) = p.answers.get(i) else { continue };
        if i == 0 || i >= n - 9 {
            let Step::Ask { user, query } = s else { continue };
            let want = expected(&mut m, user.as_deref(), query).expect("plain");
            if let Err(e) = a.agrees(&want) {
                r.violate("next-client", format!("{:?} server, {:?}: later request {} is not served: {}", kind, short(&script), i, e));
                return;
            }
        } else {
            r.outcome(match a.http() {
                Ok(h) if h.status == 200 => "nuisance answered with success",
                Ok(_) => "nuisance answered with an error",
                Err(_) => "nuisance got no reply",
            });
            if !a.closed {
                r.violate("open", format!("{:?} server, {:?}: the connection of step {} is still open after {} s", kind, short(&script), i, PATIENCE / SECOND));
                return;
            }
        }
    }
}
pub fn c18(q: bool) -> Vec<Lane> {
    let mut v = vec![
        Lane::new("repeated", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let n = *pick_from(if q { &[1usize, 2, 3, 4, 33][..] } else { &[1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129, 260][..] });
            let all = nuisances();
            let i = pick(all.len());
            // the long ones need not come that often
            let n = if n > 4 && short(&all[i..i + 1])[0].contains("00 characters") { 9 } else { n };
            serve_after(r, kind, vec![all[i].clone(); n]);
        }),
        Lane::new("one-after-the-other", Budget::free(), move |r: &mut Run| {
            // all kinds of nuisances in one session
            let kind = *pick_from(&SERVERS);
            let all = nuisances();
            let from = pick(all.len());
            let stride = *pick_from(&[1usize, 7, 31]);
            let n = if q { 40 } else { 200 };
            serve_after(r, kind, (0..n).map(|i| all[(from + i * stride) % all.len()].clone()).collect());
        }),
        Lane::new("pairs", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let all: Vec<Step> = nuisances().into_iter().filter(|s| short(std::slice::from_ref(s))[0].len() < 150 && !matches!(s, Step::Raw { parts, .. } if parts[0].0.len() > 10_000)).collect();
            let i = pick(all.len());
            let j = pick(all.len());
            serve_after(r, kind, vec![all[i].clone(), all[j].clone()]);
        }),
        Lane::new("cut-anywhere", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let full = request_bytes(Some("write"), "set \u{e9} \"\u{1F600}\"; get \u{e9}");
            let n = pick(full.len() + 1);
            let then = *pick_from(&[Then::Finish, Then::Close, Then::Reset]);
            serve_after(r, kind, vec![Step::raw(&full[..n], then); 3]);
        }),
        Lane::new("writes-fail", Budget::of(if q { 1 } else { 2 }, &[(vstd::rt::Kind::IoError, 2)]), |r: &mut Run| {
            // a read or write of the first requests fails
            let kind = *pick_from(&SERVERS);
            let script = [ask("write", "set k 1"), ask("read", "get k"), ask("read", "get nokey"), ask("bob", "get k")];
            let mut full = script.to_vec();
            full.push(Step::Gap(10 * MS));
            let p = play_with_faults(kind, &full, r.verbose);
            r.transitions(p.steps);
            r.distinct(hash64(&(kind, format!("{:?}", p.answers))));
            if let Some(x) = p.panics.first() {
                r.violate("panic", format!("{:?} server with failing transfers: {} panicked: {}", kind, x.name, x.message));
            } else if let Some(t) = &p.trouble {
                r.violate("hang", format!("{:?} server with failing transfers: {}", kind, t));
            } else if p.process_end.is_some() {
                r.violate("stopped", format!("{:?} server with failing transfers: the process ended", kind));
            } else {
                let a = p.answers.last().cloned().flatten().unwrap_or_default();
                r.outcome("served");
                if let Err(e) = a.agrees(&Rep::Bool(false)) {
                    r.violate("next-client", format!("{:?} server: after failing transfers the next client is not served: {}", kind, e));
                }
            }
        }),
    ];
    v.push(Lane::new("long-sessions", Budget::free(), |r: &mut Run| {
        let kind = *pick_from(&SERVERS);
        let from = pick(menu().len());
        let stride = *pick_from(&[1usize, 11]);
        let mut s = long_session(from, stride, 200);
        s.push(ask("read", "ex k; ex j"));
        simply(r, kind, &s);
    }));
    if !q {
        v.push(Lane::new("triples", Budget::free(), |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let all: Vec<Step> = nuisances().into_iter().take(28).collect();
            let s = (0..3).map(|_| all[pick(all.len())].clone()).collect();
            serve_after(r, kind, s);
        }));
    }
    v
}
/// The last request comes when the network works again.
fn play_with_faults(kind: Server, script: &[Step], trace: bool) -> Played {
    use std::cell::RefCell;
    use std::rc::Rc;
    use vstd::net;
    use vstd::rt::{self, End, ExecCfg};
    net::reset(NetCfg { io_error: true, ..NetCfg::default() });
    rt::set_rng(rt::RngMode::Rotate(0));
    let out = Rc::new(RefCell::new(Played::default()));
    let o = out.clone();
    let script = script.to_vec();
    let cfg = ExecCfg { preempt: false, switch: false, sleep_quantum: 100 * MS, max_steps: 5_000_000, trace, ..ExecCfg::default() };
    let res = rt::run_exec(cfg, move || {
        let p = Process::start(kind);
        let mut held = vec![];
        for s in &script {
            let a = act(s, &mut held);
            o.borrow_mut().answers.push(a);
        }
        net::set_cfg(NetCfg::default());
        let a = act(&ask("read", "ex nothing"), &mut held);
        o.borrow_mut().answers.push(a);
        let e = p.ended();
        o.borrow_mut().process_end = e;
    });
    net::reset(NetCfg::default());
    let mut p = std::mem::take(&mut *out.borrow_mut());
    p.end = Some(res.end);
    p.steps = res.steps;
    p.panics = res.panics;
    if res.end != End::Done {
        p.trouble = Some(format!("{:?}: {} {}", res.end, res.driver_panic.unwrap_or_default(), res.blocked.join("; ")));
    }
    p
}

// ------------------------------------------------------------------------------------------------
// C22: the same answers everywhere
// ------------------------------------------------------------------------------------------------

fn canonical(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::*;
    match v {
        Array(a) => Array(a.into_iter().map(canonical).collect()),
        Object(o) => Object(
            o.into_iter()
                .map(|(k, v)| {
                    let mut v = canonical(v);
                    if k == "map" {
                        if let Array(a) = &mut v {
                            a.sort_by_key(|x| x.to_string());
                        }
                    }
                    (k, v)
                })
                .collect(),
        ),
        v => v,
    }
}
/// Status and payload, independent of the order of map entries.
pub fn face(a: &Option<Answer>) -> String {
    match a {
        None => "-".into(),
        Some(a) => match a.http() {
            Err(e) => e,
            Ok(h) => match serde_json::from_slice::<serde_json::Value>(&h.body) {
                Ok(v) if h.status == 200 => format!("200 {}", canonical(v)),
                _ => format!("{} {}", h.status, String::from_utf8_lossy(&h.body)),
            },
        },
    }
}
/// Does the client of this step go away without waiting for its reply?
pub fn leaves(s: &Step) -> bool {
    matches!(s, Step::Raw { then: Then::Close | Then::Reset | Then::ResetUnread | Then::Hold, .. })
}
fn same(r: &mut Run, script: &[Step]) {
    let mut faces: Vec<Vec<String>> = vec![];
    for kind in SERVERS {
        let p = play(kind, script, 0, NetCfg::default(), false);
        r.transitions(p.steps);
        faces.push(p.answers.iter().map(face).collect());
        if let Some(t) = p.trouble.or(p.panics.first().map(|x| x.message.clone())) {
            r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(script), t));
            return;
        }
    }
    r.distinct(hash64(&short(script)));
    for f in faces[0].iter() {
        r.outcome(&f.chars().take(3).collect::<String>());
    }
    if r.wants_sample() {
        r.sample(format!("{:?} -> {:?}", short(script), faces[0]));
    }
    for (i, s) in script.iter().enumerate() {
        if leaves(s) {
            continue;
        }
        let (a, b, c) = (&faces[0][i], &faces[1][i], &faces[2][i]);
        if a != b || b != c {
            r.violate(
                "different",
                format!("{:?}: step {} is answered {} by the simple, {} by the multithreaded, {} by the asynchronous server", short(script), i, lang::shown(a), lang::shown(b), lang::shown(c)),
            );
            return;
        }
    }
}
/// Requests of all kinds.
pub fn menu() -> Vec<Step> {
    let mut v = vec![];
    for q in [
        "get k", "set k 1", "set k \"Text \u{e9}\"", "set k 1.5 1", "set k true; get k", "try_set k 2", "upd k 3", "del k", "ex k", "type k", "try_get k",
        "set k int [1,2,3]", "set k str []; get k", "vpush k 4", "vpop k", "vget k 0", "vget k 5", "vset k 0 9", "vlen k", "get k; get k",
        "set k str int {\"a\":1,\"b\":2}", "set k int bool {7:true}; get k", "mget k \"a\"", "mget k 5", "mset k \"c\" 3", "mdel k \"a\"", "mlen k", "mex k \"a\"",
        "", ";", "get", "bogus", "set k", "get k; bogus", "set k 5; get nokey; set k 6", "set k 1 -1", "set k 1 18446744073709551615",
    ] {
        v.push(ask("write", q));
    }
    v.push(ask("read", "set k 1"));
    v.push(ask("read", "get k"));
    v.push(ask("read", "shutdown"));
    v.push(ask("write", "get k; shutdown"));
    v.push(ask("admin", "get nokey; shutdown"));
    v.push(ask("bob", "get k"));
    v.push(ask("bob", "bogus"));
    v.push(ask("", "get k"));
    v.push(ask("unauthenticated", "get k"));
    v.push(ask("unauthenticated", "bogus"));
    v.push(nobody("get k"));
    v.push(nobody("bogus"));
    v.extend(broken());
    v
}
/// Requests that are not valid HTTP requests, with and without credentials.
pub fn broken() -> Vec<Step> {
    let mut v = vec![];
    for user in ["Username: admin\r\n", "Username: bob\r\n", "Username: unauthenticated\r\n", ""] {
        for (head, tail) in [
            ("GET / HTTP/1.1\r\n", "Content-Length: 17\r\n\r\n{\"query\":\"get k\"}"),
            ("POST / HTTP/1.1\r\n", "\r\n{\"query\":\"get k\"}"),
            ("POST / HTTP/1.1\r\n", "Content-Length: x\r\n\r\n{\"query\":\"get k\"}"),
            ("POST / HTTP/1.1\r\n", "Content-Length: 2\r\n\r\n{}"),
            ("POST / HTTP/1.1\r\n", "Content-Length: 4\r\n\r\nnull"),
            ("POST / HTTP/1.1\r\n", "Content-Length: 12\r\n\r\n{\"query\":12}"),
            ("POST / HTTP/1.1\r\n", "Content-Length: 99\r\n\r\n{\"query\":\"get k\"}"),
            ("POST / HTTP/1.1\r\n", "Content-Length: 17\r\n"),
            ("POST / HTTP/3\r\n", "Content-Length: 17\r\n\r\n{\"query\":\"get k\"}"),
        ] {
            v.push(Step::raw(format!("{}{}{}", head, user, tail).as_bytes(), Then::Finish));
        }
    }
    v.push(Step::raw(b"nonsense", Then::Finish));
    v.push(Step::raw(b"nonsense\r\n\r\n", Then::Read));
    v.push(Step::raw(b"", Then::Finish));
    v
}
/// Groups of requests that are easily taken for one another.
fn look_alikes() -> Vec<Vec<&'static str>> {
    vec![
        vec!["set k \"Text\"; get k", "set k \"text\"; get k", "set k \"TEXT\"; get k", "SET K \"Text\"; GET K", "Set k \"Text\"; gEt k"],
        vec!["set k \"a b\"; get k", "set k \"a  b\"; get k", "set k \" a b\"; get k", "set k \"ab\"; get k", "set  k  \"a b\";get k"],
        vec!["set k \"a;b\"; get k", "set k \"a; b\"; get k", "set k \"a\"; get k"],
        vec!["set k 1; get k", "set k 1.0; get k", "set k \"1\"; get k", "set k 01; get k", "set k 1 1000; get k", "set k 11; get k", "set k -1; get k"],
        vec!["set k true; get k", "set k \"true\"; get k", "set k false; get k", "set k TRUE; get k"],
        vec!["set k int [1,2]; get k", "set k float [1,2]; get k", "set k int [12]; get k", "set k int [2,1]; get k", "set k int []; get k", "set k str []; get k", "set k str [\"1\",\"2\"]; get k"],
        vec!["set k str int {\"a\":1}; get k", "set k str int {\"A\":1}; get k", "set k int int {1:1}; get k", "set k str str {\"a\":\"1\"}; get k", "set k str int {}; get k", "set k str int {\"a\":1,\"a\":2}; get k"],
        vec!["set k \"\\\\\"; get k", "set k \"\\\"\"; get k", "set k \"\\\\\\\"\"; get k", "set k \"\"; get k"],
        vec!["set k 1; set K 2; get k", "set k 1; set K 2; get K", "set k 1; set \"k\" 2; get k", "set k 1; set \" k\" 2; get k", "set k 1; set \"\u{e9}\" 2; get k", "set k 1; set \"\u{c9}\" 2; get \"\u{e9}\""],
        vec!["get k", "get k;", ";get k", "get k; get k", "get K", "get kk", "getk", "get k k", "get \"k\""],
        vec!["try_get k", "get k", "try_get K", "ex k", "ex K"],
        vec!["set k \"\u{e9}\"; get k", "set k \"e\u{301}\"; get k", "set k \"e\"; get k", "set k \"\u{c9}\"; get k", "set k \"\\u00e9\"; get k"],
    ]
}
/// What differs little is not taken for the same: one after the other, on one server, and again.
fn alike(judged: bool) -> impl Fn(&mut Run) + Send + Sync + 'static {
    move |r: &mut Run| {
        let kind = if judged { Some(*pick_from(&SERVERS)) } else { None };
        let groups = look_alikes();
        let g = pick_from(&groups).clone();
        let (a, b) = (*pick_from(&g), *pick_from(&g));
        let (ua, ub) = *pick_from(&[("write", "write"), ("write", "admin"), ("admin", "read"), ("read", "write")]);
        let between = *pick_from(&["", "del k; set K 3", "set k 5"]);
        let n = 1 + pick(3);
        let mut s = vec![];
        for _ in 0..n {
            s.push(ask(ua, a));
        }
        if !between.is_empty() {
            s.push(ask("write", between));
        }
        s.push(ask(ub, b));
        s.push(ask(ua, a));
        s.push(ask("read", "try_get k"));
        s.push(ask("read", "try_get K"));
        match kind {
            Some(kind) => simply(r, kind, &s),
            None => same(r, &s),
        }
    }
}
/// Many requests to one server: walk through the menu in steps of `stride` from `from`.
pub fn long_session(from: usize, stride: usize, n: usize) -> Vec<Step> {
    // (nothing that expires within the session: the servers differ in how long they take)
    let all: Vec<Step> = menu().into_iter().filter(|s| !matches!(s, Step::Ask { query, .. } if query == "set k 1.5 1")).collect();
    let mut v = vec![];
    for i in 0..n {
        v.push(all[(from + i * stride) % all.len()].clone());
        if i % 5 == 4 {
            v.push(ask("read", "try_get k"));
        }
    }
    v
}
/// Long requests and long replies.
fn bulky() -> Vec<String> {
    let mut v = vec![];
    for n in [4_000usize, 8_190, 16_384, 65_530, 65_536, 70_000, 140_000, 300_000] {
        v.push(format!("set k \"{}\"; get k", "x".repeat(n)));
        v.push(format!("set k \"{}\"", "\u{6f22}".repeat(n / 3)));
        v.push(format!("set k int [{}]; vlen k", (0..n / 6).map(|i| i.to_string()).collect::<Vec<_>>().join(",")));
        v.push(format!("set k int str {{{}}}; mlen k", (0..n / 20).map(|i| format!("{}:\"v{}\"", i, i)).collect::<Vec<_>>().join(",")));
        v.push(format!("set k {}; {}get k", n, "set k 1; get k; ex k; ".repeat(n / 22)));
        v.push(format!("{}set k 7", " \t\n;".repeat(n / 4)));
        let long = "y".repeat(n);
        v.push(format!("set {} 1; set k 2; get {}", long, long));
    }
    for n in [1_048_570usize, 1_100_000, 2_200_000, 5_000_000] {
        v.push(format!("set k \"{}\"; get k", "z".repeat(n)));
    }
    v
}
pub fn c22(q: bool) -> Vec<Lane> {
    let raw = |b: Vec<u8>, then: Then| [ask("write", "set a 1"), Step::raw(&b, then), ask("read", "try_get a"), ask("read", "try_get k")];
    let mut v = vec![
        ordinary(q),
        Lane::new("request-parts", Budget::free(), move |r: &mut Run| {
            let (b, _) = http::piece_request(!q);
            same(r, &raw(b, *pick_from(&[Then::Finish, Then::Close])));
        }),
        Lane::new("odd-requests", Budget::free(), move |r: &mut Run| {
            let all: Vec<Vec<u8>> = http::odd().into_iter().chain(http::small().into_iter().map(|x| [x.bytes, x.extra].concat())).collect();
            same(r, &raw(pick_from(&all).clone(), *pick_from(&[Then::Finish, Then::Close])));
        }),
        Lane::new("changed-requests", Budget::free(), move |r: &mut Run| {
            let few: Vec<_> = http::small().into_iter().take(if q { 1 } else { 15 }).collect();
            let marks = b"\0\n\r :\"{0A/\x7f\xc3\xff";
            if let Some(b) = http::mutate(&few, marks, 1) {
                same(r, &raw(b, Then::Finish));
            }
        }),
        Lane::new("look-alikes", Budget::free(), alike(false)),
        Lane::new("long-sessions", Budget::free(), |r: &mut Run| {
            let n = menu().len();
            let from = pick(n);
            let stride = *pick_from(&[1usize, 7]);
            same(r, &long_session(from, stride, 150));
        }),
        Lane::new("bulky", Budget::free(), |r: &mut Run| {
            let all = bulky();
            let q = pick_from(&all).clone();
            same(r, &[ask("write", "set k 1"), ask("write", &q), ask("read", "get k"), ask("read", "type k")]);
        }),
        Lane::new("pairs", Budget::free(), |r: &mut Run| {
            let all = menu();
            let n = all.len();
            let (i, j) = (pick(n), pick(n));
            same(r, &[all[i].clone(), all[j].clone(), ask("read", "try_get k")]);
        }),
        Lane::new("statements", Budget::free(), |r: &mut Run| {
            let all = lang::statements();
            let o = pick_from(&all).clone();
            let user = *pick_from(&["admin", "write", "read"]);
            let before = *pick_from(&["", "set key_1 5", "set key_1 int [1,2]", "set key_1 str str {\"a\":\"b\"}"]);
            let stop = matches!(o, Op::Shutdown);
            let mut s = vec![ask("write", before), ask(user, &lang::text_of(&[o]))];
            if !stop {
                s.push(ask("read", "try_get key_1"));
            }
            same(r, &s);
        }),
        Lane::new("triples", Budget::free(), |r: &mut Run| {
            let pick3 = [
                ask("write", "set k int [1,2]"),
                ask("write", "vpush k 3; vget k 2"),
                ask("write", "vpop k"),
                ask("write", "set k int str {1:\"a\"}; get k"),
                ask("write", "set k 1; get j; del k"),
                ask("read", "get k"),
                ask("read", "get k; set k 5"),
                ask("write", "del k; try_set k 9"),
                ask("write", "bogus; set k 7"),
                nobody("set k 8"),
            ];
            let mut s: Vec<Step> = (0..3).map(|_| pick_from(&pick3).clone()).collect();
            s.push(ask("read", "try_get k"));
            same(r, &s);
        }),
        Lane::new("lifetimes", Budget::free(), |r: &mut Run| {
            let a = *pick_from(&["set k 1 2", "set k 1 2; set k 2", "set k 1; upd k 2 2", "set k 1 2; del k; try_set k 3", "set j 1 1; set k 1 5; set i 1 9"]);
            let gap = *pick_from(&[1100 * MS, 2500 * MS, 6 * SECOND, 12 * SECOND]);
            let b = *pick_from(&["try_get k", "ex k", "try_set k 7", "upd k 8", "del k", "get k", "type k"]);
            same(r, &[ask("write", a), Step::Gap(gap), ask("write", b), ask("read", "try_get k"), ask("read", "ex j"), ask("read", "ex i")]);
        }),
    ];
    if !q {
        v.push(Lane::new("triples-all", Budget::free(), |r: &mut Run| {
            let all: Vec<Step> = menu().into_iter().take(50).collect();
            let n = all.len();
            let (i, j, k) = (pick(n), pick(n), pick(n));
            same(r, &[all[i].clone(), all[j].clone(), all[k].clone(), ask("read", "try_get k")]);
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------------
// Server-level parts of other properties
// ------------------------------------------------------------------------------------------------

/// C11: nothing of a malformed query is executed.
pub fn c11_servers() -> Lane {
    Lane::new("servers", Budget::free(), |r: &mut Run| {
        let kind = *pick_from(&SERVERS);
        let good = *pick_from(&["set k 1", "del old", "upd old 5", "vpush v 2", "shutdown", "set k 1; shutdown; set k 2"]);
        let bad = *pick_from(&["bogus", "get", "set k", "set k \"x", "set k int [1,\"a\"]", "set k 1.2.3", "1", "set k \"\\q\"", "get k ]", "set k str int {1:1}", "]"]);
        let q = match pick(3) {
            0 => format!("{}; {}", good, bad),
            1 => format!("{}; {}", bad, good),
            _ => format!("{} {} {}", good, bad, good),
        };
        simply(r, kind, &[
            ask("write", "set old 1; set v int [1]"),
            ask("admin", &q),
            ask("read", "ex k"),
            ask("read", "get old"),
            ask("read", "vlen v"),
        ]);
    })
}
/// C10: the servers take each query for what it says, whatever came before.
pub fn c10_servers() -> Lane {
    Lane::new("servers-look-alikes", Budget::free(), alike(true))
}
/// C12: a request that trickles in.
pub fn c12_servers(q: bool) -> Lane {
    Lane::new("servers", Budget::free(), move |r: &mut Run| {
        let kind = *pick_from(&SERVERS);
        let query = "set k \"\u{e9}\"; get k";
        let full = request_bytes(Some("write"), query);
        let gap = *pick_from(&[0, MS, 300 * MS, 1500 * MS, 4 * SECOND, 9 * SECOND]);
        let a = 1 + pick(full.len() - 1);
        let b = if q { full.len() } else { a + pick(full.len() - a) + 1 };
        let mut parts = vec![(full[..a].to_vec(), 0), (full[a..b].to_vec(), gap)];
        if b < full.len() {
            parts.push((full[b..].to_vec(), gap));
        }
        let script = [Step::Raw { parts, then: Then::Read }, ask("read", "get k")];
        let judged = [ask("write", query), ask("read", "get k")];
        let p = play(kind, &script, 0, NetCfg::default(), r.verbose);
        r.transitions(p.steps);
        r.distinct(hash64(&(kind, gap, a, b)));
        if let Some(t) = p.trouble.clone().or(p.panics.first().map(|x| x.message.clone())) {
            r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(&script), t));
        }
        let mut m = Model::default();
        follow(r, kind, &judged, &p, &mut m);
    })
}
/// Ordinary headers, targets and versions change nothing about the answer.
pub fn ordinary(q: bool) -> Lane {
    const LINES: &[&str] = &["POST / HTTP/1.1", "POST / HTTP/1.0", "POST /query HTTP/1.1", "POST /a?b=c&query=get%20x HTTP/1.1", "POST http://localhost:7878/ HTTP/1.1", "POST * HTTP/1.1"];
    const HEADERS: &[&str] = &[
        "", "Expect: 100-continue", "Connection: keep-alive", "Connection: close", "Connection: Upgrade, HTTP2-Settings", "Upgrade: h2c", "Upgrade: websocket", "Keep-Alive: timeout=5, max=2",
        "Accept: text/html", "Accept: application/json;q=0.1", "Accept: */*", "Accept-Encoding: gzip, br", "Accept-Charset: iso-8859-1", "Accept-Language: de", "Accept-Ranges: bytes",
        "Range: bytes=0-3", "If-Range: x", "If-None-Match: *", "If-Match: x", "If-Modified-Since: Sat, 29 Oct 1994 19:43:31 GMT", "If-Unmodified-Since: Sat, 29 Oct 1994 19:43:31 GMT",
        "Content-Type: text/plain", "Content-Type: application/x-www-form-urlencoded", "Content-Type: application/json; charset=utf-16", "Content-Type: multipart/form-data; boundary=x",
        "Content-Encoding: identity", "Content-Language: en", "Content-MD5: Q2hlY2sgSW50ZWdyaXR5IQ==", "Content-Location: /x", "Content-Range: bytes 0-1/2", "TE: trailers", "Trailer: Expires",
        "Origin: http://localhost", "Referer: http://localhost/", "Cookie: a=b", "X-HTTP-Method-Override: GET", "X-Forwarded-For: 10.0.0.1", "X-Forwarded-Proto: https", "Forwarded: for=1.2.3.4",
        "User-Agent: curl/8.0", "User-Agent:", "Via: 1.1 proxy", "X-Request-Id: 7", "X-Query: get x", "Query: get x", "Prefer: return=minimal", "Prefer: respond-async", "Max-Forwards: 0",
        "Cache-Control: no-cache, no-store", "Pragma: no-cache", "Date: Sat, 29 Oct 1994 19:43:31 GMT", "From: a@b", "DNT: 1", "Sec-Fetch-Mode: cors", "Access-Control-Request-Method: POST",
        "Idempotency-Key: 1", "Timeout: 0", "X-Timeout: 0", "Deadline: 1", "Priority: u=0", "X-Debug: 1", "X-Dry-Run: true", "Want-Digest: md5", "Length: 3", "X-Content-Length: 3", "Host: elsewhere",
    ];
    Lane::new("ordinary-headers", Budget::free(), move |r: &mut Run| {
        let kind = *pick_from(&SERVERS);
        let line = *pick_from(LINES);
        let a = *pick_from(HEADERS);
        let b = if q { "" } else { pick_from(HEADERS) };
        let first = flag();
        let query = "set k [\"\u{e9}\"]; get k".replace("[", "str [");
        let full = String::from_utf8(request_bytes(Some("write"), &query)).unwrap();
        let (head, body) = full.split_once("\r\n\r\n").unwrap();
        let mut hs: Vec<&str> = head.split("\r\n").skip(1).collect();
        for x in [a, b] {
            if !x.is_empty() {
                hs.insert(if first { 0 } else { hs.len() }, x);
            }
        }
        let bytes = format!("{}\r\n{}\r\n\r\n{}", line, hs.join("\r\n"), body).into_bytes();
        let at = bytes.len() - body.len();
        let parts = match pick(3) {
            0 => vec![(bytes, 0)],
            1 => vec![(bytes[..at].to_vec(), 0), (bytes[at..].to_vec(), 0)],
            _ => vec![(bytes[..at].to_vec(), 0), (bytes[at..].to_vec(), 300 * MS)],
        };
        let script = [Step::Raw { parts, then: Then::Read }, ask("read", "get k")];
        let judged = [ask("write", &query), ask("read", "get k")];
        let p = play(kind, &script, 0, NetCfg::default(), r.verbose);
        r.transitions(p.steps);
        r.distinct(hash64(&(kind, line, a, b, first, short(&script))));
        if let Some(t) = p.trouble.clone().or(p.panics.first().map(|x| x.message.clone())) {
            r.violate("hang", format!("{:?} server, {:?}: {}", kind, short(&script), t));
        }
        for x in p.answers.iter().flatten() {
            if let Err(e) = x.http() {
                r.violate("frame", format!("{:?} server, {:?}: {}", kind, short(&script), e));
            }
        }
        let mut m = Model::default();
        follow(r, kind, &judged, &p, &mut m);
    })
}
/// C13: a broken request has no effect and gets at most one error reply, promptly.
pub fn c13_servers() -> Vec<Lane> {
    let judge = |r: &mut Run, kind: Server, bad: Step| {
        let script = [ask("write", "set k 1"), bad, ask("read", "get k"), ask("read", "ex other")];
        let (p, _, _) = run(r, kind, &script, 0, NetCfg::default());
        let Some(Some(a)) = p.answers.get(1) else { return };
        if a.closed && a.bytes.is_empty() {
            r.outcome("no reply");
            return;
        }
        // a client that has left sees nothing, but the server may notice half-way through its reply
        let left = leaves(&script[1]);
        let status = match a.http() {
            Err(_) if left => Ok(a.bytes.strip_prefix(b"HTTP/1.1 ").map_or(500, |b| String::from_utf8_lossy(&b[..b.len().min(3)]).parse().unwrap_or(500))),
            h => h.map(|h| h.status),
        };
        match status {
            Ok(s) if s == 400 || s == 500 => r.outcome(&format!("status {}", s)),
            _ => r.violate("reply", format!("{:?} server, {:?}: the broken request got: {}", kind, short(&script), a.shown())),
        }
        // promptly
        if a.t1 - a.t0 > 5 * SECOND {
            r.violate("slow", format!("{:?} server, {:?}: the broken request took {} ms", kind, short(&script), (a.t1 - a.t0) / MS));
        }
    };
    vec![
        Lane::new("servers-truncated", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let full = request_bytes(Some("write"), "set k 2; set other 1");
            let n = pick(full.len());
            let then = *pick_from(&[Then::Finish, Then::Close, Then::Reset]);
            judge(r, kind, Step::raw(&full[..n], then));
        }),
        Lane::new("servers-broken", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let all = broken_sets();
            let s = pick_from(&all).clone();
            judge(r, kind, s);
        }),
    ]
}
fn broken_sets() -> Vec<Step> {
    let mut v = vec![];
    let ok = "{\"query\":\"set k 2; set other 1\"}";
    for user in ["Username: admin\r\n", "Username: bob\r\n", ""] {
        for m in ["GET", "PUT", "DELETE", "post"] {
            v.push(format!("{} / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", m, user, ok.len(), ok).into_bytes());
        }
        for l in ["", "x", "-1", "0", "5", "99", "18446744073709551615", "99999999999999999999"] {
            v.push(format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", user, l, ok).into_bytes());
        }
        v.push(format!("POST / HTTP/1.1\r\n{}\r\n{}", user, ok).into_bytes());
        for b in ["[]", "null", "\"set k 2\"", "{}", "{\"query\":2}", "{\"query\":[\"set k 2\"]}", "{\"Query\":\"set k 2\"}", "{\"query\":\"set k 2\"", "{\"query\":\"set k 2\"}}", "set k 2"] {
            v.push(format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", user, b.len(), b).into_bytes());
        }
    }
    v.push(b"set k 2".to_vec());
    v.push(b"\r\n\r\n".to_vec());
    v.push(b"POST\r\n\r\n".to_vec());
    v.into_iter().map(|b| Step::raw(&b, Then::Finish)).collect()
}
/// C14: replies of the servers, whatever the sizes of the writes.
pub fn c14_servers() -> Lane {
    Lane::new("servers", Budget::free(), |r: &mut Run| {
        let kind = *pick_from(&SERVERS);
        let size = *pick_from(&[0usize, 1, 7, 64, 1000]);
        let all = menu();
        let s = pick_from(&all).clone();
        let script = [ask("write", "set k str [\"\u{e9}\", \"b\"]"), s, ask("read", "try_get k")];
        let (p, _, _) = run(r, kind, &script, 0, NetCfg { max_write: size, ..NetCfg::default() });
        for a in p.answers.iter().flatten() {
            if !(a.closed && a.bytes.is_empty()) {
                if let Err(e) = a.http() {
                    r.violate("frame", format!("{:?} server, {:?}, writes of {}: {}", kind, short(&script), size, e));
                }
            }
        }
    })
}
/// Long requests and replies, with transfers of all sizes.
pub fn bulky_servers() -> Lane {
    Lane::new("servers-bulky", Budget::free(), |r: &mut Run| {
        let kind = *pick_from(&SERVERS);
        let all = bulky();
        let q = pick_from(&all).clone();
        let max_write = *pick_from(&[0usize, 1460, 4096]);
        let script = [ask("write", "set k 1"), ask("write", &q), ask("read", "get k"), ask("read", "get k; type k")];
        run(r, kind, &script, 0, NetCfg { max_write, ..NetCfg::default() });
    })
}
/// C15: what was stored comes back through the servers.
pub fn c15_servers() -> Lane {
    Lane::new("servers", Budget::free(), |r: &mut Run| {
        let kind = *pick_from(&SERVERS);
        let all: Vec<Op> = lang::statements().into_iter().filter(|o| matches!(o, Op::Set(..))).collect();
        let o = pick_from(&all).clone();
        let Op::Set(k, ..) = &o else { return };
        simply(r, kind, &[ask("write", &lang::text_of(&[o.clone()])), ask("read", &lang::text_of(&[Op::Get(k.clone())])), ask("read", &lang::text_of(&[Op::Type(k.clone())]))]);
    })
}
