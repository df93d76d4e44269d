//! Every refusal reports the status and the kind of error of its cause (C24).
use crate::engine::*;
use crate::lang::{self, Meaning};
use crate::model::*;
use crate::seq::Pair;
use crate::servers;
use crate::world::*;
use server::error::{get_error_code, ServerError};

/// The kinds of error, with their names and statuses.
pub fn kind_of(e: &ServerError) -> (&'static str, u16, &str) {
    match e {
        ServerError::KeyError(m) => ("KeyError", 422, m),
        ServerError::NetworkError(m) => ("NetworkError", 500, m),
        ServerError::WriteError(m) => ("WriteError", 500, m),
        ServerError::TokenizationError(m) => ("TokenizationError", 422, m),
        ServerError::ParseError(m) => ("ParseError", 422, m),
        ServerError::IndexError(m) => ("IndexError", 422, m),
        ServerError::TypeError(m) => ("TypeError", 422, m),
        ServerError::InternalError(m) => ("InternalError", 500, m),
        ServerError::AuthorizationError(m) => ("AuthorizationError", 401, m),
        ServerError::AuthenticationError(m) => ("AuthenticationError", 403, m),
        ServerError::RequestError(m) => ("RequestError", 400, m),
    }
}
const KEY: &[&str] = &["KeyError"];
const TYPE: &[&str] = &["TypeError"];
const INDEX: &[&str] = &["IndexError"];
const TYPE_OR_INDEX: &[&str] = &["TypeError", "IndexError"];
/// The documentation of maps says KeyError, the code says IndexError.
const NO_ELEMENT: &[&str] = &["IndexError", "KeyError"];
const LEVEL: &[&str] = &["AuthorizationError"];
/// A literal element of the wrong type is a TypeError.
const TEXT: &[&str] = &["TokenizationError", "ParseError", "TypeError"];

/// Why an operation is refused in this state: the acceptable kinds; none if it succeeds.
pub fn causes(m: &Model, op: &Op) -> &'static [&'static str] {
    let key = match op {
        Op::Get(k) | Op::Type(k) | Op::Life(k) | Op::Update(k, ..) | Op::SetLife(k, _) => return if m.live(k).is_some() { &[] } else { KEY },
        Op::VGet(k, _) | Op::VSet(k, ..) | Op::VPush(k, _) | Op::VPop(k) | Op::VLen(k) | Op::MGet(k, _) | Op::MSet(k, ..) | Op::MDel(k, _) | Op::MLen(k) | Op::MEx(k, _) => k,
        _ => return &[],
    };
    let Some(e) = m.live(key) else { return KEY };
    match (op, &e.val) {
        (Op::VGet(_, i), Val::Vec(_, xs)) => if *i < xs.len() { &[] } else { INDEX },
        (Op::VSet(_, i, v), Val::Vec(t, xs)) => match (t.admits(v), *i < xs.len()) {
            (true, true) => &[],
            (false, true) => TYPE,
            (true, false) => INDEX,
            (false, false) => TYPE_OR_INDEX,
        },
        (Op::VPush(_, v), Val::Vec(t, _)) => if t.admits(v) { &[] } else { TYPE },
        (Op::VPop(_) | Op::VLen(_), Val::Vec(..)) => &[],
        (Op::MGet(_, x), Val::Map(a, _, xs)) => if !a.admits(x) { TYPE } else if xs.contains_key(x) { &[] } else { NO_ELEMENT },
        (Op::MSet(_, x, v), Val::Map(a, t, _)) => if a.admits(x) && t.admits(v) { &[] } else { TYPE },
        (Op::MDel(_, x) | Op::MEx(_, x), Val::Map(a, ..)) => if a.admits(x) { &[] } else { TYPE },
        (Op::MLen(_), Val::Map(..)) => &[],
        _ => TYPE,
    }
}
/// The kinds of the reply to a request; none if it succeeds. Advances the reference.
pub fn request_causes(m: &mut Model, ops: &[Op], level: Level) -> &'static [&'static str] {
    if ops.iter().any(|o| o.need() > level.grants()) {
        return LEVEL;
    }
    for o in ops {
        let c = causes(m, o);
        m.apply(o);
        if !c.is_empty() {
            return c;
        }
        if *o == Op::Shutdown {
            break;
        }
    }
    &[]
}
fn check(r: &mut Run, what: &str, want: &[&str], got: &Result<server::analysis::InterpreterResponse, ServerError>) {
    match got {
        Ok(_) if want.is_empty() => r.outcome("done"),
        Ok(x) => r.violate("accepted", format!("{}: answered {:?}, expected one of {:?}", what, x, want)),
        Err(e) => {
            let (name, status, text) = kind_of(e);
            r.outcome(name);
            if !want.contains(&name) {
                r.violate("kind", format!("{}: refused with {:?}, expected {}", what, e, if want.is_empty() { "success".into() } else { format!("one of {:?}", want) }));
                return;
            }
            if status_of(e) != status || format!("{}", e) != format!("{}: {}", name, text) {
                r.violate("status", format!("{}: {:?} is reported as {:?} {:?}", what, e, get_error_code(e), format!("{}", e)));
            }
        }
    }
}

/// All kinds of entry.
fn entries() -> Vec<Option<Val>> {
    let mut v = vec![None, Some(Val::Null), Some(Val::Bool(true)), Some(s("x")), Some(Val::Int(0)), Some(f(1.5))];
    for t in CTS {
        for n in [0usize, 1, 3] {
            v.push(Some(Val::Vec(t, (0..n).map(|i| t.sample(i)).collect())));
            for k in KTS {
                v.push(Some(Val::Map(k, t, (0..n).map(|i| (k.sample(i), t.sample(i))).collect())));
            }
        }
    }
    v
}
fn scalars() -> Vec<Val> {
    vec![Val::Null, Val::Bool(false), s("y"), Val::Int(1), f(0.5), Val::Vec(Ct::Int, vec![]), Val::Map(Kt::Int, Ct::Int, Default::default()), Ct::Str.sample(0), Ct::Int.sample(0), Kt::Str.sample(2), Kt::Int.sample(2)]
}
/// Every operation on `k`.
fn operations(k: &str) -> Vec<Op> {
    let k = || k.to_string();
    let mut v = vec![
        Op::Get(k()), Op::TryGet(k()), Op::Exists(k()), Op::Type(k()), Op::Life(k()), Op::Delete(k()), Op::VPop(k()), Op::VLen(k()), Op::MLen(k()), Op::SetLife(k(), None), Op::SetLife(k(), Some(7)),
        Op::Update(k(), Val::Int(1), None), Op::Update(k(), s("u"), Some(9)), Op::SetNew(k(), Val::Int(2), None), Op::Set(k(), Val::Int(3), Some(5)), Op::Null, Op::Sweep,
    ];
    for i in [0usize, 1, 2, 3, 4, 1000, usize::MAX] {
        v.push(Op::VGet(k(), i));
        for x in [Val::Bool(false), s("y"), Val::Int(1), f(0.5), Val::Null] {
            v.push(Op::VSet(k(), i, x));
        }
    }
    for x in scalars() {
        v.push(Op::VPush(k(), x.clone()));
        v.push(Op::MGet(k(), x.clone()));
        v.push(Op::MDel(k(), x.clone()));
        v.push(Op::MEx(k(), x.clone()));
        for y in scalars() {
            v.push(Op::MSet(k(), x.clone(), y));
        }
    }
    v
}
/// How the entry came to be as it is.
fn prepare(r: &mut Run, p: &mut Pair, v: Option<Val>) {
    let k = "k".to_string();
    match v {
        None => match pick(5) {
            0 => {}
            1 => {
                p.op(r, &Op::Set(k.clone(), Val::Int(1), None));
                p.op(r, &Op::Delete(k));
            }
            2 => {
                p.op(r, &Op::Set(k, Val::Vec(Ct::Int, vec![]), Some(1)));
                p.tick(3_000_000_000);
            }
            3 => {
                p.op(r, &Op::Set(k, Val::Map(Kt::Int, Ct::Int, Default::default()), Some(1)));
                p.tick(3_000_000_000);
                p.sweep_now(r);
            }
            _ => p.op(r, &Op::Set("K".into(), Val::Int(1), None)),
        },
        Some(v) => match pick(3) {
            0 => p.op(r, &Op::Set(k, v, None)),
            1 => p.op(r, &Op::Set(k, v, Some(1000))),
            _ => {
                p.op(r, &Op::Set(k.clone(), s("old"), Some(1)));
                p.op(r, &Op::Update(k, v, None));
            }
        },
    }
}

pub fn c24(q: bool) -> Vec<Lane> {
    vec![
        Lane::new("every operation on every kind of entry", Budget::free(), move |r: &mut Run| {
            let all = entries();
            let v = pick_from(&all).clone();
            let mut p = Pair::new();
            prepare(r, &mut p, v);
            let ops = operations("k");
            let op = pick_from(&ops).clone();
            p.sys.text = flag();
            p.now();
            let want = causes(&p.m, &op);
            match p.sys.op(&op) {
                Err(e) => r.violate("panic", format!("{:?} panics: {}", op, e)),
                Ok(got) => check(r, &format!("{:?} on {:?}", op, p.m.map.get("k")), want, &got),
            }
            r.transitions(1);
            r.state(p.m.hash());
            r.distinct(hash64(&(format!("{:?}", op), p.m.hash())));
        }),
        Lane::new("in lists of statements", Budget::free(), move |r: &mut Run| {
            let mut p = Pair::new();
            let v = *pick_from(&[0usize, 1, 5, 7, 9]);
            prepare(r, &mut p, entries()[v].clone());
            let k = || "k".to_string();
            let some = [
                Op::Get(k()), Op::Exists(k()), Op::Set(k(), Val::Int(4), None), Op::Set(k(), Val::Vec(Ct::Int, vec![]), None), Op::Update(k(), Val::Map(Kt::Int, Ct::Str, Default::default()), None), Op::Delete(k()),
                Op::VGet(k(), 0), Op::VPush(k(), Val::Int(1)), Op::MGet(k(), Val::Int(1)), Op::MSet(k(), Val::Int(1), s("x")), Op::MEx(k(), s("x")), Op::Shutdown,
            ];
            let n = pick(if q { 4 } else { 5 });
            let ops: Vec<Op> = (0..n).map(|_| pick_from(&some).clone()).collect();
            let level = *pick_from(&LEVELS);
            p.sys.text = flag();
            p.now();
            let mut m = p.m.clone();
            let want = request_causes(&mut m, &ops, level);
            match p.sys.request(&ops, level) {
                Err(e) => r.violate("panic", format!("{:?} panics: {}", ops, e)),
                Ok(got) => check(r, &format!("{:?} at level {:?} on {:?}", ops, level, p.m.map.get("k")), want, &got),
            }
            r.transitions(n as u64);
            r.state(m.hash());
        }),
        Lane::new("unreadable queries", Budget::free(), move |r: &mut Run| {
            let n = if q { 3 } else { 4 };
            let text = if flag() {
                lang::some_tokens(n)
            } else {
                let start = *pick_from(&["", "set a ", "get ", "set a \"", "set a int [", "set a int str {", "vget a ", "set a 1 ", "get a; "]);
                format!("{}{}", start, lang::some_text(n))
            };
            let (Meaning::Bad(_), false) = lang::meaning(&text) else { return };
            match lang::real_parse(&text) {
                Err(e) => r.violate("panic", format!("{:?} panics: {}", text, e)),
                Ok(Err(e)) => check(r, &format!("{:?}", text), TEXT, &Err(e)),
                Ok(Ok(_)) => r.violate("accepted", format!("{:?} is accepted", text)),
            }
            r.transitions(1);
        }),
        Lane::new("through the servers", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let before = *pick_from(&["", "set k 1", "set k int [1]", "set k str int {\"a\":1}", "set k 1 1"]);
            let queries = [
                "get k", "type k", "upd k 2", "del k", "vget k 0", "vget k 1", "vget k 18446744073709551615", "vset k 0 2", "vset k 0 \"x\"", "vset k 7 1", "vpush k true", "vpop k", "vlen k", "mget k \"a\"", "mget k \"b\"", "mget k 1",
                "mset k \"a\" 2", "mset k \"a\" \"x\"", "mset k 1 1", "mdel k \"b\"", "mdel k 1.5", "mex k 1", "mlen k", "get k; get j", "set j 1; vlen j; get i", "bogus", "get", "set k \"x", "set k int [1,\"a\"]", "get k; bogus", "shutdown now",
                "get j; shutdown", "set k 1; get k", "",
            ];
            let query = *pick_from(&queries);
            let user = *pick_from(&[Some("admin"), Some("write"), Some("read"), Some("bob"), Some("unauthenticated"), None]);
            let mut script = vec![Step::ask("write", before)];
            if before.ends_with(" 1 1") {
                script.push(Step::Gap(1500 * MS));
            }
            script.push(Step::Ask { user: user.map(|u| u.to_string()), query: query.into() });
            let p = play(kind, &script, 0, Default::default(), false);
            r.transitions(p.steps);
            let shown = format!("{:?} server, {:?}", kind, short(&script));
            if let Some(t) = p.trouble.or(p.panics.first().map(|x| x.message.clone())) {
                r.violate("hang", format!("{}: {}", shown, t));
                return;
            }
            let mut m = Model::default();
            m.now = p.answers[0].as_ref().map_or(0, |a| a.t0) as u128;
            expected(&mut m, Some("write"), before);
            let Some(Some(a)) = p.answers.last() else { return };
            m.now = a.t0 as u128;
            let want: &[&str] = match user {
                // what is reported for a request without a user is left open
                None => &["InternalError", "AuthorizationError", "AuthenticationError", "RequestError"],
                Some("unauthenticated") => &["AuthenticationError"],
                Some("bob") => LEVEL,
                Some(u) => {
                    let level = match u {
                        "admin" => Level::Admin,
                        "write" => Level::Write,
                        _ => Level::Read,
                    };
                    match lang::meaning(query) {
                        (_, true) => return,
                        (Meaning::Bad(_), _) => TEXT,
                        (Meaning::Ops(ops), _) => request_causes(&mut m, &ops, level),
                    }
                }
            };
            reported(r, &shown, a, want);
        }),
        Lane::new("broken requests", Budget::free(), move |r: &mut Run| {
            let kind = *pick_from(&SERVERS);
            let b = if flag() {
                let all = servers::broken();
                pick_from(&all).clone()
            } else {
                // what is not an object with a query
                let body = *pick_from(&[
                    "", " ", "{", "}", "get k", "\"get k\"", "null", "17", "true", "[]", "[\"get k\"]", "{}", "{\"query\"}", "{\"query\":}", "{\"query\":null}", "{\"query\":1}", "{\"query\":[\"get k\"]}", "{\"query\":{\"query\":\"get k\"}}",
                    "{\"Query\":\"get k\"}", "{\"queries\":\"get k\"}", "{\"query\":\"get k\"", "{\"query\":\"get k}", "{\"query\":\"get k\"}}", "{\"query\":\"get k\"} x", "{'query':'get k'}", "{\"query\":\"\\x\"}", "query=get+k", "\u{feff}{\"query\":\"get k\"}",
                    "{\"query\":true,\"q\":\"get k\"}", "{\"query\":1e999}", "{\"query\":\"a\nb\"}",
                ]);
                let user = *pick_from(&["Username: admin\r\n", "Username: bob\r\n", "Username: unauthenticated\r\n", ""]);
                Step::raw(format!("POST / HTTP/1.1\r\n{}Content-Length: {}\r\n\r\n{}", user, body.len(), body).as_bytes(), *pick_from(&[Then::Finish, Then::Read]))
            };
            let script = vec![Step::ask("write", "set k 1"), b, Step::ask("read", "get j")];
            let p = play(kind, &script, 0, Default::default(), false);
            r.transitions(p.steps);
            let shown = format!("{:?} server, {:?}", kind, short(&script));
            if let Some(t) = p.trouble.or(p.panics.first().map(|x| x.message.clone())) {
                r.violate("hang", format!("{}: {}", shown, t));
                return;
            }
            if let (Some(Some(b)), Some(Some(g))) = (p.answers.get(1), p.answers.get(2)) {
                reported(r, &shown, b, &["RequestError", "NetworkError"]);
                reported(r, &shown, g, KEY);
            }
        }),
        Lane::new("kinds and statuses", Budget::free(), move |r: &mut Run| {
            let texts = ["", "x", "Key k not found.", "a: b", "\u{e9}\n\"", "KeyError: x"];
            let t = pick_from(&texts).to_string();
            let make: [fn(String) -> ServerError; 11] = [
                ServerError::KeyError, ServerError::NetworkError, ServerError::WriteError, ServerError::TokenizationError, ServerError::ParseError, ServerError::IndexError, ServerError::TypeError, ServerError::InternalError,
                ServerError::AuthorizationError, ServerError::AuthenticationError, ServerError::RequestError,
            ];
            let e = make[pick(11)](t);
            let name = kind_of(&e).0;
            check(r, &format!("{:?}", e), &[name], &Err(e.clone()));
            r.transitions(1);
        }),
    ]
}
/// Is the reply an error of one of these kinds (none: a success), with the status that goes with it?
fn reported(r: &mut Run, shown: &str, a: &Answer, want: &[&str]) {
    let h = match a.http() {
        Err(e) => {
            r.violate("no-reply", format!("{}: {}", shown, e));
            return;
        }
        Ok(h) => h,
    };
    let body = String::from_utf8_lossy(&h.body).to_string();
    r.outcome(&format!("{} {}", h.status, body.split(':').next().unwrap_or("").chars().take(20).collect::<String>()));
    if want.is_empty() {
        if h.status != 200 {
            r.violate("kind", format!("{}: {} {}, expected success", shown, h.status, body));
        }
        return;
    }
    let status = |n: &str| match n {
        "InternalError" | "NetworkError" | "WriteError" => 500,
        "AuthorizationError" => 401,
        "AuthenticationError" => 403,
        "RequestError" => 400,
        _ => 422,
    };
    if !want.iter().any(|n| h.status == status(n) && body.starts_with(&format!("{}: ", n)) && body.trim_end().len() > n.len() + 2) {
        r.violate("kind", format!("{}: {} {}, expected one of {:?}", shown, h.status, body, want));
    }
}
