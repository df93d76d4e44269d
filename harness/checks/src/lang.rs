//! Texts against the tokenizer and parser (C09-C11), judged by an independent lexer and grammar.
use crate::engine::*;
use crate::model::*;
use server::analysis::{Parser, Statement, Tokenizer};
use server::error::ServerError;
use std::collections::BTreeMap;

/// What to judge.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Crash,
    Good,
    Bad,
    Place,
}

// ------------------------------------------------------------------------------------------------
// The reference language
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    P(char),
    Word(&'static str),
    Id(String),
    Int(i64),
    Flo(u32),
    Text(String),
}
const WORDS: [&str; 33] = [
    "get", "set", "del", "ex", "upd", "lt", "try_get", "try_set", "none", "true", "false", "type", "vset", "vget", "vpop",
    "vpush", "vlen", "mex", "mget", "mset", "mdel", "mlen", "int", "float", "str", "bool", "vec", "map", "shutdown",
    "", "", "", "",
];

/// What a text means.
#[derive(Clone, Debug, PartialEq)]
pub enum Meaning {
    Ops(Vec<Op>),
    Bad(&'static str),
}
/// The meaning, and whether refusing it is also acceptable.
struct Lexed {
    toks: Vec<Tok>,
    unsure: bool,
}

fn lex(text: &str) -> Result<Lexed, &'static str> {
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = Lexed { toks: vec![], unsure: false };
    let follows = |c: Option<&char>| match c {
        None => true,
        Some(c) => c.is_whitespace() || matches!(c, ';' | ':' | ',' | ']' | '}'),
    };
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if matches!(c, ';' | '[' | ']' | ',' | ':' | '{' | '}') {
            out.toks.push(Tok::P(c));
            i += 1;
        } else if c == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match cs.get(i) {
                    None => return Err("unterminated string"),
                    Some('"') => break,
                    Some('\\') => {
                        i += 1;
                        t.push(match cs.get(i) {
                            Some('\\') => '\\',
                            Some('"') => '"',
                            Some('n') => '\n',
                            Some('r') => '\r',
                            Some('t') => '\t',
                            None => return Err("unterminated string"),
                            _ => return Err("unknown escape"),
                        });
                    }
                    Some(x) => t.push(*x),
                }
                i += 1;
            }
            i += 1;
            if !follows(cs.get(i)) {
                return Err("no separator after a string");
            }
            out.toks.push(Tok::Text(t));
        } else if c.is_numeric() || c == '-' {
            let start = i;
            while !follows(cs.get(i)) {
                i += 1;
            }
            out.toks.push(number(&cs[start..i], &mut out.unsure)?);
        } else if c.is_alphabetic() || c == '_' {
            let start = i;
            while !follows(cs.get(i)) {
                if !(cs[i].is_alphanumeric() || cs[i] == '_') {
                    return Err("bad character in a name");
                }
                i += 1;
            }
            let w: String = cs[start..i].iter().collect();
            // sigma and letters whose lower case is several characters fold in more than one way
            if w.chars().any(|c| c == '\u{3a3}' || c.to_lowercase().count() != 1) {
                out.unsure = true;
            }
            let l: String = w.chars().flat_map(|c| c.to_lowercase()).collect();
            out.toks.push(match WORDS.iter().find(|x| **x == l) {
                Some(k) => Tok::Word(k),
                None => Tok::Id(l),
            });
        } else {
            return Err("unexpected character");
        }
    }
    Ok(out)
}

fn number(cs: &[char], unsure: &mut bool) -> Result<Tok, &'static str> {
    let t: String = cs.iter().collect();
    let neg = cs[0] == '-';
    let body = &cs[neg as usize..];
    if !body.contains(&'.') {
        // integer: digits only, in range
        if body.is_empty() || !body.iter().all(|c| c.is_ascii_digit()) {
            return Err("bad integer");
        }
        let mut v: i128 = 0;
        for c in body {
            v = (v * 10 + (*c as i128 - '0' as i128)).min(1 << 100);
        }
        if neg {
            v = -v;
        }
        return i64::try_from(v).map(Tok::Int).map_err(|_| "integer out of range");
    }
    // float: digits . digits [e sign digits]
    let mut i = 0;
    let run = |i: &mut usize| {
        let s = *i;
        while *i < body.len() && body[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    let a = run(&mut i);
    if body.get(i) != Some(&'.') {
        return Err("bad float");
    }
    i += 1;
    let b = run(&mut i);
    if a + b == 0 {
        return Err("bad float");
    }
    if a == 0 || b == 0 {
        // "5." and "-.5" read as floats; refusing them would be fine too
        *unsure = true;
    }
    if i < body.len() {
        if !matches!(body[i], 'e' | 'E') {
            return Err("bad float");
        }
        *unsure = true;
        i += 1;
        if matches!(body.get(i), Some('+' | '-')) {
            i += 1;
        }
        if run(&mut i) == 0 || i != body.len() {
            return Err("bad float");
        }
    }
    match t.parse::<f32>() {
        Ok(x) if x.is_finite() => Ok(Tok::Flo(x.to_bits())),
        _ => Err("float out of range"),
    }
}

struct Rp<'a> {
    t: &'a [Tok],
    i: usize,
}
type R<T> = Result<T, &'static str>;
impl<'a> Rp<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Option<&'a Tok> {
        let t = self.peek();
        self.i += 1;
        t
    }
    fn stop(&self) -> bool {
        matches!(self.peek(), None | Some(Tok::P(';')))
    }
    fn id(&mut self) -> R<String> {
        match self.next() {
            Some(Tok::Id(x)) => Ok(x.clone()),
            _ => Err("name expected"),
        }
    }
    fn scalar(&mut self) -> R<Val> {
        match self.next() {
            Some(Tok::Int(i)) => Ok(Val::Int(*i)),
            Some(Tok::Flo(b)) => Ok(Val::Float(*b)),
            Some(Tok::Text(x)) => Ok(Val::Str(x.clone())),
            Some(Tok::Word("true")) => Ok(Val::Bool(true)),
            Some(Tok::Word("false")) => Ok(Val::Bool(false)),
            _ => Err("scalar expected"),
        }
    }
    fn key(&mut self) -> R<Val> {
        match self.scalar()? {
            v @ (Val::Int(_) | Val::Str(_)) => Ok(v),
            _ => Err("element key expected"),
        }
    }
    fn index(&mut self) -> R<usize> {
        match self.next() {
            Some(Tok::Int(i)) if *i >= 0 => Ok(*i as usize),
            _ => Err("index expected"),
        }
    }
    fn typ(t: Option<&Tok>) -> Option<Ct> {
        match t {
            Some(Tok::Word("int")) => Some(Ct::Int),
            Some(Tok::Word("float")) => Some(Ct::Float),
            Some(Tok::Word("str")) => Some(Ct::Str),
            Some(Tok::Word("bool")) => Some(Ct::Bool),
            _ => None,
        }
    }
    fn value(&mut self) -> R<Val> {
        if self.stop() {
            return Ok(Val::Null);
        }
        let Some(t) = Self::typ(self.peek()) else { return self.scalar() };
        self.i += 1;
        if self.stop() {
            return Ok(Val::Vec(t, vec![]));
        }
        if self.peek() == Some(&Tok::P('[')) {
            self.i += 1;
            let mut v = vec![];
            if self.peek() == Some(&Tok::P(']')) {
                self.i += 1;
                return Ok(Val::Vec(t, v));
            }
            loop {
                let x = self.scalar()?;
                if !t.admits(&x) {
                    return Err("element of another type");
                }
                v.push(x);
                match self.next() {
                    Some(Tok::P(']')) => return Ok(Val::Vec(t, v)),
                    Some(Tok::P(',')) => {}
                    _ => return Err("vector literal"),
                }
            }
        }
        let Some(e) = Self::typ(self.peek()) else { return Err("collection literal") };
        self.i += 1;
        let k = match t {
            Ct::Int => Kt::Int,
            Ct::Str => Kt::Str,
            _ => return Err("key type"),
        };
        let mut m = BTreeMap::new();
        if self.peek() != Some(&Tok::P('{')) {
            return Ok(Val::Map(k, e, m));
        }
        self.i += 1;
        if self.peek() == Some(&Tok::P('}')) {
            self.i += 1;
            return Ok(Val::Map(k, e, m));
        }
        loop {
            let a = self.scalar()?;
            if self.next() != Some(&Tok::P(':')) {
                return Err("map literal");
            }
            let b = self.scalar()?;
            if !k.admits(&a) || !e.admits(&b) {
                return Err("element of another type");
            }
            m.insert(a, b);
            match self.next() {
                Some(Tok::P('}')) => return Ok(Val::Map(k, e, m)),
                Some(Tok::P(',')) => {}
                _ => return Err("map literal"),
            }
        }
    }
    fn life(&mut self) -> R<Option<u64>> {
        if self.stop() {
            return Ok(None);
        }
        match self.next() {
            Some(Tok::Int(i)) if *i >= 0 => Ok(Some(*i as u64)),
            _ => Err("lifetime expected"),
        }
    }
    fn statement(&mut self) -> R<Op> {
        let Some(Tok::Word(w)) = self.next() else { return Err("command expected") };
        Ok(match *w {
            "get" => Op::Get(self.id()?),
            "try_get" => Op::TryGet(self.id()?),
            "ex" => Op::Exists(self.id()?),
            "del" => Op::Delete(self.id()?),
            "type" => Op::Type(self.id()?),
            "vlen" => Op::VLen(self.id()?),
            "vpop" => Op::VPop(self.id()?),
            "mlen" => Op::MLen(self.id()?),
            "set" => Op::Set(self.id()?, self.value()?, self.life()?),
            "try_set" => Op::SetNew(self.id()?, self.value()?, self.life()?),
            "upd" => Op::Update(self.id()?, self.value()?, self.life()?),
            "vget" => Op::VGet(self.id()?, self.index()?),
            "vset" => Op::VSet(self.id()?, self.index()?, self.scalar()?),
            "vpush" => Op::VPush(self.id()?, self.scalar()?),
            "mget" => Op::MGet(self.id()?, self.key()?),
            "mex" => Op::MEx(self.id()?, self.key()?),
            "mdel" => Op::MDel(self.id()?, self.key()?),
            "mset" => Op::MSet(self.id()?, self.key()?, self.scalar()?),
            "shutdown" => Op::Shutdown,
            _ => return Err("not a command"),
        })
    }
}

/// The meaning of a text, and whether refusing it is acceptable all the same.
pub fn meaning(text: &str) -> (Meaning, bool) {
    let l = match lex(text) {
        Ok(l) => l,
        Err(e) => return (Meaning::Bad(e), false),
    };
    let mut p = Rp { t: &l.toks, i: 0 };
    let mut ops = vec![];
    loop {
        while p.peek() == Some(&Tok::P(';')) {
            p.i += 1;
        }
        if p.peek().is_none() {
            return (Meaning::Ops(ops), l.unsure);
        }
        match p.statement() {
            Ok(o) => ops.push(o),
            Err(e) => return (Meaning::Bad(e), l.unsure),
        }
    }
}

/// The real code's reading, the way the servers call it.
pub fn real_parse(text: &str) -> Result<Result<Vec<Statement>, ServerError>, String> {
    guard(|| {
        let mut p = Parser::from(Tokenizer::new(text))?;
        p.parse()
    })
}
/// The other public entry points.
fn real_parse_other(text: &str) -> Result<Result<Vec<Statement>, ServerError>, String> {
    guard(|| {
        let t = Tokenizer::new(text).tokenize()?;
        Parser::new(t).parse()
    })
}

pub fn shown(t: &str) -> String {
    if t.chars().count() > 120 {
        format!("{:?}... ({} characters)", t.chars().take(120).collect::<String>(), t.chars().count())
    } else {
        format!("{:?}", t)
    }
}

/// Run and judge one text.
pub fn judge(r: &mut Run, mode: Mode, text: &str) {
    r.transitions(1);
    r.distinct(hash64(text));
    if mode == Mode::Place {
        return places(r, text);
    }
    let got = real_parse(text);
    r.log(|| format!("{} -> {:?}", shown(text), got));
    let got = match got {
        Err(p) => {
            r.outcome("panic");
            if mode == Mode::Crash {
                r.violate("panic", format!("analysing {} panics: {}", shown(text), p));
            }
            return;
        }
        Ok(g) => g,
    };
    if mode == Mode::Crash {
        match real_parse_other(text) {
            Err(p) => r.violate("panic", format!("tokenizing, then parsing {} panics: {}", shown(text), p)),
            Ok(o) => {
                if o.is_ok() != got.is_ok() {
                    r.violate("entry", format!("{} is read differently by Parser::from and Parser::new(tokenize())", shown(text)));
                }
            }
        }
        r.outcome(if got.is_ok() { "statements" } else { "error" });
        r.state(match &got {
            Ok(v) => hash64(&v.iter().map(std::mem::discriminant).collect::<Vec<_>>()),
            Err(e) => hash64(&e.to_string()),
        });
        if r.wants_sample() {
            r.sample(format!("{} -> {}", shown(text), if got.is_ok() { "statements" } else { "error" }));
        }
        return;
    }
    let (want, unsure) = meaning(text);
    match (&want, &got) {
        (Meaning::Ops(ops), Ok(sts)) => {
            r.outcome("well-formed");
            r.state(hash64(&ops));
            if mode == Mode::Good && !unsure && !(ops.len() == sts.len() && ops.iter().zip(sts).all(|(o, s)| o.is(s))) {
                r.violate("meaning", format!("{} is read as {:?}, it says {:?}", shown(text), sts, ops));
            }
        }
        (Meaning::Ops(_), Err(e)) => {
            r.outcome("well-formed");
            if mode == Mode::Good && !unsure {
                r.violate("refused", format!("well-formed {} is refused: {}", shown(text), e));
            }
        }
        (Meaning::Bad(why), Ok(sts)) => {
            r.outcome(why);
            if mode == Mode::Bad && !unsure {
                r.violate("accepted", format!("malformed {} ({}) is read as {:?}", shown(text), why, sts));
            }
        }
        (Meaning::Bad(why), Err(e)) => {
            r.outcome(why);
            if mode == Mode::Bad {
                r.state(hash64(&(why, status_of(e))));
                if status_of(e) != 422 {
                    r.violate("class", format!("malformed {} ({}) is refused with {:?}, not as a query error", shown(text), why, e));
                }
            }
        }
    }
    if r.wants_sample() {
        r.sample(format!("{} -> {:?}", shown(text), want));
    }
}

/// Why and at which token the reference gives up, and how many statements come before.
fn gives_up(text: &str) -> Option<(&'static str, usize, usize)> {
    let l = lex(text).ok()?;
    if l.unsure {
        return None;
    }
    let mut p = Rp { t: &l.toks, i: 0 };
    let mut n = 0;
    loop {
        while p.peek() == Some(&Tok::P(';')) {
            p.i += 1;
        }
        p.peek()?;
        match p.statement() {
            Ok(_) => n += 1,
            Err(e) => return Some((e, p.i.saturating_sub(1), n)),
        }
    }
}
/// What is put before each " at 7" or " at position 7" in a message, with the number.
fn named(message: &str) -> Vec<(&str, usize)> {
    message
        .match_indices(" at ")
        .filter_map(|(i, m)| {
            let rest = &message[i + m.len()..];
            let rest = rest.strip_prefix("position ").unwrap_or(rest);
            let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
            Some((&message[..i], digits.parse().ok()?))
        })
        .collect()
}
/// The same statements, whatever the order of the elements of maps.
fn alike(a: &[Statement], b: &[Statement]) -> bool {
    let (a, b) = (format!("{:?}", a), format!("{:?}", b));
    let pieces = |x: &str| {
        let mut v: Vec<String> = x.split([' ', '{', '}']).map(|s| s.trim_end_matches(',').to_string()).collect();
        v.sort();
        v
    };
    a == b || pieces(&a) == pieces(&b)
}
/// Tokens, statements and complaints against the places in the text they come from.
fn places(r: &mut Run, text: &str) {
    let cs: Vec<char> = text.chars().collect();
    let seen = guard(|| {
        let mut t = Tokenizer::new(text);
        let mut toks = vec![];
        let mut err = None;
        while err.is_none() {
            match t.next() {
                None => break,
                Some(Ok(x)) => toks.push(x),
                Some(Err(e)) => err = Some(e),
            }
            if toks.len() > cs.len() {
                break;
            }
        }
        let after: Vec<_> = (0..2).map(|_| t.next()).collect();
        let whole = Tokenizer::new(text).tokenize();
        let singles: Vec<_> = toks.iter().map(|x| Tokenizer::new(&x.lexeme).tokenize()).collect();
        (toks, err, after, whole, singles)
    });
    let (toks, err, after, whole, singles) = match seen {
        Ok(x) => x,
        Err(_) => return r.outcome("panic"), // C09
    };
    r.log(|| format!("{} -> {:?} {:?}", shown(text), toks, err));
    if after.iter().any(|x| x.is_some()) {
        r.violate("after", format!("the tokens of {} go on after their end: {:?}", shown(text), after));
    }
    match (&whole, &err) {
        (Ok(w), None) if *w == toks => {}
        (Err(a), Some(b)) if a.to_string() == b.to_string() => {}
        _ => r.violate("whole", format!("{}: tokenize() gives {:?}, one after another they are {:?} {:?}", shown(text), whole, toks, err)),
    }
    let mut end = 0;
    for (t, alone) in toks.iter().zip(&singles) {
        let n = t.lexeme.chars().count();
        if n == 0 || t.position < end || t.position + n > cs.len() || !cs[t.position..t.position + n].iter().copied().eq(t.lexeme.chars()) {
            r.violate("place", format!("{}: {:?} is not what is at its place", shown(text), t));
            return;
        }
        if !cs[end..t.position].iter().all(|c| c.is_whitespace()) {
            r.violate("skipped", format!("{}: something is left out before {:?}", shown(text), t));
            return;
        }
        end = t.position + n;
        match alone {
            Ok(v) if v.len() == 1 && v[0].token == t.token && v[0].position == 0 && v[0].lexeme == t.lexeme => {}
            _ => r.violate("alone", format!("{}: {:?} read alone is {:?}", shown(text), t, alone)),
        }
    }
    let start = (end..cs.len()).find(|i| !cs[*i].is_whitespace());
    if let Some(e) = &err {
        let Some(start) = start else {
            r.violate("nothing", format!("{}: {:?} after all of the text has been read", shown(text), e));
            return;
        };
        let m = e.to_string();
        if let (Some(a), Some(b)) = (m.find('\''), m.rfind('\'')) {
            let rest: String = cs[start..].iter().collect();
            let quoted = if a < b { &m[a + 1..b] } else { "" };
            if a < b && (quoted.is_empty() || !rest.contains(quoted) || m.contains("got '") && !rest.starts_with(quoted)) {
                r.violate("quoted", format!("{}: {:?} quotes what is not at {}", shown(text), e, start));
            }
        }
        r.outcome("no tokens");
        r.state(hash64(&(toks.len(), start)));
        return;
    }
    if start.is_some() {
        r.violate("end", format!("{}: the tokens end before the text", shown(text)));
        return;
    }
    // The statements, in the four ways to get them
    let parsed = guard(|| {
        let all = Parser::new(toks.clone()).parse();
        let other = Parser::from(Tokenizer::new(text)).and_then(|mut p| p.parse());
        let third = Parser::from_iter(Box::new(toks.clone().into_iter())).and_then(|mut p| p.parse());
        let mut p = Parser::new(toks.clone());
        let mut steps = vec![];
        let mut err = None;
        while err.is_none() && steps.len() <= toks.len() {
            match p.next() {
                None => break,
                Some(Ok(x)) => steps.push(x),
                Some(Err(e)) => err = Some(e),
            }
        }
        let after: Vec<_> = (0..2).map(|_| p.next()).collect();
        (all, other, third, steps, err, after)
    });
    let Ok((all, other, third, steps, err, after)) = parsed else { return r.outcome("panic") };
    let same = |a: &Result<Vec<Statement>, ServerError>, b: &Result<Vec<Statement>, ServerError>| match (a, b) {
        (Ok(a), Ok(b)) => alike(a, b),
        (Err(a), Err(b)) => a.to_string() == b.to_string(),
        _ => false,
    };
    if !same(&all, &other) || !same(&all, &third) {
        r.violate("entry", format!("{} is read as {:?}, {:?} and {:?}", shown(text), all, other, third));
    }
    let fits = match (&all, &err) {
        (Ok(a), None) => alike(a, &steps),
        (Err(a), Some(b)) => a.to_string() == b.to_string(),
        _ => false,
    };
    if !fits {
        r.violate("steps", format!("{} is read as {:?}, one after another as {:?} {:?}", shown(text), all, steps, err));
    }
    if after.iter().any(|x| x.is_some()) {
        r.violate("goes on", format!("the statements of {} go on after {:?}: {:?}", shown(text), err, after));
    }
    r.outcome(if err.is_some() { "refused" } else { "statements" });
    if let Some(e) = &err {
        let m = e.to_string();
        let places = named(&m);
        let fits = |want: Option<usize>| {
            places.iter().any(|(before, p)| toks.iter().enumerate().any(|(i, t)| t.position == *p && before.ends_with(&t.lexeme) && want.is_none_or(|w| w == i)))
        };
        r.state(hash64(&(e.to_string().split(' ').next().map(String::from), places.len())));
        if !places.is_empty() {
            if !fits(None) {
                r.violate("named", format!("{}: {:?} names what is not there", shown(text), e));
            } else if let Some((why, at, before)) = gives_up(text) {
                if before != steps.len() {
                    r.violate("before", format!("{}: {:?} after {} statements, expected it after {}", shown(text), e, steps.len(), before));
                }
                if matches!(why, "command expected" | "not a command" | "name expected" | "element key expected" | "index expected" | "scalar expected" | "lifetime expected") && !fits(Some(at)) {
                    r.violate("culprit", format!("{}: {:?} names another place than {:?}, where it goes wrong ({})", shown(text), e, toks.get(at), why));
                }
            }
        }
    }
    if r.wants_sample() {
        r.sample(format!("{} -> {:?} {:?}", shown(text), toks.iter().map(|t| (t.position, &t.lexeme)).collect::<Vec<_>>(), err.map(|e| e.to_string())));
    }
}

// ------------------------------------------------------------------------------------------------
// Lanes
// ------------------------------------------------------------------------------------------------

/// All strings of a length up to `n` over `alpha`, between `pre` and `post`.
fn strings(mode: Mode, name: &str, alpha: &'static [&'static str], pre: &'static [&'static str], post: &'static [&'static str], n: usize) -> Lane {
    Lane::new(name, Budget::free(), move |r| {
        let mut t = String::new();
        t.push_str(pick_from(pre));
        let len = pick(n + 1);
        for _ in 0..len {
            t.push_str(pick_from(alpha));
        }
        t.push_str(pick_from(post));
        judge(r, mode, &t);
    })
}

const CHARS: &[&str] = &[
    "a", "\"", " ", ";", "[", "]", "{", "}", ",", ":", "-", "1", ".", "\\", "n", "_", "\n", "Q", "\u{e9}", "!", "\u{307}", "\u{663}", "\u{130}", "\0",
];
const INNER: &[&str] = &["\"", "\\", "n", "r", "t", "a", "Z", " ", "\u{1F600}", ";", "\n", "]", "0", "'", "\u{130}"];
const NUMCH: &[&str] = &["0", "1", "9", "-", ".", "e", "+", " ", ";", "_", "f", "]"];
const PRE: &[&str] = &["set a ", "set a int [", "set a str [", "set a int int {", "set a str str{", "get ", "vget a ", "mset a ", "set a int int {1:"];
const NONE: &[&str] = &[""];

const VOCAB: &[&str] = &[
    "get", "set", "del", "ex", "upd", "lt", "try_get", "try_set", "none", "true", "type", "vset", "vget", "vpop", "vpush", "vlen", "mex",
    "mget", "mset", "mdel", "mlen", "int", "float", "str", "bool", "vec", "map", "shutdown", "a", "1", "-1", "1.5", "\"s\"", "[", "]", "{", "}",
    ",", ":", ";",
];
const VOCAB_LIT: &[&str] = &["int", "str", "bool", "a", "1", "\"s\"", "true", "[", "]", "{", "}", ",", ":", ";"];
const VOCAB_VEC: &[&str] = &["int", "1", "2", "1.5", "[", "]", ",", ";", "a"];
const VOCAB_MAP: &[&str] = &["1", "\"s\"", "true", "{", "}", ",", ":", ";"];

/// All token sequences up to a length after a prefix.
fn tokens(mode: Mode, name: &str, vocab: &'static [&'static str], pre: &'static [&'static str], n: usize) -> Lane {
    Lane::new(name, Budget::free(), move |r| {
        let mut t = String::new();
        t.push_str(pick_from(pre));
        let len = pick(n + 1);
        for i in 0..len {
            if i > 0 || !t.is_empty() {
                t.push(' ');
            }
            t.push_str(pick_from(vocab));
        }
        judge(r, mode, &t);
    })
}

const CORPUS: &[&str] = &[
    "set abc \"x\\\"y\\\\ z\" 10; get abc;del _k9 ;ex a",
    "try_set v int [1, -2 , 3] 5;upd v float [1.5,-0.25]; vget v 0; vset v 1 7;vpush v 4 ; vpop v; vlen v",
    "set m str int {\"a\": 1, \"B\":2 } 9 ; mget m \"a\"; mset m \"c\" 3; mdel m \"a\" ;mlen m ; mex m 4",
    "set m int bool {1:true,2:false}; set n int str; set b bool; set s str []; set t int int {}",
    "  \t get\n a ;; ; type b;try_get c;shutdown",
    "SET K TRUE 0; Upd \u{e9}t\u{e9} \"\u{1F600}\\n\\t\\r\"; get \u{6f22}\u{5b57}",
    "set x -9223372036854775808 9223372036854775807; set y 3.4028235 1",
];

/// Every prefix and suffix of a corpus, with an inserted, replaced or dropped character.
fn mutations(mode: Mode, name: &str, double: bool) -> Lane {
    Lane::new(name, Budget::free(), move |r| {
        let mut cs: Vec<char> = pick_from(CORPUS).chars().collect();
        let what = pick(if double { 6 } else { 5 });
        match what {
            0 => {
                let n = pick(cs.len() + 1);
                cs.truncate(n);
            }
            1 => {
                let n = pick(cs.len() + 1);
                cs.drain(..n);
            }
            2 => {
                let i = pick(cs.len());
                cs.remove(i);
            }
            3 => {
                let i = pick(cs.len());
                cs[i] = pick_from(CHARS).chars().next().unwrap();
            }
            4 => {
                let i = pick(cs.len() + 1);
                cs.insert(i, pick_from(CHARS).chars().next().unwrap());
            }
            _ => {
                for _ in 0..2 {
                    let i = pick(cs.len());
                    cs[i] = pick_from(CHARS).chars().next().unwrap();
                }
            }
        }
        judge(r, mode, &cs.into_iter().collect::<String>());
    })
}

/// Every Unicode scalar value in every context.
fn code_points(mode: Mode, name: &str, step: usize) -> Lane {
    const BLOCK: usize = 256;
    Lane::new(name, Budget::free(), move |r| {
        let ctx = pick(4);
        let base = pick(0x110000 / BLOCK) * BLOCK;
        for c in (base..base + BLOCK).step_by(step) {
            let Some(c) = char::from_u32(c as u32) else { continue };
            let t = match ctx {
                0 => format!("set a \"{}\"", c),
                1 => format!("get {}x", c),
                2 => format!("get x{}", c),
                _ => format!("get{}a", c),
            };
            if ctx == 0 && (c == '"' || c == '\\') {
                continue;
            }
            judge(r, mode, &t);
            if r.failed() {
                return;
            }
        }
    })
}

/// Very long texts.
/// The same fragment very often, read by code compiled as in a debug build (nothing turns recursion
/// into a loop there) on a stack as threads have it by default.
fn long_texts(name: &str, sizes: &'static [usize]) -> Lane {
    const PRE: &[&str] = &["", "set a ", "set a \"", "set a int [", "set a int int {1:", "get a; set b str [\"x\",", "[", "get "];
    const PARTS: &[&str] = &[
        ";", " ", "\n", "\t", ";\n", "[", "]", "{", "}", ":", ",", "-", ".", "\"", "\\", "\\\"", "\"\"", "1", "0", "-1 ", "1.5 ", "a", "\u{e9}", "\u{1F600}", "a ", "a1_",
        "get a;", "get a ", "get ", "set ", "set a ", "set a 1;", "set a 1 1;", "set a \"x\";", "set a int [1];", "set a int [];", "set a str int {\"a\":1};", "int ", "str int {", "int [",
        "1,", "\"x\",", "1:1,", "\"k\":\"v\",", "[1,", "true ", "shutdown;", "shutdown ", "vpush v 1;", "mget m \"x\";", "bogus;", "; ;", "\u{0}", "#", "(", ")", "--", "/*", "'",
    ];
    Lane::new(name, Budget::free(), move |r| {
        let pre = *pick_from(PRE);
        let a = *pick_from(PARTS);
        let n = *pick_from(sizes);
        // words take longest
        let n = if a.contains(|c: char| c.is_ascii_lowercase()) && n > 4000 { n / 4 } else { n };
        let end = *pick_from(if sizes.len() > 1 { &["", "\"", "]", "};get a"][..] } else { &["", "};get a"] });
        let t = format!("{}{}{}", pre, a.repeat(n), end);
        r.transitions(1);
        r.distinct(hash64(&t));
        let t2 = t.clone();
        let got = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                guard(|| {
                    use server_plain::analysis::{Parser, Tokenizer};
                    let ok = Parser::from(Tokenizer::new(&t2)).is_ok_and(|mut p| p.parse().is_ok());
                    let other = Tokenizer::new(&t2).tokenize().is_ok_and(|t| Parser::new(t).parse().is_ok());
                    (ok, other)
                })
            })
            .expect("thread")
            .join()
            .expect("guarded");
        match got {
            Err(p) => r.violate("panic", format!("analysing {} panics: {}", shown(&t), p)),
            Ok((a, b)) => {
                if a != b {
                    r.violate("entry", format!("{} is read differently by Parser::from and Parser::new(tokenize())", shown(&t)));
                }
                r.outcome(if a { "statements" } else { "error" });
            }
        }
        r.transitions(1);
    })
}

pub fn c09(q: bool) -> Vec<Lane> {
    let m = Mode::Crash;
    vec![
        strings(m, "texts", CHARS, NONE, NONE, if q { 5 } else { 6 }),
        strings(m, "texts after a beginning", CHARS, PRE, NONE, if q { 4 } else { 5 }),
        strings(m, "string contents", INNER, &["set a \"", "\"", "get a;mset b \""], &["", "\"", "\";"], if q { 4 } else { 6 }),
        strings(m, "numbers", NUMCH, &["", "set a ", "vget a "], NONE, if q { 5 } else { 6 }),
        tokens(m, "tokens", VOCAB, NONE, if q { 4 } else { 5 }),
        tokens(m, "tokens of literals", VOCAB_LIT, &["set a", "upd a int", "set a int int {", "set a str ["], if q { 5 } else { 6 }),
        mutations(m, "mutations", !q),
        code_points(m, "code points", 1),
        long_texts("long texts", if q { &[40_000] } else { &[1000, 40_000, 150_000, 600_000] }),
    ]
}

// ------------------------------------------------------------------------------------------------
// C10: from statements to text
// ------------------------------------------------------------------------------------------------

/// The words of a value.
fn val_words(v: &Val, out: &mut Vec<String>) {
    match v {
        Val::Null => {}
        Val::Bool(b) => out.push(b.to_string()),
        Val::Int(i) => out.push(i.to_string()),
        Val::Float(b) => {
            let t = format!("{}", f32::from_bits(*b));
            out.push(if t.contains('.') { t } else { t + ".0" });
        }
        Val::Str(x) => {
            let mut t = String::from("\"");
            for c in x.chars() {
                match c {
                    '"' => t.push_str("\\\""),
                    '\\' => t.push_str("\\\\"),
                    '\n' => t.push_str("\\n"),
                    '\t' => t.push_str("\\t"),
                    '\r' => t.push_str("\\r"),
                    c => t.push(c),
                }
            }
            out.push(t + "\"");
        }
        Val::Vec(t, xs) => {
            out.push(t.word().into());
            out.push("[".into());
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    out.push(",".into());
                }
                val_words(x, out);
            }
            out.push("]".into());
        }
        Val::Map(k, t, m) => {
            out.push(k.word().into());
            out.push(t.word().into());
            out.push("{".into());
            for (i, (a, b)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(",".into());
                }
                val_words(a, out);
                out.push(":".into());
                val_words(b, out);
            }
            out.push("}".into());
        }
    }
}
/// The words of a statement.
pub fn words(o: &Op) -> Vec<String> {
    let mut w: Vec<String> = vec![];
    let mut cmd = |c: &str, k: &str| {
        w.push(c.into());
        w.push(k.into());
    };
    match o {
        Op::Get(k) => cmd("get", k),
        Op::TryGet(k) => cmd("try_get", k),
        Op::Exists(k) => cmd("ex", k),
        Op::Type(k) => cmd("type", k),
        Op::Delete(k) => cmd("del", k),
        Op::VPop(k) => cmd("vpop", k),
        Op::VLen(k) => cmd("vlen", k),
        Op::MLen(k) => cmd("mlen", k),
        Op::Set(k, v, l) | Op::SetNew(k, v, l) | Op::Update(k, v, l) => {
            cmd(
                match o {
                    Op::Set(..) => "set",
                    Op::SetNew(..) => "try_set",
                    _ => "upd",
                },
                k,
            );
            val_words(v, &mut w);
            if let Some(l) = l {
                w.push(l.to_string());
            }
        }
        Op::VGet(k, i) => {
            cmd("vget", k);
            w.push(i.to_string());
        }
        Op::VSet(k, i, v) => {
            cmd("vset", k);
            w.push(i.to_string());
            val_words(v, &mut w);
        }
        Op::VPush(k, v) => {
            cmd("vpush", k);
            val_words(v, &mut w);
        }
        Op::MGet(k, e) => {
            cmd("mget", k);
            val_words(e, &mut w);
        }
        Op::MEx(k, e) => {
            cmd("mex", k);
            val_words(e, &mut w);
        }
        Op::MDel(k, e) => {
            cmd("mdel", k);
            val_words(e, &mut w);
        }
        Op::MSet(k, e, v) => {
            cmd("mset", k);
            val_words(e, &mut w);
            val_words(v, &mut w);
        }
        Op::Shutdown => w.push("shutdown".into()),
        Op::Life(_) | Op::SetLife(..) | Op::Sweep | Op::Null => unreachable!("not in the language"),
    }
    w
}
/// Plain text of statements.
pub fn text_of(ops: &[Op]) -> String {
    ops.iter().map(|o| words(o).join(" ")).collect::<Vec<_>>().join("; ")
}

/// May the two words be written without a blank?
fn glued(a: &str, b: &str) -> bool {
    let p = |s: &str| s.len() == 1 && ";[],:{}".contains(s);
    let ender = b.len() == 1 && ";:,]}".contains(b);
    p(a) || ender
}

fn expect(r: &mut Run, text: &str, ops: &[Op]) {
    r.transitions(1);
    r.distinct(hash64(text));
    r.state(hash64(ops));
    let got = real_parse(text);
    r.log(|| format!("{} -> {:?}", shown(text), got));
    // the two references must agree with each other
    let (m, _) = meaning(text);
    if m != Meaning::Ops(ops.to_vec()) {
        panic!("references disagree on {:?}: {:?} / {:?}", text, m, ops);
    }
    match got {
        Err(p) => r.violate("panic", format!("well-formed {} panics: {}", shown(text), p)),
        Ok(Err(e)) => r.violate("refused", format!("well-formed {} is refused: {}", shown(text), e)),
        Ok(Ok(sts)) => {
            r.outcome("accepted");
            if !(ops.len() == sts.len() && ops.iter().zip(&sts).all(|(o, s)| o.is(s))) {
                r.violate("meaning", format!("{} is read as {:?}, it says {:?}", shown(text), sts, ops));
            }
        }
    }
    if r.wants_sample() {
        r.sample(shown(text));
    }
}

fn scalars() -> Vec<Val> {
    vec![
        Val::Int(7),
        Val::Int(i64::MIN),
        Val::Int(i64::MAX),
        Val::Bool(true),
        Val::Bool(false),
        s("Ab \\\"\n\r\t;[{:,}]-1 \u{c9}\u{e9}\u{1F600}"),
        s(""),
        f(1.5),
        f(-0.0),
        f(f32::MAX),
        f(f32::from_bits(1)),
    ]
}
fn collections() -> Vec<Val> {
    let mut v = vec![];
    for t in CTS {
        for n in [0, 1, 3] {
            v.push(Val::Vec(t, (0..n).map(|i| t.sample(i)).collect()));
        }
        for k in KTS {
            for n in [0, 1, 2] {
                v.push(Val::Map(k, t, (0..n).map(|i| (k.sample(i), t.sample(i))).collect()));
            }
        }
    }
    v
}
/// Every statement form with every kind of argument.
pub fn statements() -> Vec<Op> {
    let k = || "key_1".to_string();
    let mut v = vec![
        Op::Get(k()),
        Op::TryGet(k()),
        Op::Exists(k()),
        Op::Type(k()),
        Op::Delete(k()),
        Op::VPop(k()),
        Op::VLen(k()),
        Op::MLen(k()),
        Op::Shutdown,
        Op::Get("_".into()),
        Op::Get("\u{e9}t\u{e9}\u{6f22}9".into()),
        Op::Get("getx".into()),
        Op::Delete("set_".into()),
        Op::Set("a_very_long_key_name_with_0123456789_digits".into(), Val::Null, None),
    ];
    let mut all = vec![Val::Null];
    all.extend(scalars());
    all.extend(collections());
    for x in &all {
        for l in [None, Some(0), Some(60), Some(i64::MAX as u64)] {
            if l.is_some() && *x == Val::Null {
                continue; // `set k 5` stores 5
            }
            v.push(Op::Set(k(), x.clone(), l));
            v.push(Op::SetNew(k(), x.clone(), l));
            v.push(Op::Update(k(), x.clone(), l));
        }
    }
    for i in [0usize, 1, 99, i64::MAX as usize] {
        v.push(Op::VGet(k(), i));
        for x in scalars() {
            v.push(Op::VSet(k(), i, x));
        }
    }
    for x in scalars() {
        v.push(Op::VPush(k(), x.clone()));
        for e in scalars().into_iter().filter(|e| matches!(e, Val::Int(_) | Val::Str(_))) {
            v.push(Op::MSet(k(), e, x.clone()));
        }
        if matches!(x, Val::Int(_) | Val::Str(_)) {
            v.push(Op::MGet(k(), x.clone()));
            v.push(Op::MEx(k(), x.clone()));
            v.push(Op::MDel(k(), x));
        }
    }
    v
}
/// One statement of each form.
fn forms() -> Vec<Op> {
    let k = || "k".to_string();
    let mut m = BTreeMap::new();
    m.insert(s("A"), f(1.25));
    m.insert(s("b"), f(-2.5));
    vec![
        Op::Get(k()),
        Op::TryGet(k()),
        Op::Exists(k()),
        Op::Type(k()),
        Op::Delete(k()),
        Op::VPop(k()),
        Op::VLen(k()),
        Op::MLen(k()),
        Op::Shutdown,
        Op::Set(k(), Val::Null, None),
        Op::Set(k(), s("Qq \""), Some(4)),
        Op::Set(k(), Val::Vec(Ct::Str, vec![]), None),
        Op::Set(k(), Val::Vec(Ct::Bool, vec![Val::Bool(true), Val::Bool(false)]), Some(3)),
        Op::SetNew(k(), Val::Map(Kt::Int, Ct::Int, BTreeMap::new()), Some(2)),
        Op::Update(k(), Val::Map(Kt::Str, Ct::Float, m), None),
        Op::VGet(k(), 3),
        Op::VSet(k(), 0, Val::Int(-5)),
        Op::VPush(k(), f(0.5)),
        Op::MGet(k(), s("E")),
        Op::MEx(k(), Val::Int(-1)),
        Op::MDel(k(), Val::Int(2)),
        Op::MSet(k(), s("F"), Val::Bool(false)),
    ]
}

fn recase(w: &str, style: usize) -> String {
    if w.starts_with('"') || w.chars().next().is_some_and(|c| c.is_numeric() || c == '-') {
        return w.to_string();
    }
    match style {
        0 => w.to_string(),
        1 => w.to_uppercase(),
        _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_uppercase().next().unwrap() } else { c }).collect(),
    }
}

const GAPS: &[&str] = &[" ", "", "\n", "  ", "\t", "\r\n", "\u{a0}\u{2003}"];

/// Every statement in every layout style.
fn layouts(name: &str) -> Lane {
    let all = statements();
    Lane::new(name, Budget::free(), move |r| {
        let o = pick_from(&all);
        let style = pick(3);
        let gap = *pick_from(GAPS);
        let lead = *pick_from(&["", " ", ";", "\n;; "]);
        let tail = *pick_from(&["", ";", " ", " ;\n", ";;"]);
        let w = words(o);
        let mut t = String::from(lead);
        for (i, x) in w.iter().enumerate() {
            if i > 0 {
                t.push_str(if gap.is_empty() && !glued(&w[i - 1], x) { " " } else { gap });
            }
            t.push_str(&recase(x, style));
        }
        t.push_str(tail);
        expect(r, &t, std::slice::from_ref(o));
    })
}
/// Single odd gaps: every form, every gap position, every gap.
fn odd_gaps(name: &str) -> Lane {
    let all = forms();
    Lane::new(name, Budget::free(), move |r| {
        let o = pick_from(&all);
        let w = words(o);
        let at = pick(w.len() + 1);
        let gap = *pick_from(&["", "\n", "\t\t", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{3000}", "          "]);
        let mut t = String::new();
        for (i, x) in w.iter().enumerate() {
            if i == at && (i == 0 || !gap.is_empty() || glued(&w[i - 1], x)) {
                t.push_str(gap);
            } else if i > 0 {
                t.push(' ');
            }
            t.push_str(x);
        }
        if at == w.len() {
            t.push_str(gap);
        }
        expect(r, &t, std::slice::from_ref(o));
    })
}
/// Lists of statements with every separator.
fn lists(name: &str, n: usize) -> Lane {
    let all = forms();
    Lane::new(name, Budget::free(), move |r| {
        let len = 1 + pick(n);
        let mut ops: Vec<Op> = vec![];
        let mut t = String::new();
        for i in 0..len {
            if i > 0 {
                let sep = pick(5);
                // a blank alone separates statements when the one before takes no more arguments
                let open = match ops.last().unwrap() {
                    Op::Set(_, v, l) | Op::SetNew(_, v, l) | Op::Update(_, v, l) => l.is_none() || *v == Val::Null,
                    _ => false,
                };
                t.push_str(match sep {
                    0 => "; ",
                    1 => ";",
                    2 if !open => " ",
                    3 => " ;;\n;",
                    4 if !open => "\n",
                    _ => " ; ",
                });
            }
            let o = pick_from(&all).clone();
            t.push_str(&words(&o).join(" "));
            ops.push(o);
        }
        expect(r, &t, &ops);
    })
}
/// String contents: every pair and triple of interesting characters.
fn string_contents(name: &str, n: usize) -> Lane {
    const CH: &[&str] = &[
        "a", "Z", "\"", "\\", "\n", "\r", "\t", " ", ";", "]", "}", ",", ":", "[", "{", "0", "-", ".", "_", "n", "t", "/", "'", "\u{0}", "\u{7f}", "\u{e9}",
        "\u{c9}", "\u{130}", "\u{3a3}", "\u{df}", "\u{1F600}", "\u{6f22}", "\u{307}", "\u{200b}", "\u{feff}", "\u{ffff}", "set ",
    ];
    Lane::new(name, Budget::free(), move |r| {
        let mut t = String::new();
        let len = pick(n + 1);
        for _ in 0..len {
            t.push_str(pick_from(CH));
        }
        let v = s(&t);
        let o = match pick(4) {
            0 => Op::Set("k".into(), v, None),
            1 => Op::MGet("k".into(), v),
            2 => Op::Set("k".into(), Val::Vec(Ct::Str, vec![v.clone(), v]), None),
            _ => Op::Set("k".into(), Val::Map(Kt::Str, Ct::Str, [(v.clone(), v)].into_iter().collect()), Some(1)),
        };
        expect(r, &words(&o).join(" "), std::slice::from_ref(&o));
    })
}
/// Integers: both sides of every power of two and ten, and long or zero-padded ones.
fn integers(mode: Mode, name: &str) -> Lane {
    let mut v: Vec<String> = vec![];
    for p in 0..=66u32 {
        for d in [-1i128, 0, 1] {
            let x = (1i128 << p) + d;
            v.push(x.to_string());
            v.push((-x).to_string());
        }
    }
    for p in 0..=21u32 {
        for d in [-1i128, 0, 1] {
            let x = 10i128.pow(p) + d;
            v.push(x.to_string());
            v.push((-x).to_string());
        }
    }
    for x in ["00", "007", "-0", "-00", "000000000000000000000000000000000000012", "-000000000000000000000000000009223372036854775808", "99999999999999999999999999999999", "-", "--1", "+1", "1-", "0x10", "1_0", "1e3", "\u{663}", "1\u{663}", "\u{bd}", "1a", "-a", "- 1"] {
        v.push(x.into());
    }
    Lane::new(name, Budget::free(), move |r| {
        let t = pick_from(&v);
        let text = match pick(6) {
            0 => format!("set a {}", t),
            1 => format!("vget a {}", t),
            2 => format!("set a 1 {}", t),
            3 => format!("mget a {}", t),
            4 => format!("set a int [{},{}]", t, t),
            _ => format!("set a int int {{{}:{}}} 1", t, t),
        };
        judge(r, mode, &text);
    })
}
/// Floats: neighbours of representable values, written exactly.
fn floats(mode: Mode, name: &str, dense: bool) -> Lane {
    let mantissas: Vec<u32> = if dense {
        (0..23).flat_map(|b| [1u32 << b, (1 << b) - 1, 0x7fffff ^ (1 << b)]).collect()
    } else {
        vec![0, 1, 2, 0x400000, 0x2aaaaa, 0x7ffffe, 0x7fffff]
    };
    Lane::new(name, Budget::free(), move |r| {
        let e = pick(255) as u32;
        let m = *pick_from(&mantissas);
        let x = f32::from_bits(e << 23 | m);
        let next = f32::from_bits((e << 23 | m) + 1);
        let mid = (x as f64 + if next.is_finite() { next as f64 } else { 2f64.powi(128) }) / 2.0;
        // exact decimal expansions
        let exact = |v: f64| {
            let t = format!("{:.170}", v);
            let t = t.trim_end_matches('0').to_string();
            if t.ends_with('.') {
                t + "0"
            } else {
                t
            }
        };
        let mut t = match pick(6) {
            0 => {
                let t = format!("{}", x);
                if t.contains('.') {
                    t
                } else {
                    t + ".0"
                }
            }
            1 => exact(x as f64),
            2 => exact(mid),
            3 => exact(mid) + "0000000000000001",
            4 => {
                // just below the midpoint
                let t = exact(mid);
                let mut b: Vec<u8> = t.into_bytes();
                match b.iter().rposition(|c| c.is_ascii_digit() && *c != b'0') {
                    Some(i) => {
                        b[i] -= 1;
                        for c in &mut b[i + 1..] {
                            if *c == b'0' {
                                *c = b'9';
                            }
                        }
                        if !b.contains(&b'.') {
                            b.extend(b".0");
                        }
                        b.extend(b"999999");
                        String::from_utf8(b).unwrap()
                    }
                    None => return,
                }
            }
            _ => {
                let t = format!("{:e}", x);
                if t.contains('.') {
                    t
                } else {
                    t.replace('e', ".0e")
                }
            }
        };
        if pick(2) == 1 {
            t = format!("-{}", t);
        }
        judge(r, mode, &format!("set a {}", t));
    })
}
/// Big collections.
fn big(name: &str) -> Lane {
    Lane::new(name, Budget::free(), move |r| {
        let n = *pick_from(&[4usize, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257, 1000]);
        let t = *pick_from(&CTS);
        let v = match pick(3) {
            0 => Val::Vec(t, (0..n).map(|i| t.sample(i)).collect()),
            i => {
                let k = KTS[i - 1];
                Val::Map(k, t, (0..n).map(|i| (k.sample(i), t.sample(i))).collect())
            }
        };
        let o = Op::Set("k".into(), v, *pick_from(&[None, Some(9)]));
        expect(r, &words(&o).join(" "), std::slice::from_ref(&o));
    })
}
/// Many statements, long names, long strings.
fn wide(name: &str) -> Lane {
    Lane::new(name, Budget::free(), move |r| {
        let n = *pick_from(&[10usize, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65536]);
        let ops = match pick(4) {
            0 => (0..n.min(2000)).map(|i| Op::Get(format!("k{}", i))).collect::<Vec<_>>(),
            1 => vec![Op::Get("k".repeat(n))],
            2 => vec![Op::Set("k".into(), s(&"x\u{e9}\"".repeat(n)), None)],
            _ => vec![Op::MSet("k".into(), s(&"Yy".repeat(n)), s(&"\\\n".repeat(n)))],
        };
        expect(r, &text_of(&ops), &ops);
    })
}
/// Duplicate element keys: the later one wins.
fn duplicates(mode: Mode, name: &str, n: usize) -> Lane {
    Lane::new(name, Budget::free(), move |r| {
        let (ty, ks): (&str, &[&str]) = if pick(2) == 0 { ("int", &["1", "01", "-1", "2"]) } else { ("str", &["\"a\"", "\"A\"", "\"\"", "\"a \""]) };
        let n = pick(n + 1);
        let items: Vec<String> = (0..n).map(|i| format!("{}:{}", pick_from(ks), i)).collect();
        judge(r, mode, &format!("set m {} int {{{}}}", ty, items.join(",")));
    })
}

pub fn c10(q: bool) -> Vec<Lane> {
    let m = Mode::Good;
    vec![
        layouts("statements x layouts"),
        odd_gaps("odd gaps"),
        lists("lists of statements", if q { 3 } else { 4 }),
        string_contents("string contents", if q { 3 } else { 4 }),
        code_points(m, "code points", 1),
        integers(m, "integers"),
        floats(m, "floats", !q),
        big("big collections"),
        wide("wide"),
        duplicates(m, "duplicate element keys", if q { 3 } else { 5 }),
        tokens(m, "tokens", VOCAB, NONE, if q { 4 } else { 5 }),
        tokens(m, "tokens of vector literals", VOCAB_VEC, &["set a int [", "set a"], if q { 6 } else { 8 }),
        tokens(m, "tokens of map literals", VOCAB_MAP, &["set a int str {", "set a str bool {"], if q { 6 } else { 8 }),
        strings(m, "texts after a beginning", CHARS, PRE, NONE, if q { 4 } else { 5 }),
        strings(m, "numbers", NUMCH, &["set a ", "vget a "], NONE, if q { 5 } else { 7 }),
        strings(m, "string texts", INNER, &["set a \""], &["\"", "\";"], if q { 5 } else { 6 }),
    ]
}

pub fn c11(q: bool) -> Vec<Lane> {
    let m = Mode::Bad;
    vec![
        tokens(m, "tokens", VOCAB, NONE, if q { 4 } else { 5 }),
        tokens(m, "tokens after a good statement", VOCAB, &["set a 1;", "get a;"], if q { 2 } else { 3 }),
        tokens(m, "tokens of literals", VOCAB_LIT, &["set a", "set a int int {", "set a str ["], if q { 5 } else { 7 }),
        tokens(m, "tokens of vector literals", VOCAB_VEC, &["set a int [", "set a int [1,"], if q { 6 } else { 8 }),
        tokens(m, "tokens of map literals", VOCAB_MAP, &["set a int str {", "set a str bool {", "set a int str {1:\"s\","], if q { 6 } else { 8 }),
        strings(m, "texts", CHARS, NONE, NONE, if q { 5 } else { 6 }),
        strings(m, "texts after a beginning", CHARS, PRE, NONE, if q { 4 } else { 5 }),
        strings(m, "string texts", INNER, &["set a \"", "mget a \""], &["", "\"", "\"; get a"], if q { 5 } else { 6 }),
        strings(m, "numbers", NUMCH, &["set a ", "vget a ", "set a 1 "], NONE, if q { 5 } else { 7 }),
        mutations(m, "mutations", !q),
        code_points(m, "code points", 1),
        integers(m, "integers"),
        floats(m, "floats", !q),
    ]
}

/// Tokens with all kinds of gaps between them.
fn gaps(mode: Mode, name: &str, n: usize) -> Lane {
    const VOCAB: &[&str] = &["get", "SET", "vget", "MEX", "a", "\u{c9}a", "1", "-2", "1.50", "\"s \\\" at 3\"", "\"\u{1F600}\"", "tRue", "[", ":", ";", "int"];
    const GAPS: &[&str] = &[" ", "", "\n\t ", "\u{2003}"];
    Lane::new(name, Budget::free(), move |r| {
        let mut t = String::from(*pick_from(GAPS));
        for i in 0..pick(n) + 1 {
            if i > 0 {
                t.push_str(pick_from(GAPS));
            }
            t.push_str(pick_from(VOCAB));
        }
        t.push_str(pick_from(GAPS));
        judge(r, mode, &t);
    })
}

pub fn c25(q: bool) -> Vec<Lane> {
    let m = Mode::Place;
    vec![
        strings(m, "texts", CHARS, NONE, NONE, if q { 4 } else { 5 }),
        strings(m, "texts after a beginning", CHARS, PRE, NONE, if q { 3 } else { 4 }),
        strings(m, "string contents", INNER, &["set a \"", "\"", "get a;mset b \""], &["", "\"", "\" \";", "\" 1 q"], if q { 4 } else { 5 }),
        strings(m, "numbers", NUMCH, &["", "set a ", "vget a "], &["", " q"], if q { 4 } else { 6 }),
        tokens(m, "tokens", VOCAB, NONE, if q { 3 } else { 4 }),
        tokens(m, "tokens after a beginning", VOCAB, &["get a; vget", "mset \u{e9} \"\u{1F600}\"", "try_get a set \u{130}\u{663} int"], if q { 3 } else { 4 }),
        gaps(m, "gaps", if q { 3 } else { 4 }),
        mutations(m, "mutations", !q),
        code_points(m, "code points", 1),
    ]
}

/// Up to `n` words and signs of the language in any order.
pub fn some_tokens(n: usize) -> String {
    let len = pick(n + 1);
    (0..len).map(|_| *pick_from(VOCAB)).collect::<Vec<_>>().join(" ")
}
/// Up to `n` characters and short pieces in any order.
pub fn some_text(n: usize) -> String {
    let len = pick(n + 1);
    (0..len).map(|_| *pick_from(CHARS)).collect()
}
