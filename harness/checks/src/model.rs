//! The reference: a plain key-value map with deadlines, typed lists and dictionaries, written from
//! the property texts.
use server::analysis::{InterpreterResponse, Statement, ValueType};
use server::auth::AuthorizationLevel;
use server::error::{get_error_code, ServerError};
use server::storage::{CollectionType, KeyType, StorageMap, StorageValue, StorageVector};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ct {
    Bool,
    Str,
    Int,
    Float,
}
pub const CTS: [Ct; 4] = [Ct::Bool, Ct::Str, Ct::Int, Ct::Float];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kt {
    Str,
    Int,
}
pub const KTS: [Kt; 2] = [Kt::Str, Kt::Int];

/// A value; floats by their bits.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Null,
    Bool(bool),
    Str(String),
    Int(i64),
    Float(u32),
    Vec(Ct, Vec<Val>),
    Map(Kt, Ct, BTreeMap<Val, Val>),
}
pub fn f(x: f32) -> Val {
    Val::Float(x.to_bits())
}
pub fn s(x: &str) -> Val {
    Val::Str(x.to_string())
}

impl Ct {
    pub fn real(self) -> CollectionType {
        match self {
            Ct::Bool => CollectionType::Bool,
            Ct::Str => CollectionType::String,
            Ct::Int => CollectionType::Int,
            Ct::Float => CollectionType::Float,
        }
    }
    pub fn is(self, r: &CollectionType) -> bool {
        matches!(
            (self, r),
            (Ct::Bool, CollectionType::Bool)
                | (Ct::Str, CollectionType::String)
                | (Ct::Int, CollectionType::Int)
                | (Ct::Float, CollectionType::Float)
        )
    }
    pub fn admits(self, v: &Val) -> bool {
        matches!(
            (self, v),
            (Ct::Bool, Val::Bool(_)) | (Ct::Str, Val::Str(_)) | (Ct::Int, Val::Int(_)) | (Ct::Float, Val::Float(_))
        )
    }
    pub fn word(self) -> &'static str {
        match self {
            Ct::Bool => "bool",
            Ct::Str => "str",
            Ct::Int => "int",
            Ct::Float => "float",
        }
    }
    /// Two different elements of the type, or more.
    pub fn sample(self, i: usize) -> Val {
        match self {
            Ct::Bool => Val::Bool(i % 2 == 0),
            Ct::Str => Val::Str(format!("s{}", i)),
            Ct::Int => Val::Int(i as i64 + 10),
            Ct::Float => f(i as f32 + 0.5),
        }
    }
}
impl Kt {
    pub fn real(self) -> KeyType {
        match self {
            Kt::Str => KeyType::String,
            Kt::Int => KeyType::Int,
        }
    }
    pub fn is(self, r: &KeyType) -> bool {
        matches!((self, r), (Kt::Str, KeyType::String) | (Kt::Int, KeyType::Int))
    }
    pub fn admits(self, v: &Val) -> bool {
        matches!((self, v), (Kt::Str, Val::Str(_)) | (Kt::Int, Val::Int(_)))
    }
    pub fn word(self) -> &'static str {
        match self {
            Kt::Str => "str",
            Kt::Int => "int",
        }
    }
    pub fn sample(self, i: usize) -> Val {
        match self {
            Kt::Str => Val::Str(format!("k{}", i)),
            Kt::Int => Val::Int(i as i64),
        }
    }
}

impl Val {
    pub fn real(&self) -> StorageValue {
        match self {
            Val::Null => StorageValue::Null,
            Val::Bool(b) => StorageValue::Bool(*b),
            Val::Str(x) => StorageValue::String(x.clone()),
            Val::Int(i) => StorageValue::Int(*i),
            Val::Float(b) => StorageValue::Float(f32::from_bits(*b)),
            Val::Vec(t, xs) => {
                let mut v = StorageVector::new(t.real());
                for x in xs {
                    v.push(x.real()).expect("well-typed element");
                }
                StorageValue::Vector(v)
            }
            Val::Map(k, t, m) => {
                let mut v = StorageMap::new(k.real(), t.real());
                for (a, b) in m {
                    v.set(a.real(), b.real()).expect("well-typed entry");
                }
                StorageValue::Map(v)
            }
        }
    }
    /// Deep comparison with a value of the real code.
    pub fn is(&self, r: &StorageValue) -> bool {
        match (self, r) {
            (Val::Null, StorageValue::Null) => true,
            (Val::Bool(a), StorageValue::Bool(b)) => a == b,
            (Val::Str(a), StorageValue::String(b)) => a == b,
            (Val::Int(a), StorageValue::Int(b)) => a == b,
            (Val::Float(a), StorageValue::Float(b)) => *a == b.to_bits(),
            (Val::Vec(t, xs), StorageValue::Vector(v)) => {
                t.is(&v.collection_type)
                    && v.len() == xs.len()
                    && xs.iter().enumerate().all(|(i, x)| v.get(i).is_ok_and(|y| x.is(y)))
            }
            (Val::Map(k, t, m), StorageValue::Map(v)) => {
                k.is(&v.key_type)
                    && t.is(&v.collection_type)
                    && v.len() == m.len()
                    && m.iter().all(|(a, b)| v.get(&a.real()).is_ok_and(|y| b.is(y)))
            }
            _ => false,
        }
    }
    pub fn typ(&self) -> Typ {
        match self {
            Val::Null => Typ::Null,
            Val::Bool(_) => Typ::Bool,
            Val::Str(_) => Typ::Str,
            Val::Int(_) => Typ::Int,
            Val::Float(_) => Typ::Float,
            Val::Vec(t, _) => Typ::Vec(*t),
            Val::Map(k, t, _) => Typ::Map(*k, *t),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Typ {
    Null,
    Bool,
    Str,
    Int,
    Float,
    Vec(Ct),
    Map(Kt, Ct),
}
impl Typ {
    pub fn is(&self, r: &ValueType) -> bool {
        match (self, r) {
            (Typ::Null, ValueType::Null)
            | (Typ::Bool, ValueType::Bool)
            | (Typ::Str, ValueType::String)
            | (Typ::Int, ValueType::Int)
            | (Typ::Float, ValueType::Float) => true,
            (Typ::Vec(a), ValueType::Vector(b)) => a.is(b),
            (Typ::Map(k, a), ValueType::Map(l, b)) => k.is(l) && a.is(b),
            _ => false,
        }
    }
}

/// A statement.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Get(String),
    TryGet(String),
    Exists(String),
    Type(String),
    Life(String),
    Set(String, Val, Option<u64>),
    SetNew(String, Val, Option<u64>),
    Update(String, Val, Option<u64>),
    SetLife(String, Option<u64>),
    Delete(String),
    VGet(String, usize),
    VSet(String, usize, Val),
    VPush(String, Val),
    VPop(String),
    VLen(String),
    MGet(String, Val),
    MSet(String, Val, Val),
    MDel(String, Val),
    MLen(String),
    MEx(String, Val),
    Sweep,
    Shutdown,
    Null,
}

impl Op {
    pub fn real(&self) -> Statement {
        match self.clone() {
            Op::Get(k) => Statement::Get(k),
            Op::TryGet(k) => Statement::GetIfExists(k),
            Op::Exists(k) => Statement::Exists(k),
            Op::Type(k) => Statement::ValueType(k),
            Op::Life(k) => Statement::GetLifetime(k),
            Op::Set(k, v, l) => Statement::Set(k, v.real(), l),
            Op::SetNew(k, v, l) => Statement::SetIfNotExists(k, v.real(), l),
            Op::Update(k, v, l) => Statement::Update(k, v.real(), l),
            Op::SetLife(k, l) => Statement::UpdateLifetime(k, l),
            Op::Delete(k) => Statement::Delete(k),
            Op::VGet(k, i) => Statement::VectorGet(k, i),
            Op::VSet(k, i, v) => Statement::VectorSet(k, i, v.real()),
            Op::VPush(k, v) => Statement::VectorAppend(k, v.real()),
            Op::VPop(k) => Statement::VectorPop(k),
            Op::VLen(k) => Statement::VectorLength(k),
            Op::MGet(k, e) => Statement::MapGet(k, e.real()),
            Op::MSet(k, e, v) => Statement::MapSet(k, e.real(), v.real()),
            Op::MDel(k, e) => Statement::MapDelete(k, e.real()),
            Op::MLen(k) => Statement::MapLength(k),
            Op::MEx(k, e) => Statement::MapExists(k, e.real()),
            Op::Sweep => Statement::ExpireKeys,
            Op::Shutdown => Statement::Shutdown,
            Op::Null => Statement::Null,
        }
    }
    /// Deep comparison with a statement of the real code.
    pub fn is(&self, st: &Statement) -> bool {
        match (self, st) {
            (Op::Get(k), Statement::Get(l))
            | (Op::TryGet(k), Statement::GetIfExists(l))
            | (Op::Exists(k), Statement::Exists(l))
            | (Op::Type(k), Statement::ValueType(l))
            | (Op::Life(k), Statement::GetLifetime(l))
            | (Op::Delete(k), Statement::Delete(l))
            | (Op::VPop(k), Statement::VectorPop(l))
            | (Op::VLen(k), Statement::VectorLength(l))
            | (Op::MLen(k), Statement::MapLength(l)) => k == l,
            (Op::Set(k, v, t), Statement::Set(l, w, u))
            | (Op::SetNew(k, v, t), Statement::SetIfNotExists(l, w, u))
            | (Op::Update(k, v, t), Statement::Update(l, w, u)) => k == l && v.is(w) && t == u,
            (Op::SetLife(k, t), Statement::UpdateLifetime(l, u)) => k == l && t == u,
            (Op::VGet(k, i), Statement::VectorGet(l, j)) => k == l && i == j,
            (Op::VSet(k, i, v), Statement::VectorSet(l, j, w)) => k == l && i == j && v.is(w),
            (Op::VPush(k, v), Statement::VectorAppend(l, w)) => k == l && v.is(w),
            (Op::MGet(k, v), Statement::MapGet(l, w))
            | (Op::MDel(k, v), Statement::MapDelete(l, w))
            | (Op::MEx(k, v), Statement::MapExists(l, w)) => k == l && v.is(w),
            (Op::MSet(k, e, v), Statement::MapSet(l, g, w)) => k == l && e.is(g) && v.is(w),
            (Op::Sweep, Statement::ExpireKeys) | (Op::Shutdown, Statement::Shutdown) | (Op::Null, Statement::Null) => true,
            _ => false,
        }
    }
    /// 0: any level, 1: write or admin, 2: admin.
    pub fn need(&self) -> u8 {
        match self {
            Op::Shutdown => 2,
            Op::Set(..) | Op::SetNew(..) | Op::Update(..) | Op::SetLife(..) | Op::Delete(..) | Op::VSet(..)
            | Op::VPush(..) | Op::VPop(..) | Op::MSet(..) | Op::MDel(..) => 1,
            _ => 0,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Level {
    Read,
    Write,
    Admin,
}
pub const LEVELS: [Level; 3] = [Level::Read, Level::Write, Level::Admin];
impl Level {
    pub fn real(self) -> AuthorizationLevel {
        match self {
            Level::Read => AuthorizationLevel::Read,
            Level::Write => AuthorizationLevel::Write,
            Level::Admin => AuthorizationLevel::Admin,
        }
    }
    pub fn grants(self) -> u8 {
        self as u8
    }
}

/// An expected reply.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rep {
    Value(Val),
    Done,
    Size(usize),
    /// Nanoseconds left, or unlimited.
    Left(Option<u128>),
    Bool(bool),
    Type(Typ),
    /// A sweep: how many entries could have been removed.
    Swept(usize),
    Shutdown,
    Null,
    /// Refused: the status class.
    Err(u16),
    /// Either refused without effect or done; the caller finds out which.
    Either(Box<Rep>),
}

pub fn status_of(e: &ServerError) -> u16 {
    get_error_code(e).split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0)
}

const SEC: u128 = 1_000_000_000;
/// Slack for the time between reading the clock and using it.
const EPS: u128 = 50_000_000;

impl Rep {
    pub fn is(&self, r: &Result<InterpreterResponse, ServerError>) -> bool {
        match (self, r) {
            (Rep::Err(c), Err(e)) => status_of(e) == *c,
            (Rep::Either(_), Err(_)) => true,
            (Rep::Either(x), r) => x.is(r),
            (_, Err(_)) => false,
            (Rep::Value(v), Ok(InterpreterResponse::Value(w))) => v.is(w),
            (Rep::Done, Ok(InterpreterResponse::Message(_))) => true,
            (Rep::Size(n), Ok(InterpreterResponse::Size(m))) => n == m,
            (Rep::Swept(n), Ok(InterpreterResponse::Size(m))) => m <= n,
            (Rep::Left(None), Ok(InterpreterResponse::Expiration(None))) => true,
            (Rep::Left(Some(ns)), Ok(InterpreterResponse::Expiration(Some(x)))) => {
                let x = *x as u128;
                x == ns / SEC || x == ns.saturating_sub(EPS) / SEC
            }
            (Rep::Bool(a), Ok(InterpreterResponse::Bool(b))) => a == b,
            (Rep::Type(a), Ok(InterpreterResponse::ValueType(b))) => a.is(b),
            (Rep::Shutdown, Ok(InterpreterResponse::ShuttingDown)) => true,
            (Rep::Null, Ok(InterpreterResponse::Null)) => true,
            _ => false,
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Rep::Err(_))
    }
    /// Short class name.
    pub fn class(&self) -> String {
        match self {
            Rep::Value(v) => format!("value:{:?}", v.typ()),
            Rep::Err(c) => format!("error {}", c),
            Rep::Left(None) => "unlimited".into(),
            Rep::Left(Some(_)) => "lifetime".into(),
            Rep::Type(t) => format!("type:{:?}", t),
            Rep::Size(_) => "size".into(),
            x => format!("{:?}", x),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Entry {
    pub val: Val,
    /// Virtual nanoseconds.
    pub deadline: Option<u128>,
}

/// The reference state.
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub map: BTreeMap<String, Entry>,
    pub now: u128,
}

/// Lifetimes up to this must be honoured; larger ones may also be refused.
pub const SANE_LIFETIME: u64 = 1 << 32;

impl Model {
    pub fn live(&self, k: &str) -> Option<&Entry> {
        self.map.get(k).filter(|e| e.deadline.map_or(true, |d| self.now <= d))
    }
    pub fn live_count(&self) -> usize {
        self.map.keys().filter(|k| self.live(k).is_some()).count()
    }
    pub fn permanent_count(&self) -> usize {
        self.map.values().filter(|e| e.deadline.is_none()).count()
    }
    pub fn live_timed_count(&self) -> usize {
        self.live_count() - self.permanent_count()
    }
    fn live_mut(&mut self, k: &str) -> Option<&mut Entry> {
        let now = self.now;
        self.map.get_mut(k).filter(|e| e.deadline.map_or(true, |d| now <= d))
    }
    fn vec(&mut self, k: &str) -> Result<(Ct, &mut Vec<Val>), Rep> {
        match self.live_mut(k) {
            Some(Entry { val: Val::Vec(t, v), .. }) => Ok((*t, v)),
            _ => Err(Rep::Err(422)),
        }
    }
    fn dict(&mut self, k: &str) -> Result<(Kt, Ct, &mut BTreeMap<Val, Val>), Rep> {
        match self.live_mut(k) {
            Some(Entry { val: Val::Map(a, t, v), .. }) => Ok((*a, *t, v)),
            _ => Err(Rep::Err(422)),
        }
    }
    fn put(&mut self, k: &str, v: &Val, l: Option<u64>) {
        let deadline = l.map(|l| self.now + l as u128 * SEC);
        self.map.insert(k.to_string(), Entry { val: v.clone(), deadline });
    }
    fn maybe(l: Option<u64>, r: Rep) -> Rep {
        match l {
            Some(l) if l > SANE_LIFETIME => Rep::Either(Box::new(r)),
            _ => r,
        }
    }
    /// Run a statement. For `Rep::Either` the effect is applied; the caller undoes it on refusal.
    pub fn apply(&mut self, op: &Op) -> Rep {
        self.try_apply(op).unwrap_or_else(|e| e)
    }
    fn try_apply(&mut self, op: &Op) -> Result<Rep, Rep> {
        let no = Rep::Err(422);
        Ok(match op {
            Op::Get(k) => Rep::Value(self.live(k).ok_or(no)?.val.clone()),
            Op::TryGet(k) => Rep::Value(self.live(k).map_or(Val::Null, |e| e.val.clone())),
            Op::Exists(k) => Rep::Bool(self.live(k).is_some()),
            Op::Type(k) => Rep::Type(self.live(k).ok_or(no)?.val.typ()),
            Op::Life(k) => {
                let now = self.now;
                Rep::Left(self.live(k).ok_or(no)?.deadline.map(|d| d - now))
            }
            Op::Set(k, v, l) => {
                self.put(k, v, *l);
                Self::maybe(*l, Rep::Done)
            }
            Op::SetNew(k, v, l) => {
                let absent = self.live(k).is_none();
                if absent {
                    self.put(k, v, *l);
                }
                Self::maybe(*l, Rep::Bool(absent))
            }
            Op::Update(k, v, l) => {
                self.live(k).ok_or(no)?;
                self.put(k, v, *l);
                Self::maybe(*l, Rep::Done)
            }
            Op::SetLife(k, l) => {
                let d = l.map(|l| self.now + l as u128 * SEC);
                self.live_mut(k).ok_or(no)?.deadline = d;
                Self::maybe(*l, Rep::Done)
            }
            Op::Delete(k) => {
                let was = self.live(k).is_some();
                self.map.remove(k);
                Rep::Bool(was)
            }
            Op::VGet(k, i) => Rep::Value(self.vec(k)?.1.get(*i).ok_or(no)?.clone()),
            Op::VSet(k, i, v) => {
                let (t, xs) = self.vec(k)?;
                if !t.admits(v) {
                    return Err(no);
                }
                *xs.get_mut(*i).ok_or(no)? = v.clone();
                Rep::Done
            }
            Op::VPush(k, v) => {
                let (t, xs) = self.vec(k)?;
                if !t.admits(v) {
                    return Err(no);
                }
                xs.push(v.clone());
                Rep::Done
            }
            Op::VPop(k) => Rep::Value(self.vec(k)?.1.pop().unwrap_or(Val::Null)),
            Op::VLen(k) => Rep::Size(self.vec(k)?.1.len()),
            Op::MGet(k, e) => Rep::Value(self.dict(k)?.2.get(e).ok_or(no)?.clone()),
            Op::MSet(k, e, v) => {
                let (a, t, m) = self.dict(k)?;
                if !a.admits(e) || !t.admits(v) {
                    return Err(no);
                }
                m.insert(e.clone(), v.clone());
                Rep::Done
            }
            Op::MDel(k, e) => {
                let (a, _, m) = self.dict(k)?;
                if !a.admits(e) {
                    return Err(no);
                }
                Rep::Bool(m.remove(e).is_some())
            }
            Op::MLen(k) => Rep::Size(self.dict(k)?.2.len()),
            Op::MEx(k, e) => {
                let (a, _, m) = self.dict(k)?;
                if !a.admits(e) {
                    return Err(no);
                }
                Rep::Bool(m.contains_key(e))
            }
            Op::Sweep => Rep::Swept(self.map.len()),
            Op::Shutdown => Rep::Shutdown,
            Op::Null => Rep::Null,
        })
    }
    /// Run the statements of a request. The flags tell for a trailing `Either` that the caller must
    /// undo the last statement if it was refused.
    pub fn request(&mut self, ops: &[Op], level: Level) -> Rep {
        if ops.iter().any(|o| o.need() > level.grants()) {
            return Rep::Err(401);
        }
        let mut last = Rep::Null;
        for o in ops {
            last = self.apply(o);
            if matches!(last, Rep::Err(_) | Rep::Shutdown) {
                break;
            }
        }
        last
    }
    /// The possible replies, each with the state after it: a lifetime that is out of any reasonable
    /// range may be accepted or refused.
    pub fn request_alternatives(&self, ops: &[Op], level: Level) -> Vec<(Rep, Model)> {
        if ops.iter().any(|o| o.need() > level.grants()) {
            return vec![(Rep::Err(401), self.clone())];
        }
        let mut done = vec![];
        let mut m = self.clone();
        let mut last = Rep::Null;
        for o in ops {
            let before = m.clone();
            last = m.apply(o);
            if let Rep::Either(ok) = last {
                done.push((Rep::Err(422), before));
                last = *ok;
            }
            if matches!(last, Rep::Err(_) | Rep::Shutdown) {
                break;
            }
        }
        done.insert(0, (last, m));
        done
    }
    /// Fingerprint of the state.
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for (k, e) in &self.map {
            k.hash(&mut h);
            e.val.hash(&mut h);
            match e.deadline {
                None => 0u8.hash(&mut h),
                Some(d) if d < self.now => 1u8.hash(&mut h),
                Some(d) => (2 + (d - self.now) / (SEC / 10)).hash(&mut h),
            }
        }
        h.finish()
    }
}
