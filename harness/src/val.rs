//! The harness's picture of the specification's values, commands and replies,
//! and the projection of the implementation's types onto it.
use serde_json::{json, Value as J};
use server::analysis::{InterpreterResponse, Statement, ValueType};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::{CollectionType, KeyType, StorageMap, StorageValue, StorageVector};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Null,
    S(String, String),
    Vec(String, Vec<V>),
    Map(String, String, BTreeMap<V, V>),
}

pub fn sc(t: &str, v: &str) -> V {
    V::S(t.to_string(), v.to_string())
}

fn st(j: &J) -> String {
    j.as_str().unwrap_or("").to_string()
}

pub fn fmt_f32(f: f32) -> String {
    format!("{:?}", f)
}

impl V {
    pub fn from_spec(j: &J) -> V {
        match j["t"].as_str().unwrap() {
            "null" => V::Null,
            "vec" => V::Vec(st(&j["et"]), j["es"].as_array().unwrap().iter().map(V::from_spec).collect()),
            "map" => V::Map(
                st(&j["kt"]),
                st(&j["et"]),
                j["m"].as_array().unwrap().iter().map(|p| (V::from_spec(&p[0]), V::from_spec(&p[1]))).collect(),
            ),
            t => V::S(t.to_string(), st(&j["v"])),
        }
    }
    pub fn to_spec(&self) -> J {
        match self {
            V::Null => json!({"t":"null","v":""}),
            V::S(t, v) => json!({"t":t,"v":v}),
            V::Vec(et, es) => json!({"t":"vec","et":et,"es":es.iter().map(|e| e.to_spec()).collect::<Vec<_>>()}),
            V::Map(kt, et, m) => {
                json!({"t":"map","kt":kt,"et":et,"m":m.iter().map(|(k, v)| json!([k.to_spec(), v.to_spec()])).collect::<Vec<_>>()})
            }
        }
    }
    pub fn to_real(&self) -> StorageValue {
        match self {
            V::Null => StorageValue::Null,
            V::S(t, v) => match &t[..] {
                "bool" => StorageValue::Bool(v == "true"),
                "int" => StorageValue::Int(v.parse().unwrap()),
                "float" => StorageValue::Float(v.parse().unwrap()),
                _ => StorageValue::String(v.clone()),
            },
            V::Vec(et, es) => {
                let mut x = StorageVector::new(ct(et));
                for e in es {
                    x.push(e.to_real()).expect("well typed vector");
                }
                StorageValue::Vector(x)
            }
            V::Map(k, et, m) => {
                let mut x = StorageMap::new(kt(k), ct(et));
                for (a, b) in m {
                    x.set(a.to_real(), b.to_real()).expect("well typed map");
                }
                StorageValue::Map(x)
            }
        }
    }
    /// From the JSON a server sends for a value (externally tagged enum).
    pub fn from_json(j: &J) -> Option<V> {
        if j.as_str() == Some("Null") {
            return Some(V::Null);
        }
        let o = j.as_object()?;
        if o.len() != 1 {
            return None;
        }
        let (tag, x) = o.iter().next()?;
        Some(match &tag[..] {
            "Bool" => sc("bool", if x.as_bool()? { "true" } else { "false" }),
            "Int" => sc("int", &x.as_i64()?.to_string()),
            "Float" => sc("float", &fmt_f32(x.as_f64()? as f32)),
            "String" => sc("str", x.as_str()?),
            "Vector" => {
                let mut es = vec![];
                for e in x["vector"].as_array()? {
                    es.push(V::from_json(e)?);
                }
                V::Vec(tyname(&x["collection_type"])?, es)
            }
            "Map" => {
                let mut m = BTreeMap::new();
                for p in x["map"].as_array()? {
                    if p.as_array()?.len() != 2 || m.insert(V::from_json(&p[0])?, V::from_json(&p[1])?).is_some() {
                        return None;
                    }
                }
                V::Map(tyname(&x["key_type"])?, tyname(&x["collection_type"])?, m)
            }
            _ => return None,
        })
    }
    pub fn from_real(v: &StorageValue) -> V {
        match v {
            StorageValue::Null => V::Null,
            StorageValue::Bool(b) => sc("bool", if *b { "true" } else { "false" }),
            StorageValue::Int(i) => sc("int", &i.to_string()),
            StorageValue::Float(f) => sc("float", &fmt_f32(*f)),
            StorageValue::String(s) => sc("str", s),
            StorageValue::Vector(x) => V::Vec(
                ctname(x.collection_type).into(),
                (0..x.len()).map(|i| x.get(i).map(V::from_real).unwrap_or(sc("?", "unreadable"))).collect(),
            ),
            StorageValue::Map(_) => match serde_json::to_value(v) {
                Ok(j) => V::from_json(&j).unwrap_or_else(|| sc("?", &j.to_string())),
                Err(e) => sc("?", &format!("unserializable: {}", e)),
            },
        }
    }
}

fn tyname(j: &J) -> Option<String> {
    Some(match j.as_str()? {
        "Bool" => "bool",
        "String" => "str",
        "Int" => "int",
        "Float" => "float",
        _ => return None,
    }
    .to_string())
}
pub fn ct(s: &str) -> CollectionType {
    match s {
        "bool" => CollectionType::Bool,
        "str" => CollectionType::String,
        "int" => CollectionType::Int,
        _ => CollectionType::Float,
    }
}
pub fn ctname(c: CollectionType) -> &'static str {
    match c {
        CollectionType::Bool => "bool",
        CollectionType::String => "str",
        CollectionType::Int => "int",
        CollectionType::Float => "float",
    }
}
pub fn kt(s: &str) -> KeyType {
    match s {
        "str" => KeyType::String,
        _ => KeyType::Int,
    }
}
fn ktname(c: KeyType) -> &'static str {
    match c {
        KeyType::String => "str",
        KeyType::Int => "int",
    }
}

pub fn level(s: &str) -> AuthorizationLevel {
    match s {
        "admin" => AuthorizationLevel::Admin,
        "write" => AuthorizationLevel::Write,
        _ => AuthorizationLevel::Read,
    }
}

// ---------------------------------------------------------------------------
// lifetimes: ticks in the specification, seconds in the code.  Lifetimes too far
// away to elapse are written as anchor + offset (see StoreTrace.tla).
// ---------------------------------------------------------------------------
pub const ANCHOR_STEP: i64 = 200_000_000;
pub const ANCHORS: [u64; 10] = [
    1 << 24,
    1 << 31,
    1 << 32,
    10_000_000_000,
    1 << 40,
    1_000_000_000_000_000,
    1 << 53,
    1 << 60,
    1 << 62,
    9_223_372_035_100_000_000, // close below the largest representable deadline
];

/// seconds -> ticks (tps ticks per second)
pub fn enc_life(secs: u64, tps: i64) -> i64 {
    if secs < 150_000 {
        return secs as i64 * tps;
    }
    for (j, a) in ANCHORS.iter().enumerate() {
        let d = secs as i128 - *a as i128;
        if d.abs() < 60_000 {
            return (j as i64 + 1) * ANCHOR_STEP + d as i64 * tps;
        }
    }
    -9 // not one the specification can talk about
}
pub fn dec_life(ticks: i64, tps: i64) -> u64 {
    if ticks < 150_000 * tps {
        return (ticks / tps) as u64;
    }
    let j = (ticks + ANCHOR_STEP / 2) / ANCHOR_STEP;
    (ANCHORS[j as usize - 1] as i128 + ((ticks - j * ANCHOR_STEP) / tps) as i128) as u64
}
pub const HUGE: u64 = i64::MAX as u64;

fn life_of(c: &J, tps: i64) -> Option<u64> {
    match c["life"].as_i64().unwrap() {
        -1 => None,
        -2 => Some(HUGE),
        n => Some(dec_life(n, tps)),
    }
}
fn index_of(c: &J) -> usize {
    match c["i"].as_i64().unwrap() {
        -1 => i64::MAX as usize,
        n => n as usize,
    }
}

/// A specification command as the statement the code runs.
pub fn to_statement(c: &J, tps: i64) -> Statement {
    let k = || st(&c["key"]);
    let v = || V::from_spec(&c["val"]).to_real();
    let mk = || V::from_spec(&c["mk"]).to_real();
    match c["op"].as_str().unwrap() {
        "set" => Statement::Set(k(), v(), life_of(c, tps)),
        "tryset" => Statement::SetIfNotExists(k(), v(), life_of(c, tps)),
        "upd" => Statement::Update(k(), v(), life_of(c, tps)),
        "del" => Statement::Delete(k()),
        "get" => Statement::Get(k()),
        "tryget" => Statement::GetIfExists(k()),
        "ex" => Statement::Exists(k()),
        "type" => Statement::ValueType(k()),
        "getlife" => Statement::GetLifetime(k()),
        "setlife" => Statement::UpdateLifetime(k(), life_of(c, tps)),
        "vget" => Statement::VectorGet(k(), index_of(c)),
        "vset" => Statement::VectorSet(k(), index_of(c), v()),
        "vpush" => Statement::VectorAppend(k(), v()),
        "vpop" => Statement::VectorPop(k()),
        "vlen" => Statement::VectorLength(k()),
        "mget" => Statement::MapGet(k(), mk()),
        "mset" => Statement::MapSet(k(), mk(), v()),
        "mdel" => Statement::MapDelete(k(), mk()),
        "mlen" => Statement::MapLength(k()),
        "mex" => Statement::MapExists(k(), mk()),
        "pass" => Statement::ExpireKeys,
        "null" => Statement::Null,
        "shutdown" => Statement::Shutdown,
        o => panic!("no statement for {}", o),
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn lit(v: &V) -> String {
    match v {
        V::Null => String::new(),
        V::S(t, s) => match &t[..] {
            "str" => quote(s),
            "float" => {
                // never an exponent: the literal has to contain a point
                let f: f32 = s.parse().unwrap();
                let t = format!("{}", f);
                if t.contains('.') { t } else { format!("{}.0", t) }
            }
            _ => s.clone(),
        },
        V::Vec(et, es) => format!("{} [{}]", et, es.iter().map(lit).collect::<Vec<_>>().join(", ")),
        V::Map(k, et, m) => {
            format!("{} {} {{{}}}", k, et, m.iter().map(|(a, b)| format!("{}: {}", lit(a), lit(b))).collect::<Vec<_>>().join(", "))
        }
    }
}

/// The query text of a command, if the query language can spell it.
pub fn to_text(c: &J, tps: i64) -> Option<String> {
    let k = c["key"].as_str().unwrap_or("");
    let v = || lit(&V::from_spec(&c["val"]));
    let mk = || lit(&V::from_spec(&c["mk"]));
    let op = c["op"].as_str().unwrap();
    Some(match op {
        "set" | "tryset" | "upd" => {
            let word = if op == "tryset" { "try_set" } else { op };
            let l = match life_of(c, tps) {
                None => String::new(),
                Some(l) if l <= i64::MAX as u64 => format!(" {}", l),
                _ => return None,
            };
            let x = V::from_spec(&c["val"]);
            if x == V::Null {
                if !l.is_empty() {
                    return None;
                }
                format!("{} {}", word, k)
            } else {
                format!("{} {} {}{}", word, k, v(), l)
            }
        }
        "del" | "get" | "ex" | "type" | "vpop" | "vlen" | "mlen" => format!("{} {}", op, k),
        "tryget" => format!("try_get {}", k),
        "vget" => format!("vget {} {}", k, index_of(c)),
        "vset" => format!("vset {} {} {}", k, index_of(c), v()),
        "vpush" => format!("vpush {} {}", k, v()),
        "mget" | "mdel" | "mex" => format!("{} {} {}", op, k, mk()),
        "mset" => format!("mset {} {} {}", k, mk(), v()),
        "shutdown" => "shutdown".to_string(),
        _ => return None,
    })
}

pub type Outcome = Result<InterpreterResponse, ServerError>;

pub fn errname(e: &ServerError) -> &'static str {
    match e {
        ServerError::KeyError(_) => "KeyError",
        ServerError::NetworkError(_) => "NetworkError",
        ServerError::WriteError(_) => "WriteError",
        ServerError::TokenizationError(_) => "TokenizationError",
        ServerError::ParseError(_) => "ParseError",
        ServerError::IndexError(_) => "IndexError",
        ServerError::TypeError(_) => "TypeError",
        ServerError::InternalError(_) => "InternalError",
        ServerError::AuthorizationError(_) => "AuthorizationError",
        ServerError::AuthenticationError(_) => "AuthenticationError",
        ServerError::RequestError(_) => "RequestError",
    }
}

/// A reply, as the specification writes it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum R {
    Val(V),
    W(Vec<String>),
    N(String, i64),
}
impl R {
    pub fn from_spec(j: &J) -> R {
        let h = st(&j[0]);
        match &h[..] {
            "val" => R::Val(V::from_spec(&j[1])),
            "size" | "life" => R::N(h, j[1].as_i64().unwrap()),
            _ => R::W(j.as_array().unwrap().iter().map(st).collect()),
        }
    }
    pub fn to_spec(&self) -> J {
        match self {
            R::Val(v) => json!(["val", v.to_spec()]),
            R::W(w) => json!(w),
            R::N(h, n) => json!([h, n]),
        }
    }
    pub fn from_real(o: &Outcome, tps: i64) -> R {
        let w = |x: &[&str]| R::W(x.iter().map(|s| s.to_string()).collect());
        match o {
            Err(e) => w(&["err", errname(e)]),
            Ok(InterpreterResponse::Value(v)) => R::Val(V::from_real(v)),
            Ok(InterpreterResponse::Message(m)) if m == "Ok" => w(&["ok"]),
            Ok(InterpreterResponse::Message(m)) => w(&["message", m]),
            Ok(InterpreterResponse::Size(n)) => R::N("size".into(), *n as i64),
            Ok(InterpreterResponse::Expiration(None)) => R::N("life".into(), -1),
            Ok(InterpreterResponse::Expiration(Some(n))) => R::N("life".into(), enc_life(*n, tps)),
            Ok(InterpreterResponse::Key(k)) => w(&["key", k]),
            Ok(InterpreterResponse::Bool(b)) => w(&["bool", if *b { "true" } else { "false" }]),
            Ok(InterpreterResponse::ValueType(t)) => match t {
                ValueType::Null => w(&["type", "null"]),
                ValueType::Bool => w(&["type", "bool"]),
                ValueType::Int => w(&["type", "int"]),
                ValueType::Float => w(&["type", "float"]),
                ValueType::String => w(&["type", "str"]),
                ValueType::Vector(c) => w(&["type", "vec", ctname(*c)]),
                ValueType::Map(k, c) => w(&["type", "map", ktname(*k), ctname(*c)]),
            },
            Ok(InterpreterResponse::ShuttingDown) => w(&["shutdown"]),
            Ok(InterpreterResponse::Null) => w(&["null"]),
        }
    }
    pub fn is_stop(&self) -> bool {
        matches!(self, R::W(w) if w[0] == "err" || w[0] == "shutdown")
    }
    pub fn is_err(&self) -> bool {
        matches!(self, R::W(w) if w[0] == "err" )
    }
}

/// JSON text in plain ASCII (the trace checker's reader does not depend on a locale then).
pub fn ascii(j: &J) -> String {
    let s = j.to_string();
    if s.is_ascii() {
        return s;
    }
    let mut o = String::with_capacity(s.len() * 2);
    for c in s.chars() {
        if c.is_ascii() {
            o.push(c);
        } else {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{:04x}", u));
            }
        }
    }
    o
}
