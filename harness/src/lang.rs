//! The query language: replaying TLC's vectors on the real tokenizer and parser,
//! and recording what they make of random texts for LangTrace.tla to judge.
//! Contents and names are sequences of code points here (see Lang.tla).
use crate::backend::*;
use crate::hist::{rand_int, rand_string, TYPES};
use crate::rng::Rng;
use crate::shim;
use crate::val::*;
use serde_json::{json, Value as J};
use server::analysis::{Parser, Statement, Tokenizer};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| J::from(c as u32)).collect())
}
pub fn of_cps(j: &J) -> String {
    j.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn parts(f: f32) -> (u32, u32, i32) {
    let b = f.to_bits();
    let (ex, man) = ((b >> 23 & 255) as i32, b & 0x7fffff);
    let neg = if f == 0.0 { 0 } else { b >> 31 };
    if ex == 0 {
        (neg, man, -149)
    } else {
        (neg, man | 0x800000, ex - 150)
    }
}
pub fn cp_val(v: &V) -> J {
    match v {
        V::Null => json!({"t":"null","v":[]}),
        V::S(t, s) if t == "float" => {
            let f: f32 = s.parse().unwrap_or(f32::NAN);
            let (n, m, e) = parts(f);
            json!({"t":"float","v":[n,m,e]})
        }
        V::S(t, s) => json!({"t":t,"v":cps(s)}),
        V::Vec(et, es) => json!({"t":"vec","et":et,"es":es.iter().map(cp_val).collect::<Vec<_>>()}),
        V::Map(kt, et, m) => json!({"t":"map","kt":kt,"et":et,"m":m.iter().map(|(k, v)| json!([cp_val(k), cp_val(v)])).collect::<Vec<_>>()}),
    }
}
pub fn cp_reply(r: &R) -> J {
    match r {
        R::Val(v) => json!(["val", cp_val(v)]),
        other => other.to_spec(),
    }
}

fn cp_statement(s: &Statement) -> J {
    let life = |l: &Option<u64>| l.map(|n| cps(&n.to_string())).unwrap_or(json!([]));
    let v = |x| cp_val(&V::from_real(x));
    let i = |n: &usize| cps(&n.to_string());
    let k = |op: &str, key: &String| json!({"op":op,"key":cps(key)});
    match s {
        Statement::Get(a) => k("get", a),
        Statement::Set(a, x, l) => json!({"op":"set","key":cps(a),"val":v(x),"life":life(l)}),
        Statement::Update(a, x, l) => json!({"op":"upd","key":cps(a),"val":v(x),"life":life(l)}),
        Statement::SetIfNotExists(a, x, l) => json!({"op":"tryset","key":cps(a),"val":v(x),"life":life(l)}),
        Statement::Exists(a) => k("ex", a),
        Statement::Delete(a) => k("del", a),
        Statement::GetIfExists(a) => k("tryget", a),
        Statement::ValueType(a) => k("type", a),
        Statement::VectorGet(a, n) => json!({"op":"vget","key":cps(a),"i":i(n)}),
        Statement::VectorSet(a, n, x) => json!({"op":"vset","key":cps(a),"i":i(n),"val":v(x)}),
        Statement::VectorAppend(a, x) => json!({"op":"vpush","key":cps(a),"val":v(x)}),
        Statement::VectorPop(a) => k("vpop", a),
        Statement::VectorLength(a) => k("vlen", a),
        Statement::MapGet(a, m) => json!({"op":"mget","key":cps(a),"mk":v(m)}),
        Statement::MapSet(a, m, x) => json!({"op":"mset","key":cps(a),"mk":v(m),"val":v(x)}),
        Statement::MapDelete(a, m) => json!({"op":"mdel","key":cps(a),"mk":v(m)}),
        Statement::MapExists(a, m) => json!({"op":"mex","key":cps(a),"mk":v(m)}),
        Statement::MapLength(a) => k("mlen", a),
        Statement::Shutdown => json!({"op":"shutdown"}),
        other => json!({"op":format!("{:?}", other)}),
    }
}

/// What the real tokenizer and parser make of a text.
pub fn understand(text: &str) -> J {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let tokens = Tokenizer::new(text).tokenize()?;
        Parser::new(tokens).parse()
    }));
    match r {
        Ok(Ok(ss)) => json!({"st":"ok","cs":ss.iter().map(cp_statement).collect::<Vec<_>>()}),
        Ok(Err(e)) => json!({"st":"bad","e":errname(&e)}),
        Err(e) => match panic_reply(e) {
            R::W(w) => json!({"st":"panic","e":w[1]}),
            _ => json!({"st":"panic","e":""}),
        },
    }
}

/// Every run of characters that could be a float literal, with the float it denotes.
pub fn hints(text: &str) -> J {
    let t: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut seen = std::collections::BTreeSet::new();
    let ends = |c: char| c.is_whitespace() || ";:,]}".contains(c);
    for i in 0..t.len() {
        if !(t[i].is_ascii_digit() || t[i] == '-') || (i > 0 && !(ends(t[i - 1]) || "[{".contains(t[i - 1]))) {
            continue;
        }
        let lit: String = t[i..].iter().take_while(|c| !ends(**c)).collect();
        if !lit.contains('.') || !lit.is_ascii() || !seen.insert(lit.clone()) {
            continue;
        }
        if let Ok(f) = lit.parse::<f32>() {
            if f.is_nan() {
                continue;
            }
            let (n, m, e) = if f.is_infinite() { (0, 0, 0) } else { parts(f) };
            out.push(json!({"lit":cps(&lit),"neg":n,"m":m,"e":e,"inf":f.is_infinite()}));
        }
    }
    J::Array(out)
}

fn norm(j: &J) -> J {
    match j {
        J::Object(o) => J::Object(
            o.iter()
                .map(|(k, v)| {
                    let mut v = norm(v);
                    if k == "m" {
                        v.as_array_mut().map(|a| a.sort_by_key(|x| x.to_string()));
                    }
                    (k.clone(), v)
                })
                .collect(),
        ),
        J::Array(a) => J::Array(a.iter().map(norm).collect()),
        x => x.clone(),
    }
}

const WS: &[&str] = &[" ", " ", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{b}", " \n\t "];

pub fn recase(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect()
}

const SAMPLES: &[&str] = &[
    "get", "set", "vget", "vset", "vpush", "mget", "mset", "shutdown", "int", "str", "bool", "true", "none", "a", "1", "-2", "1.5", "\"x\"", ";", ",", ":",
    "[", "]", "{", "}",
];

/// vh langvec FILE SEED
pub fn vectors(a: &[String]) -> J {
    let mut r = Rng::new(a[1].parse().unwrap());
    let f = std::io::BufReader::new(std::fs::File::open(&a[0]).unwrap());
    let (mut n, mut texts, mut oks) = (0u64, 0u64, 0u64);
    let mut bad = vec![];
    let mut sample = J::Null;
    for line in f.lines() {
        let line = line.unwrap();
        if !line.starts_with("\"@") {
            continue;
        }
        let s: String = serde_json::from_str(&line).unwrap();
        let v: J = serde_json::from_str(&s[1..]).unwrap();
        n += 1;
        let expect_ok = v["ok"].as_bool().unwrap();
        let want = norm(&v["cs"]);
        let mut variants = vec![];
        if let Some(ix) = v.get("s") {
            let toks: Vec<&str> = ix.as_array().unwrap().iter().map(|i| SAMPLES[i.as_u64().unwrap() as usize - 1]).collect();
            variants.push(toks.join(" "));
            let mut t = String::new();
            if r.chance(1, 2) {
                t.push_str(r.pick(WS));
            }
            for (i, x) in toks.iter().enumerate() {
                let word = x.chars().all(|c| c.is_alphabetic());
                t.push_str(&if word { recase(&mut r, x) } else { x.to_string() });
                // white space may be left out after punctuation, and before punctuation other than brackets
                let next = toks.get(i + 1).copied().unwrap_or(";");
                let tight = ";,:[]{}".contains(x) || ";,:]}".contains(next);
                if !tight || r.chance(1, 2) {
                    t.push_str(r.pick(WS));
                }
            }
            variants.push(t);
        } else {
            variants.push(of_cps(&v["t"]));
        }
        for t in variants {
            texts += 1;
            let got = understand(&t);
            let fine = match got["st"].as_str().unwrap() {
                "ok" => expect_ok && norm(&got["cs"]) == want,
                "bad" => !expect_ok && ["TokenizationError", "ParseError", "TypeError"].contains(&got["e"].as_str().unwrap()),
                _ => false,
            };
            if expect_ok {
                oks += 1;
                if sample.is_null() && n > 200 {
                    sample = json!({"text":t,"commands":want});
                }
            }
            if !fine && bad.len() < 20 {
                bad.push(json!({"text":t,"expected":if expect_ok {json!({"commands":want})} else {json!("refused")},"got":got}));
            }
        }
    }
    json!({"vectors":n,"texts":texts,"understood":oks,"violations":bad,"sample":sample})
}

// ---------------------------------------------------------------------------
// random texts
// ---------------------------------------------------------------------------
pub fn rand_name(r: &mut Rng) -> String {
    const N: &[&str] = &["a", "b", "k1", "_", "_x9", "A", "É", "éx", "жЖ", "\u{212a}ey", "中", "İz", "𐐀", "a²", "x٣", "gett", "set_", "truex", "int1", "Å1", "Я_я", "ÀÞ÷", "ÀÞ", "µm", "º1", "x¼", "ÿÝ", "long_name_with_many_characters_0123456789"];
    r.pick(N).to_string()
}
fn rand_int_lit(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "9223372036854775808".into(),
        1 => "-9223372036854775809".into(),
        2 => "9223372036854775807".into(),
        3 => "-9223372036854775808".into(),
        4 => format!("{}{}", "0".repeat(1 + r.below(30) as usize), r.below(100)),
        5 => "-0".into(),
        6 => format!("{}{}", rand_int(r), r.below(10)),
        _ => rand_int(r).to_string(),
    }
}
fn rand_float_lit(r: &mut Rng) -> String {
    loop {
        let s = match r.below(10) {
            0 => r.pick(&["0.0", "-0.0", "1.", "-.5", "1.0e5", "1.E5", "2.5e-3", "-7.25E+2", "340282350000000000000000000000000000000.0", "3.4028235677973366e38",
                "3.40282356779733661637539395458142568447e38", "3.40282356779733661637539395458142568448e38", "1.0e-45", "0.7e-45", "0.70064923216240853546186479164495806564e-45",
                "0.70064923216240853546186479164495806565e-45", "1.0e-60", "1.0e99999999999", "0.0e99999999999", "1.17549435e-38", "1.1754942807573643e-38", "16777217.0", "16777219.0", "0.1", "1.0e"]).to_string(),
            1 => format!("{}.{}", r.below(1000), r.below(1000)),
            2 => {
                // exactly between two floats, or next to it
                let f = loop {
                    let f = f32::from_bits(r.next() as u32 & 0x7fff_ffff);
                    if f.is_finite() && f < 1e30 && f > 1e-20 {
                        break f;
                    }
                };
                let g = f32::from_bits(f.to_bits() + 1);
                let m = (f as f64 + g as f64) / 2.0;
                let s = format!("{:.120}", m);
                let s = s.trim_end_matches('0');
                match r.below(3) {
                    0 => format!("{}1", s),
                    1 => format!("{}0", s),
                    _ => s.to_string(),
                }
            }
            3 => {
                let n = 1 + r.below(60);
                let d: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                format!("{}.{}", &d[..(n / 2) as usize], &d[(n / 2) as usize..])
            }
            4 => format!("{}.{}e{}", r.below(100), r.below(100000), r.below(90) as i64 - 50),
            5 => format!("{}.{}E{}{}", r.below(10), r.below(100000), if r.chance(1, 2) { "+" } else { "" }, r.below(45)),
            _ => {
                let f = f32::from_bits(r.next() as u32);
                if !f.is_finite() {
                    continue;
                }
                let s = if r.chance(1, 2) { format!("{}", f) } else { format!("{:?}", f) };
                if s.contains('.') { s } else { continue }
            }
        };
        // a literal starts with a digit or a minus sign
        let s = if s.starts_with('.') { format!("0{}", s) } else { s };
        return if r.chance(1, 4) && !s.starts_with('-') { format!("-{}", s) } else { s };
    }
}
fn rand_str_lit(r: &mut Rng) -> String {
    let s = rand_string(r);
    let s: String = s.chars().take(60).collect();
    match r.below(12) {
        0 => format!("\"{}\"", s),
        1 => format!("\"{}\\x\"", s.replace('"', "").replace('\\', "")),
        2 => {
            // raw line ends and tabs are characters like any other
            format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
        }
        _ => quote(&s),
    }
}
fn rand_lit(r: &mut Rng, t: &str) -> String {
    match t {
        "bool" => {
            let b = *r.pick(&["true", "false"]);
            if r.chance(1, 3) { recase(r, b) } else { b.into() }
        }
        "int" => rand_int_lit(r),
        "float" => rand_float_lit(r),
        _ => rand_str_lit(r),
    }
}
/// Tokens of a command (texts); `n` bounds collection sizes.
fn rand_command(r: &mut Rng, n: u64, names: &[String]) -> Vec<String> {
    let name = |r: &mut Rng| if names.is_empty() { rand_name(r) } else { r.pick(names).clone() };
    let s = |x: &str| x.to_string();
    let word = |r: &mut Rng, w: &str| if r.chance(1, 3) { recase(r, w) } else { w.to_string() };
    let life = |r: &mut Rng| {
        ["0", "1", "2", "60", "86400", "99999", "65536", "16777216", "2147483648", "4294967296", "10000000000", "1099511627776", "1000000000000000", "9007199254740992", "1152921504606846976", "4611686018427387904", "9223372036854775807", "-1", "0007", "1.0"][r.below(20) as usize].to_string()
    };
    let ty = |r: &mut Rng| r.pick(&TYPES).to_string();
    let mut out = vec![];
    match r.below(12) {
        0 | 1 => {
            let w = *r.pick(&["get", "try_get", "ex", "del", "type", "vpop", "vlen", "mlen"]);
            out.push(word(r, w));
            out.push(name(r));
        }
        2..=6 => {
            let w = *r.pick(&["set", "set", "try_set", "upd"]);
            out.push(word(r, w));
            out.push(name(r));
            match r.below(10) {
                0 => return out,
                1 => {
                    let t = ty(r);
                    out.push(word(r, &t));
                    return out;
                }
                2 => {
                    out.push(ty(r));
                    out.push(ty(r));
                }
                3 | 4 => {
                    let t = ty(r);
                    out.push(word(r, &t));
                    out.push(s("["));
                    let m = r.below(n);
                    for i in 0..m {
                        if i > 0 {
                            out.push(s(","));
                        }
                        let e = if r.chance(1, 40) { ty(r) } else { t.clone() };
                        out.push(rand_lit(r, &e));
                    }
                    out.push(s("]"));
                }
                5 | 6 => {
                    let k = r.pick(&["int", "str"]).to_string();
                    let t = ty(r);
                    out.push(word(r, &k));
                    out.push(word(r, &t));
                    out.push(s("{"));
                    let m = r.below(n);
                    for i in 0..m {
                        if i > 0 {
                            out.push(s(","));
                        }
                        let a = if r.chance(1, 40) { ty(r) } else { k.clone() };
                        let e = if r.chance(1, 40) { ty(r) } else { t.clone() };
                        out.push(if a == "int" && r.chance(1, 2) { r.below(3).to_string() } else { rand_lit(r, &a) });
                        out.push(s(":"));
                        out.push(rand_lit(r, &e));
                    }
                    out.push(s("}"));
                }
                _ => {
                    let t = ty(r);
                    out.push(rand_lit(r, &t));
                }
            }
            if r.chance(1, 3) {
                out.push(life(r));
            }
        }
        7 => {
            out.push(word(r, "vget"));
            out.push(name(r));
            out.push(r.pick(&["0", "1", "2", "9223372036854775807", "-1", "00", "999999999", "18446744073709551616"]).to_string());
        }
        8 => {
            let t = ty(r);
            out.push(word(r, "vset"));
            out.push(name(r));
            out.push(r.below(3).to_string());
            out.push(rand_lit(r, &t));
        }
        9 => {
            let t = ty(r);
            out.push(word(r, "vpush"));
            out.push(name(r));
            out.push(rand_lit(r, &t));
        }
        10 => {
            let w = *r.pick(&["mget", "mdel", "mex"]);
            let t = if r.chance(1, 15) { ty(r) } else { r.pick(&["int", "str"]).to_string() };
            out.push(word(r, w));
            out.push(name(r));
            out.push(rand_lit(r, &t));
        }
        _ => {
            let k = r.pick(&["int", "str"]).to_string();
            let t = ty(r);
            out.push(word(r, "mset"));
            out.push(name(r));
            out.push(rand_lit(r, &k));
            out.push(rand_lit(r, &t));
        }
    }
    out
}

fn join(r: &mut Rng, toks: &[String]) -> String {
    let mut t = String::new();
    if r.chance(1, 5) {
        t.push_str(r.pick(WS));
    }
    for (i, x) in toks.iter().enumerate() {
        t.push_str(x);
        let next = toks.get(i + 1).map(|s| &s[..]).unwrap_or("");
        let tight = [";", ",", ":", "[", "]", "{", "}"].contains(&&x[..]) || [";", ",", ":", "]", "}", ""].contains(&next);
        if !tight || r.chance(1, 3) {
            t.push_str(if r.chance(4, 5) { " " } else { r.pick(WS) });
        }
    }
    t
}

/// Writing literals and reading them back, nothing else.
fn lit_query(r: &mut Rng, names: &[String]) -> String {
    const N: &[&str] = &["a", "b", "ab", "a_", "_a", "a1", "a01", "é", "e", "ß", "ss", "å", "a²", "a٣", "k", "中"];
    let name = |r: &mut Rng| if names.is_empty() { r.pick(N).to_string() } else { r.pick(names).clone() };
    let k = name(r);
    let t = *r.pick(&TYPES);
    let kt = *r.pick(&["int", "str"]);
    let n = if r.chance(1, 40) { 40 } else { r.below(4) };
    let toks: Vec<String> = match r.below(10) {
        0 | 1 => vec!["set".into(), k.clone(), rand_lit(r, t)],
        2 => {
            let mut v = vec!["set".to_string(), k.clone(), t.to_string(), "[".into()];
            for i in 0..n {
                if i > 0 {
                    v.push(",".into());
                }
                v.push(rand_lit(r, t));
            }
            v.push("]".into());
            v
        }
        3 => {
            let mut v = vec!["set".to_string(), k.clone(), kt.to_string(), t.to_string(), "{".into()];
            for i in 0..n {
                if i > 0 {
                    v.push(",".into());
                }
                v.push(rand_lit(r, kt));
                v.push(":".into());
                v.push(rand_lit(r, t));
            }
            v.push("}".into());
            v
        }
        4 => vec!["mset".into(), k.clone(), rand_lit(r, kt), rand_lit(r, t)],
        5 => vec!["mget".into(), k.clone(), rand_lit(r, kt)],
        6 => vec!["vpush".into(), k.clone(), rand_lit(r, t)],
        7 => vec!["upd".into(), k.clone(), rand_lit(r, t)],
        _ => vec!["get".into(), k.clone()],
    };
    let mut text = join(r, &toks);
    if r.chance(1, 2) {
        let g = if r.chance(1, 3) { name(r) } else { k };
        text.push_str("; get ");
        text.push_str(&g);
    }
    text
}

/// Texts of unusual length: names, literals, collections, white space, numbers of commands.
fn large_query(r: &mut Rng) -> String {
    let n = crate::hist::edge(r, 15, 3000) as usize;
    let small = n.min(1100);
    let name: String = {
        let c = *r.pick(&["a", "Z", "é", "名", "_", "x1"]);
        format!("n{}{}", c.repeat(r.below(1 + n as u64) as usize / c.len()), r.below(10))
    };
    let mut t = match r.below(11) {
        0 => format!("set {} 1; get {}", name, recase(r, &name)),
        1 | 2 => {
            let c = *r.pick(&["x", " ", "\\n", "\\\"", "\\\\", "é", "名", "\u{1F600}", "Q;", "]"]);
            let x = c.repeat(2 * n / c.len());
            match r.below(3) {
                0 => format!("set k \"{}{}\"", x, r.below(10)),
                1 => format!("mset k \"{}y\" \"{}\"", x, x),
                _ => format!("set k str [\"{}\", \"{}z\"] 60", x, x),
            }
        }
        3 | 4 => {
            let t = *r.pick(&TYPES);
            let es: Vec<String> = (0..small).map(|_| if t == "str" { format!("\"{}\"", r.below(50)) } else if t == "float" { format!("{}.5", r.below(50)) } else { rand_lit(r, t) }).collect();
            format!("{} k {} [{}]{}", r.pick(&["set", "try_set", "upd"]), t, es.join(", "), r.pick(&["", " 7", ";", " 86400"]))
        }
        5 | 6 => {
            let kt = *r.pick(&["int", "str"]);
            let es: Vec<String> = (0..small / 2)
                .map(|i| {
                    let j = if r.chance(1, 9) { r.below(small as u64) as usize } else { i };
                    if kt == "int" { format!("{}: {}", j, i) } else { format!("\"e{}\" :{}", j, i) }
                })
                .collect();
            format!("set k {} int {{{}}}{}", kt, es.join(","), r.pick(&["", " 7", ";"]))
        }
        7 => {
            let mut v = vec![];
            for i in 0..small {
                v.push(match r.below(4) {
                    0 => format!("get k{}", i),
                    1 => format!("vpush k{} {}", i, i),
                    2 => format!("set k \"{}\" {}", i, i),
                    _ => "ex k".to_string(),
                });
            }
            v.join(*r.pick(&[";", " ", "; ", "\n", ";;"]))
        }
        8 => {
            let w: String = (0..n).map(|_| *r.pick(&[' ', ' ', '\n', '\t', '\u{a0}', '\u{2003}'])).collect();
            match r.below(3) {
                0 => format!("{}get k", w),
                1 => format!("get k{}", w),
                _ => format!("set{}k{}1", w, w),
            }
        }
        9 => format!("{}get k{}", ";".repeat(n), "; ".repeat(small)),
        _ => {
            let z = "0".repeat(small.min(400));
            match r.below(5) {
                0 => format!("set k {}7 {}9", z, z),
                1 => format!("set k -{}9223372036854775808", z),
                2 => format!("set k {}9223372036854775808", z),
                3 => format!("set k {}0.5{}", z, z),
                _ => format!("vget k {}3", z),
            }
        }
    };
    if r.chance(1, 5) {
        // damage: usually near the end
        let cs: Vec<char> = t.chars().collect();
        let i = if r.chance(2, 3) { cs.len() - 1 - r.below(cs.len().min(4) as u64) as usize } else { r.below(cs.len() as u64) as usize };
        t = match r.below(3) {
            0 => cs[..i].iter().collect(),
            1 => cs[..i].iter().chain(&cs[i + 1..]).collect(),
            _ => cs[..i].iter().chain(&[*r.pick(&['"', ']', '}', ',', ':', ';', '0', 'x', ' '])]).chain(&cs[i..]).collect(),
        };
    }
    t
}

/// A word of unusual length or make, to stand anywhere.
fn odd_word(r: &mut Rng) -> String {
    let n = crate::hist::edge(r, 1, 300) as usize;
    let pool: Vec<char> = match r.below(4) {
        0 => "abc_".chars().collect(),
        1 => "aé中Å".chars().collect(),
        2 => "xж\u{1F600}y".chars().collect(),
        _ => "é1²Я_".chars().collect(),
    };
    let mut w: String = (0..n).map(|_| *r.pick(&pool)).collect();
    match r.below(8) {
        0 => quote(&w),
        1 => format!("\"{}", w),
        2 => format!("\"{}\"x", w),
        3 => format!("{}{}", "7".repeat(n), if r.chance(1, 2) { "" } else { "é" }),
        4 => format!("-{}", w),
        5 => format!("{}.{}", "1".repeat(n), w),
        6 => {
            w.insert(0, *r.pick(&[':', '#', '\'', '\\', ',', '€']));
            w
        }
        _ => w,
    }
}

/// A command with a long word of many kinds of letters where it does not belong.
pub fn odd_query(r: &mut Rng, names: &[String]) -> String {
    let mut toks = rand_command(r, 3, names);
    let letters: Vec<char> = r.pick(&["aé", "ж", "aaaaé中", "b中", "xÅЯ_", "aß1", "x"]).chars().collect();
    let n = 1 + r.below(90);
    let mut w: String = (0..n).map(|_| *r.pick(&letters)).collect();
    match r.below(6) {
        0 => w = quote(&w),
        1 => w.insert(r.below(2) as usize * w.chars().next().unwrap().len_utf8(), *r.pick(&['"', '#', '-', '1', '\\'])),
        _ => (),
    }
    let i = if r.chance(1, 2) { 0 } else { r.below(toks.len() as u64 + 1) as usize };
    if i < toks.len() && r.chance(1, 2) { toks[i] = w } else { toks.insert(i, w) }
    if r.chance(1, 3) {
        toks.insert(0, format!("get {};", names.get(0).cloned().unwrap_or("a".into())));
    }
    join(r, &toks)
}

/// A query that is nearly QUERY: the same in all but a detail.
pub fn twin(r: &mut Rng, query: &str) -> String {
    let cs: Vec<char> = query.chars().collect();
    let some = |r: &mut Rng, f: &dyn Fn(char) -> bool| -> Option<usize> {
        let at: Vec<usize> = (0..cs.len()).filter(|i| f(cs[*i])).collect();
        if at.is_empty() { None } else { Some(*r.pick(&at)) }
    };
    let put = |i: usize, c: &str| -> String { cs[..i].iter().collect::<String>() + c + &cs[i + 1..].iter().collect::<String>() };
    match r.below(10) {
        0 => query.to_string(),
        1 | 2 => recase(r, query),
        3 => some(r, &|c| c.is_ascii_alphabetic()).map_or(query.into(), |i| put(i, &(if cs[i].is_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() }).to_string())),
        4 | 5 => some(r, &|c| c == ' ').map_or(query.into(), |i| put(i, *r.pick(&["  ", "\t", " \n"]))),
        6 => some(r, &|c| c.is_ascii_digit()).map_or(query.into(), |i| put(i, &r.below(10).to_string())),
        7 => format!("{};", query),
        8 => format!(" {}", query),
        _ => some(r, &|c| c.is_ascii_lowercase()).map_or(query.into(), |i| put(i, *r.pick(&["x", "e", "a"]))),
    }
}

/// A query worth having twins of: what it writes is what it answers.
pub fn telling(r: &mut Rng, k: &str) -> String {
    let n = *r.pick(&[1, 3, 10, 70, 200]);
    let pool: Vec<char> = "abXY zZ  é0 9".chars().collect();
    let s: String = (0..n).map(|_| *r.pick(&pool)).collect();
    match r.below(4) {
        0 => format!("set {} \"{}\"; get {}", k, s, k),
        1 => format!("set {} str [\"{}\", \"end\"]; get {}", k, s, k),
        2 => format!("set {} str int {{\"{}\": 17}}; get {}", k, s, k),
        _ => format!("set {} 4711 1000; upd {} \"{}\"; try_get {}", k, k, s, k),
    }
}

pub fn rand_query(r: &mut Rng, names: &[String], mode: &str) -> String {
    if mode == "large" {
        return large_query(r);
    }
    if mode == "lits" {
        return lit_query(r, names);
    }
    if r.chance(1, 12) {
        return odd_query(r, names);
    }
    let mut toks = vec![];
    let m = match r.below(10) {
        0 => 0,
        1 => 2 + r.below(5),
        2..=4 => 2,
        _ => 1,
    };
    let n = if r.chance(1, 30) { 60 } else { 5 };
    for i in 0..m {
        if i > 0 && r.chance(9, 10) {
            for _ in 0..1 + r.below(2) {
                toks.push(";".to_string());
            }
        }
        toks.extend(rand_command(r, n, names));
    }
    if r.chance(1, 4) {
        toks.push(";".into());
    }
    if r.chance(1, 80) {
        toks.push("shutdown".into());
    }
    if r.chance(1, 6) && !toks.is_empty() {
        // token-level damage
        for _ in 0..1 + r.below(2) {
            let i = r.below(toks.len() as u64) as usize;
            match r.below(4) {
                0 => {
                    toks.remove(i);
                }
                1 => {
                    let x = toks[i].clone();
                    toks.insert(i, x);
                }
                2 => toks[i] = r.pick(SAMPLES).to_string(),
                _ => {
                    let j = r.below(toks.len() as u64) as usize;
                    toks.swap(i, j)
                }
            }
            if toks.is_empty() {
                break;
            }
        }
    }
    if r.chance(1, 12) {
        let i = r.below(toks.len() as u64 + 1) as usize;
        let w = odd_word(r);
        if i < toks.len() && r.chance(2, 3) { toks[i] = w } else { toks.insert(i, w) }
    }
    let mut t = join(r, &toks);
    if r.chance(1, 5) {
        // character-level damage
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..1 + r.below(3) {
            let i = r.below(c.len() as u64 + 1) as usize;
            let junk: Vec<char> = " \n\";:,[]{}-.0aE_#\\'+\u{0}\u{1F600}é²½٣€«\u{200b}\u{feff}\u{301}\u{7f}".chars().collect();
            match r.below(4) {
                0 if i < c.len() => {
                    c.remove(i);
                }
                1 if i < c.len() => c[i] = *r.pick(&junk),
                2 => c.truncate(i),
                _ => c.insert(i, *r.pick(&junk)),
            }
        }
        t = c.into_iter().collect();
    }
    t
}

/// vh langparse SEED N OUT MODE
pub fn parse(a: &[String]) -> J {
    let n: u64 = a[1].parse().unwrap();
    let mode = &a[3][..];
    let mut r = Rng::new(a[0].parse().unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let mut oks = 0u64;
    writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
    for i in 0..n {
        let t = rand_query(&mut r, &[], mode);
        let o = understand(&t);
        if o["st"] == "ok" {
            oks += 1;
        }
        if i % 50 == 49 {
            writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
        }
        writeln!(out, "{}", ascii(&json!({"kind":"parse","t":cps(&t),"f":hints(&t),"o":o}))).unwrap();
    }
    out.flush().unwrap();
    json!({"texts":n,"understood":oks})
}

fn delta(a: &Proj, b: &Proj) -> J {
    let mut d = vec![];
    let mut ks: Vec<&String> = a.live.keys().chain(b.live.keys()).collect();
    ks.sort();
    ks.dedup();
    for k in ks {
        match (a.live.get(k), b.live.get(k)) {
            (x, Some((v, e))) if x != Some(&(v.clone(), *e)) => d.push(json!({"k":cps(k),"gone":false,"val":cp_val(v),"exp":e})),
            (Some(_), None) => d.push(json!({"k":cps(k),"gone":true})),
            _ => (),
        }
    }
    J::Array(d)
}

/// vh langrun SEED HISTORIES QUERIES OUT MODE: texts run on the interpreter or on the single-threaded server
pub fn run(a: &[String]) -> J {
    let seed: u64 = a[0].parse().unwrap();
    let (nh, nq): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let mode = &a[4][..];
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    shim::virtual_clock();
    let mut n = 0u64;
    let mut kinds: std::collections::BTreeMap<String, u64> = Default::default();
    for h in 0..nh {
        let mut r = Rng::new(seed * 7919 + h);
        let mut names: Vec<String> = vec![];
        for _ in 0..2 + r.below(3) {
            let x = if mode == "lits" {
                r.pick(&["a", "b", "ab", "a_", "_a", "a1", "a01", "é", "e", "ß", "ss", "å", "a²", "a٣", "k", "中"]).to_string()
            } else {
                rand_name(&mut r)
            };
            // the same name in another case is the same key
            if x.is_ascii() && r.chance(1, 2) {
                names.push(recase(&mut r, &x));
            }
            names.push(x);
        }
        let serve = h % 3 == 2;
        let mut now = 0i64;
        shim::set_time(0);
        writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
        let mut local = Local::new(1000, true);
        let mut server = if serve { Some(Serve::new(1000)) } else { None };
        let mut keys: Vec<String> = names.iter().map(|s| s.to_lowercase()).collect();
        keys.sort();
        keys.dedup();
        let mut before = local.inspect(&keys).unwrap();
        for nth in 0..nq {
            if r.chance(1, 8) {
                now += *r.pick(&[1, 999, 1000, 1001, 2000, 60_000]);
                shim::set_time(now * 1_000_000);
                before = local.inspect(&keys).unwrap();
            }
            let mut t = rand_query(&mut r, &names, mode);
            for _ in 0..20 {
                // begin with something stored
                if nth > 3 || mode == "lits" || understand(&t)["cs"][0]["op"] == "set" {
                    break;
                }
                t = rand_query(&mut r, &names, mode);
            }
            let lvl = if r.chance(1, 10) { *r.pick(&["read", "write"]) } else { "admin" };
            // look also at names that damage has made up
            if let Some(cs) = understand(&t)["cs"].as_array() {
                for c in cs {
                    if let Some(k) = c.get("key").map(of_cps) {
                        if !keys.contains(&k) {
                            keys.push(k);
                        }
                    }
                }
            }
            let rep = if let Some(s) = &mut server {
                s.send(Ok(t.clone()), Serve::user(lvl))
            } else {
                let i = &mut local.i;
                match catch_unwind(AssertUnwindSafe(|| run_text(i, &t, level(lvl)))) {
                    Ok(o) => R::from_real(&o, 1000),
                    Err(e) => panic_reply(e),
                }
            };
            let mut e = json!({"kind":"query","now":now,"t":cps(&t),"f":hints(&t),"lvl":lvl,"r":cp_reply(&rep),"blind":serve});
            if !serve {
                let after = local.inspect(&keys).unwrap();
                e["d"] = delta(&before, &after);
                e["len"] = json!(after.len);
                e["trk"] = json!(after.tracked);
                before = after;
            }
            writeln!(out, "{}", ascii(&e)).unwrap();
            n += 1;
            *kinds.entry(match &rep { R::W(w) => w.join(" ").chars().take(40).collect(), R::Val(_) => "value".into(), R::N(k, _) => k.clone() }).or_insert(0) += 1;
            if rep.is_stop() && matches!(&rep, R::W(w) if w[0] == "shutdown") && serve {
                break;
            }
            if matches!(&rep, R::W(w) if ["panic", "no reply", "stopped"].contains(&&w[0][..])) {
                break;
            }
        }
    }
    out.flush().unwrap();
    json!({"histories":nh,"queries":n,"replies":kinds})
}
