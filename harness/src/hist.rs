//! Random histories with rich parameters on the real code, recorded event by
//! event (request, reply, change of the visible store, bookkeeping counts) for
//! StoreTrace.tla to judge.
use crate::backend::*;
use crate::rng::Rng;
use crate::shim;
use crate::val::*;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::Write;

pub const TPS: i64 = 1000;

pub fn rand_string(r: &mut Rng) -> String {
    let pool: &[char] = &[
        'a', 'b', 'Z', 'Q', '0', '9', ' ', '_', '-', '.', ',', ':', ';', '{', '}', '[', ']', '"', '\\', '\'', '\n', '\r', '\t', '/', '#', 'é',
        'ß', 'İ', 'Σ', '中', '\u{1F600}', '\u{0}', '\u{7f}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{10ffff}',
    ];
    match r.below(12) {
        0 => String::new(),
        1 => ["true", "null", "Null", "int", "SET", "1", "1.5", "none", "a\\nb", "\\", "\"\"", "Ok"][r.below(12) as usize].to_string(),
        2 => {
            let n = 50 + r.below(300);
            (0..n).map(|_| *r.pick(pool)).collect()
        }
        3 => "x".repeat(r.below(200) as usize),
        _ => {
            let n = r.below(9);
            (0..n).map(|_| *r.pick(pool)).collect()
        }
    }
}
pub fn rand_int(r: &mut Rng) -> i64 {
    const SPECIAL: &[i64] = &[
        0, 1, -1, 2, 7, 9, 10, 63, 64, 99, 100, 127, 128, 255, 256, 1000, 32767, 65535, 65536, i32::MAX as i64, i32::MIN as i64, 1 << 31, 1 << 32, 1 << 53,
        (1 << 53) + 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, -42,
    ];
    match r.below(3) {
        0 => r.below(5) as i64,
        1 => *r.pick(SPECIAL),
        _ => r.next() as i64 >> r.below(64),
    }
}
pub fn rand_float(r: &mut Rng) -> f32 {
    loop {
        let f = match r.below(4) {
            0 => *r.pick(&[0.0f32, -0.0, 0.5, 1.5, 0.1, -2.25, 1e10, 3.4e38, 1e-38, 1.0e-45, f32::MAX, f32::MIN_POSITIVE, 16777216.0, 1.0]),
            1 => r.below(1000) as f32 / 10.0,
            2 => (r.next() as i64 >> 40) as f32 / 128.0,
            _ => f32::from_bits(r.next() as u32),
        };
        if f.is_finite() {
            return f;
        }
    }
}
pub fn rand_scalar(r: &mut Rng, t: &str) -> V {
    match t {
        "bool" => sc("bool", if r.chance(1, 2) { "true" } else { "false" }),
        "int" => sc("int", &rand_int(r).to_string()),
        "float" => sc("float", &fmt_f32(rand_float(r))),
        _ => sc("str", &rand_string(r)),
    }
}
pub const TYPES: [&str; 4] = ["bool", "int", "float", "str"];
fn size(r: &mut Rng, big: u64) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => big,
        2 => r.below(big + 1),
        _ => r.below(5),
    }
}
pub fn rand_val(r: &mut Rng, big: u64) -> V {
    match r.below(10) {
        0 => V::Null,
        1..=4 => {
            let t = *r.pick(&TYPES);
            rand_scalar(r, t)
        }
        5..=7 => {
            let t = *r.pick(&TYPES);
            let n = size(r, big);
            V::Vec(t.into(), (0..n).map(|_| rand_scalar(r, t)).collect())
        }
        _ => {
            let t = *r.pick(&TYPES);
            let k = *r.pick(&["int", "str"]);
            let n = size(r, big);
            V::Map(k.into(), t.into(), (0..n).map(|_| (rand_scalar(r, k), rand_scalar(r, t))).collect())
        }
    }
}

struct Gen {
    keys: Vec<String>,
    profile: String,
    big: u64,
}

impl Gen {
    fn life(&self, r: &mut Rng) -> i64 {
        let none = if self.profile == "kv" { 9 } else { 3 };
        if r.below(10) < none {
            return -1;
        }
        match r.below(12) {
            0 => 0,
            1 | 2 => 1000,
            3 | 4 => 2000,
            5 => 5000,
            6 => 60_000,
            7 => 1000 * r.below(100) as i64,
            8 => 86_400_000,
            9 => 149_999_000,
            10 => -2,
            _ => {
                let j = 1 + r.below(ANCHORS.len() as u64) as i64;
                j * ANCHOR_STEP + 1000 * (r.below(7) as i64 - 3)
            }
        }
    }
    fn cmd(&self, r: &mut Rng, p: &Proj) -> J {
        let k = r.pick(&self.keys).clone();
        let cur = p.live.get(&k).map(|(v, _)| v.clone());
        let w: u64 = match &self.profile[..] {
            "kv" => *r.pick(&[0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 9, 7]),
            "life" => *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 5, 6, 6, 6, 7, 7, 8, 8, 9]),
            "index" => *r.pick(&[0, 0, 0, 2, 1, 5, 5, 6, 6, 6, 7, 8]),
            "coll" => *r.pick(&[0, 3, 5, 9, 9, 9, 9, 9, 9, 9, 9, 1, 2, 6]),
            _ => r.below(10),
        };
        match w {
            0 => json!({"op":"set","key":k,"val":rand_val(r, self.big).to_spec(),"life":self.life(r)}),
            1 => json!({"op":"tryset","key":k,"val":rand_val(r, self.big).to_spec(),"life":self.life(r)}),
            2 => json!({"op":"upd","key":k,"val":rand_val(r, self.big).to_spec(),"life":self.life(r)}),
            3 => json!({"op":*r.pick(&["get","get","tryget"]),"key":k}),
            4 => json!({"op":*r.pick(&["ex","type","tryget"]),"key":k}),
            5 => json!({"op":"del","key":k}),
            6 => {
                if r.chance(1, 2) {
                    json!({"op":"getlife","key":k})
                } else {
                    json!({"op":"setlife","key":k,"life":self.life(r)})
                }
            }
            7 => json!({"op":"pass"}),
            8 => json!({"op":"check","key":k}),
            _ => {
                // an element command, usually fitting what is there
                let (vecish, et, kt, n) = match &cur {
                    Some(V::Vec(et, es)) => (true, et.clone(), "int".to_string(), es.len()),
                    Some(V::Map(kt, et, m)) => (false, et.clone(), kt.clone(), m.len()),
                    _ => (r.chance(1, 2), "int".to_string(), "str".to_string(), 2),
                };
                let vecish = if r.chance(1, 20) { !vecish } else { vecish };
                let et = if r.chance(1, 8) { r.pick(&TYPES).to_string() } else { et };
                let kt = if r.chance(1, 10) { if r.chance(1, 2) { "int" } else { "str" }.to_string() } else { kt };
                if vecish {
                    let n = n as i64;
                    let i = match r.below(10) {
                        0 => n,
                        1 => n + 1,
                        2 => -1,
                        3 => n - 1,
                        4 => 1_000_000,
                        _ => if n > 0 { r.below(n as u64) as i64 } else { 0 },
                    }
                    .max(-1);
                    match r.below(9) {
                        0 | 1 => json!({"op":"vget","key":k,"i":i}),
                        2 | 3 => json!({"op":"vset","key":k,"i":i,"val":rand_scalar(r,&et).to_spec()}),
                        4 | 5 | 6 => json!({"op":"vpush","key":k,"val":rand_scalar(r,&et).to_spec()}),
                        7 => json!({"op":"vpop","key":k}),
                        _ => json!({"op":"vlen","key":k}),
                    }
                } else {
                    let mk = match &cur {
                        Some(V::Map(_, _, m)) if !m.is_empty() && r.chance(2, 3) => {
                            m.keys().nth(r.below(m.len() as u64) as usize).unwrap().clone()
                        }
                        _ => rand_scalar(r, &kt),
                    };
                    let mk = mk.to_spec();
                    match r.below(8) {
                        0 | 1 => json!({"op":"mget","key":k,"mk":mk}),
                        2 | 3 | 4 => json!({"op":"mset","key":k,"mk":mk,"val":rand_scalar(r,&et).to_spec()}),
                        5 => json!({"op":"mdel","key":k,"mk":mk}),
                        6 => json!({"op":"mex","key":k,"mk":mk}),
                        _ => json!({"op":"mlen","key":k}),
                    }
                }
            }
        }
    }
}

fn delta(a: &Proj, b: &Proj) -> J {
    let mut d = vec![];
    let mut ks: Vec<&String> = a.live.keys().chain(b.live.keys()).collect();
    ks.sort();
    ks.dedup();
    for k in ks {
        match (a.live.get(k), b.live.get(k)) {
            (x, Some((v, e))) if x != Some(&(v.clone(), *e)) => d.push(json!({"k":k,"gone":false,"val":v.to_spec(),"exp":e})),
            (Some(_), None) => d.push(json!({"k":k,"gone":true})),
            _ => (),
        }
    }
    J::Array(d)
}

fn life_ticks(c: &J) -> i64 {
    c["life"].as_i64().unwrap_or(-1)
}

/// vh hist PROFILE SEED HISTORIES EVENTS OUT.ndjson
pub fn main(a: &[String]) -> J {
    let profile = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let (nh, ne): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[4]).unwrap());
    shim::virtual_clock();
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    let mut events = 0u64;
    for h in 0..nh {
        let mut r = Rng::new(seed * 1000 + h);
        let text = h % 2 == 1;
        let pool: Vec<String> = if text {
            ["a", "b", "_", "_1", "clé", "x9_", "заметка", "名前", "looooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong", "e", "f2", "ab"]
        } else {
            ["a", "A", "", " b", "with space", "semi;colon", "\"q\"", "clé", "名前", "looooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong", "e", "f"]
        }
        .iter()
        .map(|s| s.to_string())
        .collect();
        let nk = 2 + r.below(pool.len() as u64 - 1) as usize;
        let mut pool = pool;
        for i in (1..pool.len()).rev() {
            pool.swap(i, r.below(i as u64 + 1) as usize);
        }
        let g = Gen { keys: pool[..nk].to_vec(), profile: profile.clone(), big: if h % 8 == 0 { 120 } else { 12 } };
        let mut b = Local::new(TPS, text);
        b.style = h;
        let mut now = 0i64;
        shim::set_time(0);
        shim::f(shim::SEQ).store(0, std::sync::atomic::Ordering::SeqCst);
        writeln!(out, "{}", json!({"kind":"reset","h":h})).unwrap();
        let mut before = b.inspect(&g.keys).unwrap();
        let mut n = 0;
        while n < ne {
            // let time pass
            if r.chance(1, if profile == "kv" { 40 } else { 5 }) && now < 30_000_000 {
                let dl: Vec<i64> = before.live.values().map(|x| x.1).filter(|e| *e > now && *e < 40_000_000).collect();
                let j = match r.below(8) {
                    0 => 1,
                    1 => 499,
                    2 => 1000,
                    3 => 999,
                    _ if !dl.is_empty() => (*r.pick(&dl) - now + r.below(3) as i64 - 1).max(0),
                    _ => r.below(3000) as i64,
                };
                now += j;
                shim::set_time(now * 1_000_000);
                before = b.inspect(&g.keys).unwrap();
            }
            let lvl = if r.chance(1, 12) { *r.pick(&["read", "write"]) } else { "admin" };
            let m = match (&profile[..], r.below(10)) {
                ("batch", 0) => 0,
                ("batch", 1) => 5 + r.below(60),
                ("batch", _) => 1 + r.below(5),
                (_, 0) => 2 + r.below(3),
                _ => 1,
            };
            let mut cs = vec![];
            for _ in 0..m {
                let mut c = g.cmd(&mut r, &before);
                if m > 1 && c["op"] == "check" {
                    c = json!({"op":"null"});
                }
                if profile == "batch" {
                    // keep most of the batch from failing early
                    if r.chance(1, 60) {
                        c = json!({"op":"shutdown"});
                    } else if r.chance(2, 3) {
                        let k = r.pick(&g.keys).clone();
                        c = match r.below(4) {
                            0 => json!({"op":"tryget","key":k}),
                            1 => json!({"op":"tryset","key":k,"val":rand_val(&mut r, 3).to_spec(),"life":-1}),
                            2 => json!({"op":"del","key":k}),
                            _ => json!({"op":"set","key":k,"val":rand_val(&mut r, 3).to_spec(),"life":g.life(&mut r).max(-1)}),
                        };
                    }
                }
                if life_ticks(&c) == -9 {
                    continue;
                }
                cs.push(c);
            }
            for c in &cs {
                *ops.entry(c["op"].as_str().unwrap().to_string()).or_insert(0) += 1;
            }
            let rep = b.exec(&json!({"cs":cs,"lvl":lvl})).unwrap();
            let after = b.inspect(&g.keys).unwrap();
            writeln!(
                out,
                "{}",
                ascii(&json!({"kind":"run","now":now,"cs":cs,"lvl":lvl,"r":rep.to_spec(),"d":delta(&before,&after),"len":after.len,"trk":after.tracked}))
            )
            .unwrap();
            before = after;
            events += 1;
            n += 1;
            if matches!(&rep, R::W(w) if w[0] == "panic") {
                break;
            }
        }
        // in the end everything with a lifetime elapses, and repeated passes remove it all
        if now < 40_000_000 && h % 4 == 3 {
            // with some keys still alive: many passes, after which nothing elapsed may be left
            // (each pass looks at one of at most 12 tracked keys: missing one 2500 times in a
            // row has probability below e-200)
            if r.chance(1, 2) {
                now += 1000 * r.below(120) as i64;
                shim::set_time(now * 1_000_000);
            }
            let mut before = b.inspect(&g.keys).unwrap();
            for t in 0..2500 {
                let rep = b.exec(&json!({"op":"pass"})).unwrap();
                if rep != R::N("size".into(), 0) || t % 500 == 0 {
                    let after = b.inspect(&g.keys).unwrap();
                    writeln!(out, "{}", ascii(&json!({"kind":"run","now":now,"cs":[{"op":"pass"}],"lvl":"admin","r":rep.to_spec(),"d":delta(&before,&after),"len":after.len,"trk":after.tracked}))).unwrap();
                    events += 1;
                    before = after;
                }
                if matches!(&rep, R::W(w) if w[0] == "panic") {
                    break;
                }
            }
            let end = b.inspect(&g.keys).unwrap();
            writeln!(out, "{}", json!({"kind":"drained","now":now,"len":end.len,"trk":end.tracked})).unwrap();
            events += 1;
        } else if now < 40_000_000 && r.chance(2, 3) {
            let far = before.live.values().any(|x| x.1 > 100_000_000);
            let last = before.live.values().map(|x| x.1).filter(|e| *e < 190_000_000).max().unwrap_or(now).max(now);
            if !far && last < 190_000_000 {
                shim::set_time(last * 1_000_000);
                let mut quiet = 0;
                let mut tries = 0;
                let mut before = b.inspect(&g.keys).unwrap();
                while tries < 4000 && quiet < 200 {
                    tries += 1;
                    let rep = b.exec(&json!({"op":"pass"})).unwrap();
                    let after = b.inspect(&g.keys).unwrap();
                    quiet = if rep == R::N("size".into(), 0) { quiet + 1 } else { 0 };
                    if quiet == 0 || tries < 3 {
                        writeln!(out, "{}", ascii(&json!({"kind":"run","now":last,"cs":[{"op":"pass"}],"lvl":"admin","r":rep.to_spec(),"d":delta(&before,&after),"len":after.len,"trk":after.tracked}))).unwrap();
                        events += 1;
                    }
                    before = after;
                }
                // after 200 passes in a row that found nothing, nothing elapsed may be left
                writeln!(out, "{}", json!({"kind":"drained","now":last,"len":before.len,"trk":before.tracked})).unwrap();
                events += 1;
            }
        }
    }
    out.flush().unwrap();
    json!({"histories": nh, "events": events, "ops": ops})
}

// --- histories of unusual size, for ScaleTrace.tla ----------------------------
struct Scale<'a> {
    out: &'a mut dyn Write,
    b: Local,
    keys: Vec<String>,
    now: i64,
    before: Proj,
    events: u64,
    crashed: bool,
}
impl Scale<'_> {
    fn at(&mut self, now: i64) {
        self.now = now;
        shim::set_time(now * 1_000_000);
        self.before = self.b.inspect(&self.keys).unwrap();
    }
    fn run(&mut self, cs: Vec<J>, lvl: &str) -> R {
        let rep = self.b.exec(&json!({"cs":cs,"lvl":lvl})).unwrap();
        self.note(&cs, lvl, &rep);
        rep
    }
    fn note(&mut self, cs: &[J], lvl: &str, rep: &R) {
        let after = self.b.inspect(&self.keys).unwrap();
        let e = json!({"kind":"run","now":self.now,"cs":cs,"lvl":lvl,"r":rep.to_spec(),"d":delta(&self.before,&after),"len":after.len,"trk":after.tracked});
        writeln!(self.out, "{}", ascii(&e)).unwrap();
        self.before = after;
        self.events += 1;
        self.crashed |= matches!(rep, R::W(w) if w[0] == "panic");
    }
    /// passes until `quiet` in a row found nothing; then nothing elapsed may be held
    fn drain(&mut self, quiet: u64) {
        let mut q = 0;
        while q < quiet && !self.crashed {
            let rep = self.b.exec(&json!({"op":"pass"})).unwrap();
            if rep == R::N("size".into(), 0) {
                q += 1;
                if q > 2 {
                    continue;
                }
            } else {
                q = 0;
            }
            self.note(&[json!({"op":"pass"})], "admin", &rep);
        }
        let end = self.b.inspect(&self.keys).unwrap();
        writeln!(self.out, "{}", json!({"kind":"drained","now":self.now,"len":end.len,"trk":end.tracked})).unwrap();
        self.events += 1;
    }
}

/// lengths at and next to the sizes at which buffers and counters tend to end
pub fn edge(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    loop {
        let n = match r.below(6) {
            0 => lo + r.below(hi - lo + 1),
            1 => *r.pick(&[100, 200, 500, 1000, 1500, 2000, 3000, 5000, 10_000, 20_000, 50_000, 100_000, 150_000]) + r.below(3) - 1,
            _ => (1u64 << (4 + r.below(14))) + r.below(3) - 1,
        };
        if n >= lo && n <= hi {
            return n;
        }
    }
}
fn long_string(r: &mut Rng, n: u64) -> String {
    let c = *r.pick(&['x', 'Q', 'é', '中', ' ', '\\', '"', '\u{1F600}']);
    let mut s: String = (0..n.saturating_sub(2)).map(|_| c).collect();
    while (s.chars().count() as u64) < n {
        s.push(*r.pick(&['y', 'z', '\n', '"', 'W']));
    }
    s
}
fn lit(n: u64) -> V {
    sc("int", &n.to_string())
}

/// vh scale KIND SEED HISTORIES OUT.ndjson
pub fn scale(a: &[String]) -> J {
    let kind = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let nh: u64 = a[2].parse().unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    shim::virtual_clock();
    let mut events = 0;
    for h in 0..nh {
        let mut r = Rng::new(seed * 7919 + h);
        let text = r.chance(1, 2);
        let mut b = Local::new(TPS, text);
        b.style = h;
        shim::set_time(0);
        shim::f(shim::SEQ).store(0, std::sync::atomic::Ordering::SeqCst);
        writeln!(out, "{}", json!({"kind":"reset","h":h})).unwrap();
        let mut s = Scale { out: &mut out, b, keys: vec![], now: 0, before: Proj { live: BTreeMap::new(), len: 0, tracked: 0 }, events: 0, crashed: false };
        match &kind[..] {
            "keys" | "lives" => keys_history(&mut s, &mut r, kind == "lives"),
            "names" => names_history(&mut s, &mut r),
            "coll" => coll_history(&mut s, &mut r),
            _ => batch_history(&mut s, &mut r),
        }
        events += s.events;
    }
    out.flush().unwrap();
    json!({"histories": nh, "events": events})
}

/// very many keys at once
fn keys_history(s: &mut Scale, r: &mut Rng, lives: bool) {
    let n = if lives { *r.pick(&[150, 300, 600]) } else { *r.pick(&[300, 1100, 2200]) };
    s.keys = (0..n).map(|i| format!("k{}", i)).collect();
    s.at(0);
    let mut g = Gen { keys: s.keys.clone(), profile: if lives { "index" } else { "kv" }.into(), big: 3 };
    let life = |r: &mut Rng| if lives && r.chance(2, 3) { 1000 * (1 + r.below(20) as i64) } else { -1 };
    let ks = s.keys.clone();
    for part in ks.chunks(100) {
        let cs = part.iter().map(|k| json!({"op":*r.pick(&["set","tryset"]),"key":k,"val":rand_val(r,2).to_spec(),"life":life(r)})).collect();
        s.run(cs, "write");
    }
    for round in 0..4 {
        // ordinary commands, on a few keys and on any
        for _ in 0..25 {
            g.keys = if r.chance(1, 2) { s.keys.clone() } else { s.keys[..8].to_vec() };
            let c = g.cmd(r, &s.before);
            if life_ticks(&c) == -9 || c["op"] == "check" || s.crashed {
                continue;
            }
            s.run(vec![c], "admin");
        }
        if lives {
            // the lives end a few at a time, and passes run
            let t = s.now + 500 + r.below(6500) as i64;
            s.at(t);
            if round % 2 == 0 {
                for _ in 0..60 {
                    s.run(vec![json!({"op":"pass"})], "admin");
                }
            } else {
                s.drain(40 * n as u64);
            }
        } else {
            let mut cs = vec![];
            for _ in 0..60 {
                let k = r.pick(&s.keys).clone();
                cs.push(match r.below(3) {
                    0 => json!({"op":"del","key":k}),
                    1 => json!({"op":"ex","key":k}),
                    _ => json!({"op":"tryget","key":k}),
                });
            }
            s.run(cs, "write");
        }
        if s.crashed {
            return;
        }
    }
    if lives {
        let t = s.now + 15_000 + r.below(10_000) as i64;
        s.at(t);
        s.drain(40 * n as u64);
    }
}

/// long names which differ in one place only, and long strings
fn names_history(s: &mut Scale, r: &mut Rng) {
    let letters = ['a', 'b', '_', '7', 'é', '名'];
    let mut names: Vec<String> = vec![];
    for _ in 0..6 {
        let n = edge(r, 16, 70_000) as usize;
        let c = *r.pick(&['p', 'ö', '日']);
        let base: Vec<char> = (0..n).map(|_| c).collect();
        names.push(base.iter().collect());
        for at in [n - 1, n / 2, 1] {
            let mut v = base.clone();
            v[at] = *r.pick(&letters);
            names.push(v.iter().collect());
        }
        names.push(base[..n - 1].iter().collect());
    }
    names.sort();
    names.dedup();
    s.keys = names.clone();
    s.at(0);
    for (i, k) in names.iter().enumerate() {
        s.run(vec![json!({"op":*r.pick(&["set","tryset"]),"key":k,"val":lit(i as u64).to_spec(),"life":-1})], "admin");
    }
    for _ in 0..40 {
        let k = r.pick(&names).clone();
        match r.below(8) {
            0 => s.run(vec![json!({"op":"del","key":k})], "admin"),
            1 => s.run(vec![json!({"op":"get","key":k})], "admin"),
            2 => s.run(vec![json!({"op":"ex","key":k})], "admin"),
            3 => {
                let n = edge(r, 16, 100_000);
                let x = long_string(r, n);
                s.run(vec![json!({"op":"upd","key":k,"val":sc("str",&x).to_spec(),"life":-1}), json!({"op":"get","key":k})], "admin")
            }
            4 => {
                let n = edge(r, 16, 70_000);
                let x = long_string(r, n);
                let mut y = x.clone();
                y.pop();
                y.push('#');
                let m = V::Map("str".into(), "str".into(), [(sc("str", &x), sc("str", "x")), (sc("str", &y), sc("str", &x))].into_iter().collect());
                s.run(vec![json!({"op":"set","key":k,"val":m.to_spec(),"life":-1}), json!({"op":"mget","key":k,"mk":sc("str",&x).to_spec()})], "admin")
            }
            5 => s.run(vec![json!({"op":"tryset","key":k,"val":V::Null.to_spec(),"life":60_000})], "admin"),
            6 => s.run(vec![json!({"op":"type","key":k})], "admin"),
            _ => s.run(vec![json!({"op":"vpush","key":k,"val":lit(1).to_spec()})], "admin"),
        };
        if s.crashed {
            return;
        }
    }
}

/// vectors and maps with hundreds and thousands of elements
fn coll_history(s: &mut Scale, r: &mut Rng) {
    s.keys = ["v", "m", "w", "o"].iter().map(|x| x.to_string()).collect();
    s.at(0);
    let n = edge(r, 60, 4200);
    let t = *r.pick(&TYPES);
    s.run(vec![json!({"op":"set","key":"v","val":V::Vec(t.into(), (0..n).map(|_| rand_scalar(r, t)).collect()).to_spec(),"life":-1})], "admin");
    // one that grows from nothing
    let m = edge(r, 60, 1100);
    s.run(vec![json!({"op":"set","key":"w","val":V::Vec("int".into(), vec![]).to_spec(),"life":60_000})], "admin");
    for part in (0..m).collect::<Vec<_>>().chunks(128) {
        let cs = part.iter().map(|i| json!({"op":"vpush","key":"w","val":lit(*i).to_spec()})).collect();
        s.run(cs, "write");
    }
    let kn = edge(r, 60, 1100);
    let kt = *r.pick(&["int", "str"]);
    let key = |i: u64| if kt == "int" { lit(i) } else { sc("str", &format!("e{}", i)) };
    let half = kn / 2;
    s.run(vec![json!({"op":"set","key":"m","val":V::Map(kt.into(), "int".into(), (0..half).map(|i| (key(i), lit(i))).collect()).to_spec(),"life":-1})], "admin");
    for part in (half..kn).collect::<Vec<_>>().chunks(64) {
        let cs = part.iter().map(|i| json!({"op":"mset","key":"m","mk":key(*i).to_spec(),"val":lit(*i).to_spec()})).collect();
        s.run(cs, "write");
    }
    for _ in 0..30 {
        let k = *r.pick(&["v", "w"]);
        let len = match s.before.live.get(k) {
            Some((V::Vec(_, e), _)) => e.len() as i64,
            _ => 0,
        };
        let i = match r.below(6) {
            0 => len,
            1 => len - 1,
            2 => 0,
            3 => (edge(r, 15, 4200)) as i64,
            _ => r.below(len.max(1) as u64) as i64,
        };
        let x = rand_scalar(r, if k == "v" { t } else { "int" }).to_spec();
        let mk = key(r.below(kn + 2)).to_spec();
        let c = match r.below(12) {
            0 | 1 => json!({"op":"vget","key":k,"i":i}),
            2 => json!({"op":"vset","key":k,"i":i,"val":x}),
            3 => json!({"op":"vpop","key":k}),
            4 => json!({"op":"vpush","key":k,"val":x}),
            5 => json!({"op":"vlen","key":k}),
            6 => json!({"op":"mget","key":"m","mk":mk}),
            7 => json!({"op":"mset","key":"m","mk":mk,"val":lit(r.below(9)).to_spec()}),
            8 => json!({"op":"mdel","key":"m","mk":mk}),
            9 => json!({"op":"mlen","key":"m"}),
            10 => json!({"op":"mex","key":"m","mk":mk}),
            _ => json!({"op":*r.pick(&["get","tryget"]),"key":*r.pick(&["v","w","m"])}),
        };
        s.run(vec![c], "admin");
        if s.crashed {
            return;
        }
    }
}

/// requests of hundreds of commands
fn batch_history(s: &mut Scale, r: &mut Rng) {
    s.keys = ["a", "b", "c", "d", "e", "f", "g", "h"].iter().map(|x| x.to_string()).collect();
    s.at(0);
    s.run(vec![json!({"op":"set","key":"a","val":V::Vec("int".into(), vec![]).to_spec(),"life":-1})], "admin");
    for round in 0..8 {
        let n = edge(r, 15, 1100);
        let lvl = *r.pick(&["admin", "admin", "write", "read"]);
        let mut cs = vec![];
        for i in 0..n {
            let k = r.pick(&s.keys[1..]).clone();
            let w = if lvl == "read" { r.below(3) } else { r.below(8) };
            cs.push(match w {
                0 => json!({"op":"tryget","key":k}),
                1 => json!({"op":"ex","key":k}),
                2 => json!({"op":"vlen","key":"a"}),
                3 => json!({"op":"vpush","key":"a","val":lit(i).to_spec()}),
                4 => json!({"op":"del","key":k}),
                5 => json!({"op":"tryset","key":k,"val":lit(i).to_spec(),"life":-1}),
                6 => json!({"op":"set","key":k,"val":lit(i).to_spec(),"life":if r.chance(1, 2) { -1 } else { 60_000 }}),
                _ => json!({"op":"vpop","key":"a"}),
            });
        }
        let at = match r.below(4) {
            0 => n - 1,
            1 => n - 2,
            _ => edge(r, 15, 1100).min(n - 1),
        } as usize;
        match (round + r.below(2)) % 5 {
            0 => (),
            1 => cs[at] = json!({"op":"shutdown"}),
            2 => cs[at] = json!({"op":"get","key":"nothing"}),
            3 => cs[at] = json!({"op":"set","key":"h","val":lit(77).to_spec(),"life":-1}),
            _ => cs[at] = json!({"op":"mlen","key":"a"}),
        }
        let all = s.keys.clone();
        s.keys.push("nothing".into());
        s.run(cs, lvl);
        s.keys = all;
        // a vector that grew is emptied again
        if r.chance(1, 2) {
            s.run(vec![json!({"op":"set","key":"a","val":V::Vec("int".into(), vec![]).to_spec(),"life":-1})], "admin");
        }
        if s.crashed {
            return;
        }
    }
}
