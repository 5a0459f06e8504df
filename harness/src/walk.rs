//! Replays the transition graph TLC printed for StoreGen on the real code:
//! every transition once (from a shortest path), then long random walks.
use crate::backend::*;
use crate::rng::Rng;
use crate::shim;
use crate::val::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::BufRead;

pub type State = BTreeMap<String, (V, i64)>;

pub struct Edge {
    pub req: usize,
    pub outs: Vec<(R, usize)>,
}
pub struct Graph {
    pub states: Vec<State>,
    pub reqs: Vec<J>,
    pub edges: Vec<Vec<Edge>>,
    pub keys: Vec<String>,
    pub transitions: usize,
}

fn state(j: &J) -> State {
    j.as_array().unwrap().iter().map(|e| (e["k"].as_str().unwrap().to_string(), (V::from_spec(&e["val"]), e["exp"].as_i64().unwrap()))).collect()
}

pub fn load(path: &str) -> Graph {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("graph file"));
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut rids: HashMap<String, usize> = HashMap::new();
    let mut g = Graph { states: vec![], reqs: vec![], edges: vec![], keys: vec![], transitions: 0 };
    let mut canon: BTreeMap<State, usize> = BTreeMap::new();
    let mut at: Vec<HashMap<usize, usize>> = vec![];
    for line in f.lines() {
        let line = line.unwrap();
        if !line.starts_with("\"[\\\"E\\\"") {
            continue;
        }
        let inner: String = serde_json::from_str(&line).expect("TLC line");
        let j: J = serde_json::from_str(&inner).expect("TLC json");
        let mut sid = |j: &J, g: &mut Graph, at: &mut Vec<HashMap<usize, usize>>| -> usize {
            let t = j.to_string();
            if let Some(i) = ids.get(&t) {
                return *i;
            }
            let s = state(j);
            let i = *canon.entry(s.clone()).or_insert_with(|| {
                g.states.push(s.clone());
                g.edges.push(vec![]);
                at.push(HashMap::new());
                g.states.len() - 1
            });
            ids.insert(t, i);
            i
        };
        let s = sid(&j[1], &mut g, &mut at);
        let d = if j[4] == "=" { s } else { sid(&j[5], &mut g, &mut at) };
        let rt = j[2].to_string();
        let q = *rids.entry(rt).or_insert_with(|| {
            g.reqs.push(j[2].clone());
            g.reqs.len() - 1
        });
        let rep = R::from_spec(&j[3]);
        let ei = *at[s].entry(q).or_insert_with(|| {
            g.edges[s].push(Edge { req: q, outs: vec![] });
            g.edges[s].len() - 1
        });
        let e = &mut g.edges[s][ei];
        if !e.outs.contains(&(rep.clone(), d)) {
            e.outs.push((rep, d));
            g.transitions += 1;
        }
    }
    let mut ks = std::collections::BTreeSet::new();
    for s in &g.states {
        ks.extend(s.keys().cloned());
    }
    g.keys = ks.into_iter().collect();
    g
}

const TPS: i64 = 2;
const TICK: i64 = 500_000_000;

pub struct Walker<'a> {
    g: &'a Graph,
    b: Box<dyn Backend>,
    layer: String,
    now: i64,
    hist: Vec<usize>, // requests since reset (usize::MAX: tick)
    pub steps: u64,
    pub violations: Vec<J>,
    pub kinds: HashMap<String, u64>,
    pub covered: u64,
    pub skipped: u64,
    pub traces: u64,
    pub frac: u64,
}

fn show_state(s: &State) -> J {
    J::Array(s.iter().map(|(k, (v, e))| json!({"k":k,"val":v.to_spec(),"exp":e})).collect())
}

impl<'a> Walker<'a> {
    pub fn new(g: &'a Graph, layer: &str) -> Walker<'a> {
        let b: Box<dyn Backend> = match layer {
            "L1" => Box::new(Local::new(TPS, false)),
            "L2" => Box::new(Local::new(TPS, true)),
            "L3" => Box::new(Serve::new(TPS)),
            _ => panic!("layer"),
        };
        Walker { g, b, layer: layer.into(), now: 0, hist: vec![], steps: 0, violations: vec![], kinds: HashMap::new(), covered: 0, skipped: 0, traces: 0, frac: 1 }
    }
    fn reset(&mut self) {
        self.b.reset();
        self.traces += 1;
        self.now = 0;
        shim::set_time(0);
        shim::f(shim::SEQ).store(0, std::sync::atomic::Ordering::SeqCst);
        self.hist.clear();
    }
    fn same(&mut self, want: &State) -> Result<(), String> {
        match self.b.inspect(&self.g.keys) {
            None => {
                // query-visible part only
                let keys = self.g.keys.clone();
                for k in keys {
                    let live = want.get(&k).filter(|(_, e)| *e == -1 || *e > 0).map(|(v, _)| v.clone());
                    let a = self.b.exec(&json!({"op":"ex","key":k})).unwrap();
                    let v = self.b.exec(&json!({"op":"tryget","key":k})).unwrap();
                    if a != R::W(vec!["bool".into(), if live.is_some() { "true" } else { "false" }.into()]) {
                        return Err(format!("ex {} -> {}", k, a.to_spec()));
                    }
                    let w = R::Val(live.unwrap_or(V::Null));
                    if v != w {
                        return Err(format!("try_get {} -> {} but the specification has {}", k, v.to_spec(), w.to_spec()));
                    }
                }
                Ok(())
            }
            Some(p) => {
                let tracked = want.values().filter(|(_, e)| *e != -1).count() as i64;
                let live: State = want
                    .iter()
                    .filter(|(_, (_, e))| *e == -1 || *e > 0)
                    .map(|(k, (v, e))| (k.clone(), (v.clone(), if *e == -1 { -1 } else { e + self.now })))
                    .collect();
                if p.live != live {
                    return Err(format!("live entries {} expected {}", show_state(&p.live), show_state(&live)));
                }
                if p.len != want.len() as i64 {
                    return Err(format!("len {} expected {}", p.len, want.len()));
                }
                if p.tracked != tracked {
                    return Err(format!("tracked {} expected {}", p.tracked, tracked));
                }
                Ok(())
            }
        }
    }
    fn violation(&mut self, src: usize, req: &J, kind: &str, got: Option<&R>, outs: &[(R, usize)], why: String) {
        let exp: Vec<J> = outs.iter().map(|(r, _)| r.to_spec()).collect();
        let hist: Vec<J> = self.hist.iter().map(|q| if *q == usize::MAX { json!({"op":"tick"}) } else { self.g.reqs[*q].clone() }).collect();
        let tail = if hist.len() > 400 { hist[hist.len() - 400..].to_vec() } else { hist };
        *self.kinds.entry(kind.to_string()).or_insert(0) += 1;
        if self.violations.len() < 400 {
            self.violations.push(json!({"layer": self.layer, "kind": kind, "from": show_state(&self.g.states[src]),
                "request": req, "expected": exp, "got": got.map(|r| r.to_spec()), "why": why, "history": tail}));
        }
    }
    /// Run request `q` from the states the implementation may be in; the states it may
    /// be in afterwards, or None after a mismatch / if inexpressible.
    fn step(&mut self, from: &[usize], q: usize, check: bool) -> Option<Vec<usize>> {
        let g = self.g;
        let req = &g.reqs[q];
        self.steps += 1;
        let mut outs: Vec<(R, usize)> = vec![];
        for s in from {
            for e in g.edges[*s].iter().filter(|e| e.req == q) {
                for o in &e.outs {
                    if !outs.contains(o) {
                        outs.push(o.clone());
                    }
                }
            }
        }
        let src = from[0];
        let r = if req["op"] == "tick" {
            self.now += 1;
            shim::set_time(self.now * TICK);
            self.hist.push(usize::MAX);
            outs[0].0.clone()
        } else {
            match self.b.exec(req) {
                Some(r) => {
                    self.hist.push(q);
                    r
                }
                None => {
                    self.skipped += 1;
                    return None;
                }
            }
        };
        let cands: Vec<usize> = outs.iter().filter(|(x, _)| *x == r).map(|(_, d)| *d).collect();
        if cands.is_empty() {
            let kind = if matches!(&r, R::W(w) if w[0] == "panic") { "panic" } else { "reply" };
            // did it also change what it must not?
            let unchanged = from.iter().any(|s| self.same(&g.states[*s]).is_ok());
            let kind = if unchanged { kind.to_string() } else { format!("{}-and-state", kind) };
            self.violation(src, req, &kind, Some(&r), &outs, "reply not allowed by the specification".into());
            return None;
        }
        if r == R::W(vec!["shutdown".into()]) && self.layer == "L3" {
            self.b.reset();
            self.hist.clear();
            return None; // the server is gone; the caller starts over
        }
        if !check {
            return Some(cands);
        }
        let mut why = String::new();
        let mut now = vec![];
        for d in cands {
            match self.same(&g.states[d]) {
                Ok(()) => {
                    if !now.contains(&d) {
                        now.push(d)
                    }
                }
                Err(w) => why = w,
            }
        }
        if !now.is_empty() {
            return Some(now);
        }
        let kind = if r.is_err() || (req["op"] == "tryset" && r == R::W(vec!["bool".into(), "false".into()])) { "state-after-failure" } else { "state" };
        self.violation(src, req, kind, Some(&r), &outs, why);
        None
    }
    /// Every transition of the graph, each from a fresh instance driven along a shortest path.
    pub fn cover(&mut self, rng: &mut Rng, deadline: std::time::Instant) -> bool {
        let g = self.g;
        let n = g.states.len();
        let mut par: Vec<Option<(usize, usize)>> = vec![None; n];
        let mut seen = vec![false; n];
        let mut q = VecDeque::new();
        seen[0] = true;
        q.push_back(0);
        while let Some(s) = q.pop_front() {
            for (i, e) in g.edges[s].iter().enumerate() {
                if e.outs.len() != 1 {
                    continue;
                }
                let c = &g.reqs[e.req];
                if c["op"] != "tick" && self.layer == "L3" {
                    let (cs, _) = commands(c);
                    if request_text(&cs, TPS, 0).is_none() || e.outs[0].0 == R::W(vec!["shutdown".into()]) {
                        continue;
                    }
                }
                let d = e.outs[0].1;
                if !seen[d] {
                    seen[d] = true;
                    par[d] = Some((s, i));
                    q.push_back(d);
                }
            }
        }
        for s in 0..n {
            if !seen[s] {
                continue;
            }
            let mut path = vec![];
            let mut x = s;
            while let Some((p, i)) = par[x] {
                path.push((p, i));
                x = p;
            }
            path.reverse();
            let mut fresh = false;
            for e in &g.edges[s] {
                if self.violations.len() >= 400 || std::time::Instant::now() > deadline {
                    return false;
                }
                if self.frac > 1 && rng.below(self.frac) > 0 {
                    continue;
                }
                if !fresh {
                    self.reset();
                    let mut ok = true;
                    for (p, i) in &path {
                        if self.step(&[*p], g.edges[*p][*i].req, false).is_none() {
                            ok = false;
                            break;
                        }
                    }
                    if !ok {
                        break;
                    }
                }
                self.covered += 1;
                fresh = self.step(&[s], e.req, true) == Some(vec![s]);
            }
        }
        true
    }
    pub fn random(&mut self, rng: &mut Rng, walks: u64, len: u64, deadline: std::time::Instant) {
        let g = self.g;
        for _ in 0..walks {
            if self.violations.len() >= 400 || std::time::Instant::now() > deadline {
                return;
            }
            self.reset();
            let mut at = vec![0usize];
            for _ in 0..len {
                let s = *rng.pick(&at);
                let es = &g.edges[s];
                // prefer transitions that move
                let mut e = rng.pick(es);
                for _ in 0..2 {
                    if e.outs.iter().any(|(_, d)| *d != s) {
                        break;
                    }
                    e = rng.pick(es);
                }
                let q = e.req;
                if at.iter().any(|x| !g.edges[*x].iter().any(|e| e.req == q)) {
                    continue;
                }
                let before = self.violations.len();
                match self.step(&at, q, true) {
                    Some(d) => at = d,
                    None if self.violations.len() > before => break,
                    None if self.hist.is_empty() => at = vec![0],
                    None => (),
                }
            }
        }
    }
}

/// vh walk GRAPH LAYER SEED WALKS LEN SECONDS [FRACTION]
pub fn main(a: &[String]) -> J {
    let g = load(&a[0]);
    shim::virtual_clock();
    let mut w = Walker::new(&g, &a[1]);
    let mut rng = Rng::new(a[2].parse().unwrap());
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a[5].parse().unwrap());
    w.frac = a.get(6).map(|x| x.parse().unwrap()).unwrap_or(1);
    let complete = w.cover(&mut rng, deadline);
    let secs: u64 = a[5].parse().unwrap();
    let deadline = deadline + std::time::Duration::from_secs(secs / 2);
    w.random(&mut rng, a[3].parse().unwrap(), a[4].parse().unwrap(), deadline);
    let sample: Vec<J> = w.hist.iter().take(8).map(|q| if *q == usize::MAX { json!({"op":"tick"}) } else { g.reqs[*q].clone() }).collect();
    json!({"states": g.states.len(), "transitions": g.transitions, "covered": w.covered, "skipped": w.skipped, "traces": w.traces,
           "complete": complete, "steps": w.steps, "violations": w.violations, "kinds": w.kinds, "sample": sample})
}
