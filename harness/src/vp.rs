//! The stages of the multithreaded server, held apart: behaviours of
//! PipelineGen replayed on the real listeners, analyzers and executor, with
//! the harness deciding when something passes from one stage to the next;
//! and the expiration worker on a channel of its own.
#[allow(dead_code)]
mod rng;
#[allow(dead_code)]
mod val;
use rng::Rng;
use serde_json::{json, Value as J};
use server::analysis::{InterpreterRequest, Statement};
use server::auth::{AuthenticationResult, AuthenticationService, AuthorizationLevel};
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamRequest, StreamSender};
use server::multithreaded::analysis::{AnalysisPool, AnalysisRequest};
use server::multithreaded::executor::{Executor, ExecutorRequest, ExecutorResponse};
use server::multithreaded::expiration::ExpirationWorker;
use server::multithreaded::listener::ListenerPool;
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, Write};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::thread::{self, JoinHandle};
use std::time::{Duration, Instant};
use val::{Outcome, R, V};

const SOON: Duration = Duration::from_secs(15);
/// a listener gives up after a second: past this age nothing is sure
const YOUNG: Duration = Duration::from_millis(800);

struct FakeSender {
    r: usize,
    to: Sender<(usize, Outcome)>,
}
impl StreamSender for FakeSender {
    fn send(&mut self, response: Outcome) -> Result<(), ServerError> {
        let _ = self.to.send((self.r, response));
        // nothing else may depend on whether the client could be told
        if self.r % 3 == 2 {
            return Err(ServerError::NetworkError("the client has gone".into()));
        }
        Ok(())
    }
}
struct FakeHandler {
    rx: Receiver<StreamRequest>,
}
impl StreamHandler for FakeHandler {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        match self.rx.recv() {
            Ok(r) => Some(r),
            Err(_) => {
                thread::sleep(Duration::from_millis(50));
                None
            }
        }
    }
}
/// Decides by a header of its own, or by nothing but the order in which it is asked; the user
/// names are the same for everybody.
struct FakeAuth {
    order: Option<Arc<Mutex<VecDeque<&'static str>>>>,
}
impl AuthenticationService for FakeAuth {
    fn authenticate(&mut self, h: &HashMap<String, String>) -> Result<AuthenticationResult, ServerError> {
        let who = match &self.order {
            Some(o) => o.lock().unwrap().pop_front().unwrap_or_default().to_string(),
            None => h.get("who").cloned().unwrap_or_default(),
        };
        let l = match &who[..] {
            "" => return Err(ServerError::InternalError("no credentials".into())),
            "nobody" => return Ok(AuthenticationResult::Unauthenticated),
            "admin" => Some(AuthorizationLevel::Admin),
            "write" => Some(AuthorizationLevel::Write),
            "read" => Some(AuthorizationLevel::Read),
            _ => None,
        };
        Ok(AuthenticationResult::Authenticated(who, l))
    }
}

/// commands that change nothing the model speaks of and never fail, before others of request R
fn beside(r: usize, who: &str, g: &mut Rng) -> String {
    let mut t = String::new();
    for i in 0..*g.pick(&[0, 0, 0, 0, 1, 1, 2, 2, 3, 5, 20, 70]) {
        let c = match g.below(if who == "read" { 3 } else { 8 }) {
            0 => format!("ex z{}", r),
            1 => format!("try_get z{}", r),
            2 => ";".to_string(),
            3 | 4 => format!("set z{} {}", r, i),
            5 => format!("set y{} str [\"a\"] 4000", r),
            6 => format!("try_set z{} 1", r),
            _ => format!("del z{}", r),
        };
        t.push_str(&c);
        t.push_str("; ");
    }
    t
}

/// a request as sent: its text, who asks, and the error an answer must carry if any
fn request(k: &str, r: usize, g: &mut Rng) -> (String, &'static str, Vec<&'static str>) {
    let wa = *g.pick(&["write", "admin"]);
    let any = *g.pick(&["write", "admin", "read"]);
    let (text, who, errs) = plain(k, r, wa, any, g);
    (format!("{}{}", beside(r, who, g), text), who, errs)
}
fn plain(k: &str, r: usize, wa: &'static str, any: &'static str, g: &mut Rng) -> (String, &'static str, Vec<&'static str>) {
    match k {
        "push" => (format!("vpush v {}; {}get v", r, beside(r, wa, g)), wa, vec![]),
        "peek" => (format!("ex p{}; get v", r), any, vec![]),
        "fail" => (format!("vpush v {}; {}get missing{}", r, beside(r, wa, g), r), wa, vec!["KeyError"]),
        "refused" => match g.below(3) {
            0 => (format!("vpush v {}; get v", r), "read", vec!["AuthorizationError"]),
            1 => (format!("vpush v {}; shutdown", r), "write", vec!["AuthorizationError"]),
            _ => (format!("ex p{}; shutdown", r), "read", vec!["AuthorizationError"]),
        },
        "bad" => {
            let t = match g.below(4) {
                0 => format!("vpush v {}; frobnicate v", r),
                1 => format!("vpush v {}; get \"v", r),
                2 => format!("shutdown now{}", r),
                _ => format!("vpush v {}; vpush v", r),
            };
            (t, any, vec!["ParseError", "TokenizationError", "TypeError"])
        }
        "deny" => {
            let t = if g.chance(1, 2) { format!("vpush v {}; shutdown", r) } else { format!("vpush v {}", r) };
            match g.below(3) {
                0 => (t, "", vec!["InternalError"]),
                1 => (t, "nobody", vec!["AuthenticationError"]),
                _ => (t, "somebody", vec!["AuthorizationError"]),
            }
        }
        _ => (format!("ex p{}; shutdown", r), "admin", vec![]),
    }
}

enum End {
    Fine,
    Unsure(String),
    Wrong(String),
}
use End::*;

struct Held {
    text: String,
    who: &'static str,
    errs: Vec<&'static str>,
    a: Option<AnalysisRequest>,
    e: Option<ExecutorRequest>,
    back: Option<Sender<ExecutorResponse>>,
    mine: Option<Receiver<ExecutorResponse>>,
    reply: Option<ExecutorResponse>,
    taken: Option<Instant>,
    outs: usize,
    /// in a behaviour whose pushes all push the same
    same: bool,
}

fn matches(o: &Outcome, want: &J, h: &Held) -> bool {
    let got = R::from_real(o, 2);
    match want[0].as_str().unwrap() {
        "log" => {
            let es = want[1].as_array().unwrap().iter().map(|x| val::sc("int", &if h.same { "7".to_string() } else { x.to_string() })).collect();
            got == R::Val(V::Vec("int".into(), es))
        }
        "err" => matches!(&got, R::W(w) if w[0] == "err" && h.errs.contains(&&w[1][..])),
        "bye" => got == R::W(vec!["shutdown".into()]),
        "late" => matches!(&got, R::W(w) if w[0] == "err" && w[1] == "InternalError"),
        _ => false,
    }
}
fn shown(o: &Outcome) -> String {
    match o {
        Err(e) => format!("{:?}", e),
        Ok(_) => R::from_real(o, 2).to_spec().to_string(),
    }
}

fn joined(j: &JoinHandle<()>, d: Duration) -> bool {
    let t = Instant::now();
    while !j.is_finished() {
        if t.elapsed() > d {
            return false;
        }
        thread::sleep(Duration::from_millis(2));
    }
    true
}

struct Stage {
    cin: Option<Sender<StreamRequest>>,
    tap1: Receiver<AnalysisRequest>,
    to_an: Sender<AnalysisRequest>,
    tap2: Receiver<ExecutorRequest>,
    to_ex: Sender<ExecutorRequest>,
    seen: Receiver<(usize, Outcome)>,
    seen_tx: Sender<(usize, Outcome)>,
    flag: Arc<AtomicBool>,
    lp: Option<ListenerPool<FakeHandler, FakeAuth>>,
    ap: Option<AnalysisPool>,
    ex: Option<Executor>,
    stopping: Option<JoinHandle<()>>,
    reqs: HashMap<usize, Held>,
    down: bool,
    open: bool,
    /// what came out, not yet looked at
    took: VecDeque<(Instant, AnalysisRequest)>,
    said: VecDeque<(usize, Outcome)>,
    order: Option<Arc<Mutex<VecDeque<&'static str>>>>,
    /// with the executor already, though it is not yet looked at what came of them; 0 for a pass
    sent: Vec<usize>,
    bursts: u64,
    /// all that push ask for exactly the same (with listeners that could overtake each
    /// other their texts differ by the blanks at the end)
    same: bool,
    nl: usize,
}

impl Stage {
    fn new(nl: usize, na: usize, by_order: bool) -> Stage {
        let (cin, crx) = channel();
        let (t1, tap1) = channel();
        let (to_an, arx) = channel();
        let (t2, tap2) = channel();
        let (to_ex, erx) = channel();
        let (seen_tx, seen) = channel();
        let flag = Arc::new(AtomicBool::new(false));
        let order = if by_order { Some(Arc::new(Mutex::new(VecDeque::new()))) } else { None };
        let mut lp = ListenerPool::new(nl, t1, Arc::new(Mutex::new(FakeHandler { rx: crx })), Arc::new(Mutex::new(FakeAuth { order: order.clone() })));
        let mut ap = AnalysisPool::new(na, t2, Arc::new(Mutex::new(arx)));
        let mut ex = Executor::new(erx, flag.clone());
        lp.start();
        ap.start();
        ex.start();
        Stage {
            cin: Some(cin), tap1, to_an, tap2, to_ex, seen, seen_tx, flag,
            lp: Some(lp), ap: Some(ap), ex: Some(ex), stopping: None,
            reqs: HashMap::new(), down: false, open: true,
            took: VecDeque::new(), said: VecDeque::new(), order, sent: vec![], bursts: 0, same: false, nl,
        }
    }
    fn old(&self) -> bool {
        self.reqs.values().any(|h| h.taken.map_or(false, |t| h.outs == 0 && t.elapsed() > YOUNG))
    }
    fn poll(&mut self) {
        while let Ok(m) = self.tap1.try_recv() {
            self.took.push_back((Instant::now(), m));
        }
        while let Ok(x) = self.seen.try_recv() {
            self.said.push_back(x);
        }
    }
    /// two listeners free at once may hand on in either order
    fn wait_took(&mut self, text: &str) -> Option<(Instant, AnalysisRequest)> {
        let t = Instant::now();
        loop {
            self.poll();
            if let Some(i) = self.took.iter().position(|x| x.1.request == text) {
                return self.took.remove(i);
            }
            if t.elapsed() > SOON {
                return self.took.pop_front();
            }
            thread::sleep(Duration::from_micros(300));
        }
    }
    /// the next answer that some client sees; with WHOM, of one of them
    fn wait_said(&mut self, whom: Option<&[usize]>) -> Option<(usize, Outcome)> {
        let t = Instant::now();
        loop {
            self.poll();
            let i = match whom {
                None => if self.said.is_empty() { None } else { Some(0) },
                Some(w) => self.said.iter().position(|x| w.contains(&x.0)),
            };
            if let Some(i) = i {
                return self.said.remove(i);
            }
            if t.elapsed() > SOON {
                return None;
            }
            thread::sleep(Duration::from_micros(300));
        }
    }
    /// nothing may come out of any stage now, except what a free listener takes by itself
    fn silent(&mut self, taking: bool) -> End {
        self.poll();
        if taking {
            return Fine;
        }
        if let Some((_, m)) = self.took.pop_front() {
            return if self.open { Wrong(format!("a listener handed on {:?} unexpectedly", m.request)) } else { Unsure("taken while stopping".into()) };
        }
        if self.tap2.try_recv().is_ok() {
            return Wrong("an analyzer handed on something nobody asked for".into());
        }
        if let Some((r, o)) = self.said.pop_front() {
            let late = matches!(&o, Err(ServerError::InternalError(_)));
            let h = &self.reqs[&r];
            if late && h.outs == 0 && h.taken.is_some() {
                return Unsure("gave up early".into());
            }
            return Wrong(format!("client {} was answered {} unexpectedly", r, shown(&o)));
        }
        for (r, h) in self.reqs.iter() {
            if let Some(m) = &h.mine {
                if let Ok(x) = m.try_recv() {
                    return Wrong(format!("request {} got a reply too many: {}", r, shown(&x.response)));
                }
            }
        }
        if self.flag.load(Ordering::SeqCst) != self.down {
            return Wrong(format!("the server is {}stopping though {}", if self.down { "not " } else { "" }, if self.down { "a shutdown ran" } else { "no shutdown ran" }));
        }
        Fine
    }
    /// the next answer a client sees has to be this one
    fn sees(&mut self, r: usize, out: &J) -> End {
        match self.wait_said(Some(&[r])) {
            Some((q, o)) => {
                let late = matches!(&o, Err(ServerError::InternalError(_))) && out[0] != "late";
                if let Some(h) = self.reqs.get_mut(&q) {
                    h.outs += 1;
                }
                let h = &self.reqs[&q];
                if q == r && matches(&o, out, h) {
                    return Fine;
                }
                if late && q == r && h.taken.map_or(false, |t| t.elapsed() > YOUNG) {
                    return Unsure("gave up early".into());
                }
                Wrong(format!("client {} was answered {}; expected client {} to be answered {}", q, shown(&o), r, out))
            }
            None => Wrong(format!("client {} was not answered; expected {}", r, out)),
        }
    }
    fn step(&mut self, s: &J, g: &mut Rng) -> End {
        let r = s["r"].as_u64().unwrap_or(0) as usize;
        match s["do"].as_str().unwrap() {
            "arrive" => {
                let kind = s["kind"].as_str().unwrap();
                let (text, who, errs) = match kind {
                    "push" | "fail" if self.same => {
                        let t = if kind == "push" { "vpush v 7; get v" } else { "vpush v 7; get missing" };
                        let blanks = if self.nl == 1 { 0 } else { r };
                        (format!("{}{}", t, " ".repeat(blanks)), "write", if kind == "push" { vec![] } else { vec!["KeyError"] })
                    }
                    _ => request(kind, r, g),
                };
                let mut headers = HashMap::new();
                headers.insert("Username".to_string(), g.pick(&["ann", "ann", "admin", "read", "nobody"]).to_string());
                match &self.order {
                    Some(o) => o.lock().unwrap().push_back(who),
                    None if who != "" => {
                        headers.insert("who".to_string(), who.to_string());
                    }
                    None => (),
                }
                let q = StreamRequest { request: Ok(text.clone()), headers, sender: Some(Box::new(FakeSender { r, to: self.seen_tx.clone() })) };
                self.reqs.insert(r, Held { text, who, errs, a: None, e: None, back: None, mine: None, reply: None, taken: None, outs: 0, same: self.same });
                if self.open {
                    self.cin.as_ref().unwrap().send(q).ok();
                }
            }
            "taken" => match self.wait_took(&self.reqs[&r].text.clone()) {
                Some((at, mut m)) => {
                    let h = self.reqs.get_mut(&r).unwrap();
                    if m.request != h.text || m.authorization != val::level(h.who) {
                        return Wrong(format!("a listener handed on {:?} at {:?} for {:?} of {}", m.request, m.authorization, h.text, h.who));
                    }
                    let (tx, rx) = channel();
                    h.back = m.sender.replace(tx);
                    h.mine = Some(rx);
                    h.a = Some(m);
                    h.taken = Some(at);
                }
                None => return Wrong(format!("no listener took request {}", r)),
            },
            "sees" => {
                let e = self.sees(r, &s["out"]);
                if !matches!(e, Fine) {
                    return e;
                }
            }
            "analyze" => {
                let h = self.reqs.get_mut(&r).unwrap();
                self.to_an.send(h.a.take().unwrap()).ok();
                if s["res"][0] == "queued" {
                    match self.tap2.recv_timeout(SOON) {
                        Ok(m) => {
                            if m.request.authorization != val::level(h.who) {
                                return Wrong(format!("request {} of {} goes to the executor at {:?}", r, h.who, m.request.authorization));
                            }
                            h.e = Some(m)
                        }
                        Err(_) => return Wrong(format!("request {} ({:?}) never left the analyzers", r, h.text)),
                    }
                } else {
                    match h.mine.as_ref().unwrap().recv_timeout(SOON) {
                        Ok(x) => {
                            if !matches(&x.response, &s["res"], h) {
                                return Wrong(format!("{:?} was analyzed as {}", h.text, shown(&x.response)));
                            }
                            h.reply = Some(x)
                        }
                        Err(_) => return Wrong(format!("analyzing {:?} gave no reply", h.text)),
                    }
                }
            }
            "pass" => {}
            "expire" if self.sent.first() == Some(&0) => {
                self.sent.remove(0);
            }
            "expire" => {
                self.to_ex
                    .send(ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin }, sender: None })
                    .ok();
            }
            "exec" => {
                let h = self.reqs.get_mut(&r).unwrap();
                if self.sent.first() == Some(&r) {
                    self.sent.remove(0);
                } else {
                    self.to_ex.send(h.e.take().unwrap()).ok();
                }
                match h.mine.as_ref().unwrap().recv_timeout(SOON) {
                    Ok(x) => {
                        if !matches(&x.response, &s["res"], h) {
                            return Wrong(format!("request {} ({:?} of {}) gave {}; expected {}", r, h.text, h.who, shown(&x.response), s["res"]));
                        }
                        h.reply = Some(x)
                    }
                    Err(_) => return Wrong(format!("the executor gave no reply to request {} ({:?})", r, h.text)),
                }
                if s["res"][0] == "bye" {
                    self.down = true;
                    let t = Instant::now();
                    while !self.flag.load(Ordering::SeqCst) && t.elapsed() < SOON {
                        thread::sleep(Duration::from_millis(1));
                    }
                }
            }
            "deliver" => {
                let h = self.reqs.get_mut(&r).unwrap();
                if h.taken.unwrap().elapsed() > YOUNG {
                    return Unsure("too slow".into());
                }
                let x = h.reply.take().unwrap();
                if h.back.take().unwrap().send(x).is_err() {
                    return Wrong(format!("nobody waits for the reply to request {}", r));
                }
                return self.sees(r, &s["out"]);
            }
            "discard" => {
                let h = self.reqs.get_mut(&r).unwrap();
                let x = h.reply.take().unwrap();
                let _ = h.back.take().unwrap().send(x);
            }
            "timeout" => {
                let mut left: Vec<usize> = s["rs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                while !left.is_empty() {
                    match self.wait_said(Some(&left)) {
                        Some((q, o)) => {
                            let h = self.reqs.get_mut(&q).unwrap();
                            h.outs += 1;
                            if !left.contains(&q) || !matches(&o, &json!(["late"]), h) {
                                return Wrong(format!("client {} was answered {} while {:?} wait", q, shown(&o), left));
                            }
                            left.retain(|x| *x != q);
                        }
                        None => return Wrong(format!("clients {:?} wait for ever", left)),
                    }
                }
            }
            "stop listeners" => {
                self.open = false;
                let mut lp = self.lp.take().unwrap();
                let (tx, rx) = channel();
                self.stopping = Some(thread::spawn(move || {
                    tx.send(()).unwrap();
                    lp.stop()
                }));
                rx.recv().ok();
                thread::sleep(Duration::from_millis(40));
            }
            "stop analyzers" => {
                if !joined(self.stopping.as_ref().unwrap(), SOON) {
                    return Wrong("the listeners do not stop".into());
                }
                let mut ap = self.ap.take().unwrap();
                self.stopping = Some(thread::spawn(move || ap.stop()));
            }
            "stop executor" => {
                if !joined(self.stopping.as_ref().unwrap(), SOON) {
                    return Wrong("the analyzers do not stop".into());
                }
                let mut ex = self.ex.take().unwrap();
                let j = thread::spawn(move || ex.stop());
                if !joined(&j, SOON) {
                    return Wrong("the executor does not stop".into());
                }
            }
            o => return Wrong(format!("unknown step {}", o)),
        }
        Fine
    }
    fn play(&mut self, b: &[J], g: &mut Rng) -> (usize, End) {
        let (tx, rx) = channel();
        let statements = vec![Statement::Set("v".into(), V::Vec("int".into(), vec![]).to_real(), None)];
        self.to_ex.send(ExecutorRequest { request: InterpreterRequest { statements, authorization: AuthorizationLevel::Admin }, sender: Some(tx) }).ok();
        if rx.recv_timeout(SOON).is_err() {
            return (0, Wrong("the executor does not reply".into()));
        }
        for (i, s) in b.iter().enumerate() {
            if self.old() && s["do"] != "timeout" {
                return (i, Unsure("too slow".into()));
            }
            // sometimes the executor gets at once all that it has to run one after the other
            let next: Vec<&J> = b[i..].iter().take_while(|x| x["do"] == "exec" || x["do"] == "expire").collect();
            if self.sent.is_empty() && next.len() > 1 && g.chance(3, 4) {
                for x in next {
                    let r = x["r"].as_u64().unwrap_or(0) as usize;
                    let m = if r == 0 {
                        ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin }, sender: None }
                    } else {
                        self.reqs.get_mut(&r).unwrap().e.take().unwrap()
                    };
                    self.to_ex.send(m).ok();
                    self.sent.push(r);
                }
                self.bursts += 1;
            }
            match self.step(s, g) {
                Fine => (),
                e => return (i, e),
            }
            if !self.sent.is_empty() {
                continue;
            }
            let slow = self.old();
            let taking = i + 1 < b.len() && (b[i + 1]["do"] == "taken" || b[i + 1]["do"] == "sees");
            match self.silent(taking) {
                Fine => (),
                _ if slow && s["do"] != "timeout" => return (i, Unsure("too slow".into())),
                e => return (i, e),
            }
        }
        (b.len(), Fine)
    }
    fn clear(&mut self) {
        self.cin = None;
        self.reqs.clear();
        let (lp, ap, ex) = (self.lp.take(), self.ap.take(), self.ex.take());
        // the threads end by themselves once told; nobody waits for them here
        thread::spawn(move || {
            if let Some(mut x) = lp {
                x.stop()
            }
            if let Some(mut x) = ap {
                x.stop()
            }
            if let Some(mut x) = ex {
                x.stop()
            }
        });
    }
}

fn replay(a: &[String]) -> J {
    let (file, seed, nl, na, par) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse::<usize>().unwrap());
    let bs: Vec<Vec<J>> = std::io::BufReader::new(std::fs::File::open(file).unwrap())
        .lines()
        .map(|l| serde_json::from_str::<J>(&l.unwrap()).unwrap().as_array().unwrap().clone())
        .collect();
    let bs = Arc::new(bs);
    let next = Arc::new(AtomicUsize::new(0));
    let total = Arc::new(Mutex::new((0u64, 0u64, 0u64, HashMap::<String, u64>::new(), Vec::<J>::new())));
    let hs: Vec<_> = (0..par)
        .map(|_| {
            let (bs, next, total) = (bs.clone(), next.clone(), total.clone());
            thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= bs.len() || total.lock().unwrap().4.len() > 5 {
                    break;
                }
                let mut tries = 0;
                loop {
                    let mut g = Rng::new(seed * 1_000_003 + i as u64);
                    // one listener asks in the order of arrival
                    let mut st = Stage::new(nl, na, nl == 1 && i % 2 == 0);
                    st.same = i % 3 == 0;
                    let (at, e) = st.play(&bs[i], &mut g);
                    let texts: Vec<J> = st.reqs.iter().map(|(r, h)| json!([r, h.text, h.who])).collect();
                    st.clear();
                    let mut t = total.lock().unwrap();
                    match e {
                        Fine => {
                            t.0 += 1;
                            t.1 += bs[i].len() as u64;
                            *t.3.entry("several at once to the executor".to_string()).or_default() += st.bursts;
                            if st.same {
                                *t.3.entry("behaviours of identical requests".to_string()).or_default() += 1;
                            }
                            for s in &bs[i] {
                                *t.3.entry(s["do"].as_str().unwrap().to_string()).or_default() += 1;
                            }
                        }
                        Unsure(_) if tries < 2 => {
                            tries += 1;
                            continue;
                        }
                        Unsure(m) => {
                            t.2 += 1;
                            *t.3.entry(format!("unsure: {}", m)).or_default() += 1;
                        }
                        Wrong(m) => t.4.push(json!({"what": m, "step": at, "seed": seed, "listeners": nl, "analyzers": na, "behaviour": bs[i], "requests": texts})),
                    }
                    break;
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let t = total.lock().unwrap();
    json!({"behaviours": t.0, "steps": t.1, "inconclusive": t.2, "by step": t.3, "violations": t.4})
}

/// What the expiration worker sends, with the time of each message, until it is stopped.
fn passes(a: &[String]) -> J {
    let secs: f64 = a[0].parse().unwrap();
    let (tx, rx) = channel();
    let mut w = ExpirationWorker::new(tx);
    let t0 = Instant::now();
    w.start();
    let mut ms: Vec<J> = vec![];
    // whether this machine lets a thread wait for longer than it asked to
    let stall = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let st = stall.clone();
    thread::spawn(move || loop {
        let t = Instant::now();
        thread::sleep(Duration::from_millis(600));
        st.fetch_max((t.elapsed().as_millis() as u64).saturating_sub(600), Ordering::SeqCst);
    });
    loop {
        let left = secs - t0.elapsed().as_secs_f64();
        if left <= 0.0 {
            break;
        }
        match rx.recv_timeout(Duration::from_secs_f64(left)) {
            Ok(m) => ms.push(json!({"kind": "pass", "at": t0.elapsed().as_millis() as u64,
                "n": m.request.statements.len(),
                "good": m.request.statements.iter().all(|s| *s == Statement::ExpireKeys) && m.sender.is_none(),
                "what": format!("{:?} {:?} sender {}", m.request.statements, m.request.authorization, m.sender.is_some())})),
            Err(RecvTimeoutError::Timeout) => break,
            Err(RecvTimeoutError::Disconnected) => break,
        }
    }
    let at = t0.elapsed().as_millis() as u64;
    ms.push(json!({"kind": "stop", "at": at, "good": true, "what": ""}));
    let j = thread::spawn(move || w.stop());
    let ok = joined(&j, Duration::from_secs(15));
    let mut late = 0;
    while rx.recv_timeout(Duration::from_millis(10)).is_ok() {
        late += 1;
    }
    ms.push(json!({"kind": "ended", "at": t0.elapsed().as_millis() as u64, "good": ok, "what": format!("{} more", late)}));
    json!({"events": ms, "stall": stall.load(Ordering::SeqCst)})
}

fn main() {
    let out = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        fd
    };
    if std::env::var("VH_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = match a[0].as_str() {
        "replay" => replay(&a[1..]),
        "passes" => passes(&a[1..]),
        _ => std::process::exit(2),
    };
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    writeln!(f, "{}", r).unwrap();
    f.flush().unwrap();
    std::process::exit(0);
}
