//! Ways to run a request on the real code: statements on the interpreter (L1),
//! query text through tokenizer, parser and interpreter (L2), and the
//! single-threaded server's serve loop over an in-memory stream (L3).
use crate::val::*;
use serde_json::Value as J;
use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamRequest, StreamSender};
use server::single_threaded::SingleThreadedServer;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::Storage;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, UNIX_EPOCH};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Proj {
    pub live: BTreeMap<String, (V, i64)>,
    pub len: i64,
    pub tracked: i64,
}

pub fn panic_reply(e: Box<dyn std::any::Any + Send>) -> R {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    R::W(vec!["panic".into(), m])
}

pub trait Backend {
    /// Run a request: one command, or {cs, lvl}. None: this backend cannot express it.
    fn exec(&mut self, req: &J) -> Option<R>;
    fn inspect(&mut self, keys: &[String]) -> Option<Proj>;
    fn reset(&mut self);
}

pub fn commands(req: &J) -> (Vec<J>, String) {
    match req.get("cs") {
        Some(cs) => (cs.as_array().unwrap().clone(), req["lvl"].as_str().unwrap().to_string()),
        None => (vec![req.clone()], "admin".to_string()),
    }
}

pub fn request_text(cs: &[J], tps: i64, style: u64) -> Option<String> {
    let mut ts = vec![];
    for c in cs {
        ts.push(to_text(c, tps)?);
    }
    let sep = ["; ", ";", "\n;\n", ";;", " ; "][(style % 5) as usize];
    let mut s = ts.join(sep);
    match style / 5 % 4 {
        1 => s.push(';'),
        2 => s.push_str(" ;"),
        3 => s.insert(0, ' '),
        _ => (),
    }
    Some(s)
}

pub fn run_text(i: &mut Interpreter<HashMapStorage>, text: &str, level: AuthorizationLevel) -> Result<InterpreterResponse, ServerError> {
    let tokens = Tokenizer::new(text).tokenize()?;
    let statements = Parser::new(tokens).parse()?;
    i.interpret(InterpreterRequest { statements, authorization: level })
}

pub fn project(i: &Interpreter<HashMapStorage>, keys: &[String], tps: i64) -> Proj {
    let mut live = BTreeMap::new();
    for k in keys {
        if let Ok(Some(e)) = i.storage.get_if_exists(k) {
            let exp = match e.expiration {
                None => -1,
                Some(t) => match t.duration_since(UNIX_EPOCH + Duration::from_nanos(crate::shim::T0 as u64)) {
                    // whole seconds far away are anchored, the sub-second part kept
                    Ok(d) if d.as_secs() >= 190_000 => {
                        let e = enc_life(d.as_secs(), tps);
                        if e < 0 { e } else { e + d.subsec_nanos() as i64 / (1_000_000_000 / tps) }
                    }
                    Ok(d) => (d.as_nanos() / (1_000_000_000 / tps as u128)) as i64,
                    Err(_) => -8,
                },
            };
            // every way of asking has to agree that the key is there
            let mut v = V::from_real(&e.value);
            if i.storage.contains_key(k).ok() != Some(true) || i.storage.get(k).is_err() {
                v = sc("?", "contains_key/get disagree with get_if_exists");
            }
            live.insert(k.clone(), (v, exp));
        }
    }
    Proj {
        live,
        len: i.storage.len().map(|n| n as i64).unwrap_or(-1),
        tracked: i.storage.expiring_keys_count().map(|n| n as i64).unwrap_or(-1),
    }
}

pub struct Local {
    pub i: Interpreter<HashMapStorage>,
    pub tps: i64,
    pub text: bool,
    pub style: u64,
}
impl Local {
    pub fn new(tps: i64, text: bool) -> Local {
        Local { i: Interpreter::new(HashMapStorage::new()), tps, text, style: 0 }
    }
}
impl Backend for Local {
    fn exec(&mut self, req: &J) -> Option<R> {
        let (cs, lvl) = commands(req);
        let tps = self.tps;
        if cs.len() == 1 && cs[0]["op"] == "check" {
            let k = cs[0]["key"].as_str().unwrap();
            let i = &mut self.i;
            return Some(match catch_unwind(AssertUnwindSafe(|| i.storage.check_and_expire(k))) {
                Ok(r) => R::from_real(&r.map(InterpreterResponse::Bool), tps),
                Err(e) => panic_reply(e),
            });
        }
        let text = if self.text {
            self.style += 1;
            request_text(&cs, tps, self.style)
        } else {
            None
        };
        let i = &mut self.i;
        let r = catch_unwind(AssertUnwindSafe(|| match text {
            Some(t) => run_text(i, &t, level(&lvl)),
            None => i.interpret(InterpreterRequest {
                statements: cs.iter().map(|c| to_statement(c, tps)).collect(),
                authorization: level(&lvl),
            }),
        }));
        Some(match r {
            Ok(o) => R::from_real(&o, tps),
            Err(e) => panic_reply(e),
        })
    }
    fn inspect(&mut self, keys: &[String]) -> Option<Proj> {
        let (i, tps) = (&self.i, self.tps);
        catch_unwind(AssertUnwindSafe(|| project(i, keys, tps)))
            .ok()
            .or(Some(Proj { live: BTreeMap::new(), len: -99, tracked: -99 }))
    }
    fn reset(&mut self) {
        self.i = Interpreter::new(HashMapStorage::new());
    }
}

/// Wait a little by polling: much cheaper than parking for the ping-pong below.
fn spin<T>(rx: &Receiver<T>) -> Option<T> {
    for _ in 0..20_000 {
        if let Ok(x) = rx.try_recv() {
            return Some(x);
        }
        std::hint::spin_loop();
    }
    None
}

// --- the single-threaded server over an in-memory stream --------------------
struct MemHandler {
    rx: Receiver<(Result<String, ServerError>, HashMap<String, String>)>,
    tx: Sender<Outcome>,
    n: u64,
}
/// One in three clients has gone when it is told; nothing else may depend on that.
struct MemSender(Sender<Outcome>, u64);
impl StreamSender for MemSender {
    fn send(&mut self, r: Outcome) -> Result<(), ServerError> {
        let told = self.0.send(r);
        if told.is_err() || self.1 % 3 == 2 {
            return Err(ServerError::NetworkError("gone".into()));
        }
        Ok(())
    }
}
impl StreamHandler for MemHandler {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        let (request, headers) = spin(&self.rx).or_else(|| self.rx.recv().ok())?;
        self.n += 1;
        Some(StreamRequest { request, headers, sender: Some(Box::new(MemSender(self.tx.clone(), self.n))) })
    }
}

pub struct Serve {
    tps: i64,
    style: u64,
    link: Option<(Sender<(Result<String, ServerError>, HashMap<String, String>)>, Receiver<Outcome>)>,
    thread: Option<std::thread::JoinHandle<()>>,
}
impl Serve {
    pub fn new(tps: i64) -> Serve {
        let mut s = Serve { tps, style: 0, link: None, thread: None };
        s.start();
        s
    }
    fn start(&mut self) {
        let (a, rx) = channel();
        let (tx, b) = channel();
        self.thread = Some(std::thread::spawn(move || {
            SingleThreadedServer::new().serve(MemHandler { rx, tx, n: 0 });
        }));
        self.link = Some((a, b));
    }
    pub fn send(&mut self, q: Result<String, ServerError>, headers: HashMap<String, String>) -> R {
        let (a, b) = self.link.as_ref().unwrap();
        if a.send((q, headers)).is_err() {
            return R::W(vec!["stopped".into()]);
        }
        if let Some(o) = spin(b) {
            return R::from_real(&o, self.tps);
        }
        match b.recv_timeout(Duration::from_secs(10)) {
            Ok(o) => R::from_real(&o, self.tps),
            Err(_) => R::W(vec!["no reply".into()]),
        }
    }
    pub fn alive(&self) -> bool {
        self.thread.as_ref().map(|t| !t.is_finished()).unwrap_or(false)
    }
    fn stop(&mut self) {
        self.link = None;
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
    pub fn user(lvl: &str) -> HashMap<String, String> {
        HashMap::from([("Username".to_string(), lvl.to_string())])
    }
}
impl Backend for Serve {
    fn exec(&mut self, req: &J) -> Option<R> {
        let (cs, lvl) = commands(req);
        self.style += 1;
        let t = request_text(&cs, self.tps, self.style)?;
        let r = self.send(Ok(t), Serve::user(&lvl));
        if r == R::W(vec!["shutdown".into()]) {
            // the server has to stop by itself, and only now; then start over is up to the caller
            let t0 = std::time::Instant::now();
            while self.alive() && t0.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_micros(50));
            }
            if self.alive() {
                return Some(R::W(vec!["shutdown but running".into()]));
            }
        }
        Some(r)
    }
    /// Only what the queries show: value and presence of each key.
    fn inspect(&mut self, _keys: &[String]) -> Option<Proj> {
        None
    }
    fn reset(&mut self) {
        self.stop();
        self.start();
    }
}
impl Drop for Serve {
    fn drop(&mut self) {
        self.stop();
    }
}
