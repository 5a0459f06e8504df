//! The HTTP front ends: delivering byte streams to the real readers (TLC's
//! vectors and random ones) and fetching replies from the real senders.
use crate::hist::{rand_scalar, rand_string, rand_val, TYPES};
use crate::lang::{cp_reply, cps};
use crate::rng::Rng;
use crate::shim;
use crate::val::*;
use serde_json::{json, Value as J};
use server::analysis::{InterpreterResponse, ValueType};
use server::error::{get_error_code, ServerError};
use server::io::stream::StreamHandler;
use server::io::{tcp, tcp_async};
use server::storage::StorageValue;
use std::collections::HashMap;
use std::io::{BufRead, Read, Write};
use std::net::{IpAddr, Ipv4Addr, Shutdown, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(10);

pub fn free_port() -> u16 {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

/// What a reader made of a connection.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Query(String, Vec<(String, String)>),
    Err(&'static str),
    Panic(String),
    NoSender,
}

/// A real stream handler in a thread of its own: receives, reports, then
/// replies as told.
pub struct Reader {
    port: u16,
    sync: bool,
    out: Receiver<Got>,
    cmd: Sender<Option<Outcome>>,
    done: Receiver<bool>, // the sender's own verdict
}

fn report(request: Result<String, ServerError>, headers: HashMap<String, String>) -> Got {
    match request {
        Ok(q) => Got::Query(q, headers.into_iter().collect()),
        Err(e) => Got::Err(errname(&e)),
    }
}
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    match crate::backend::panic_reply(e) {
        R::W(w) => w[1].clone(),
        _ => String::new(),
    }
}

impl Reader {
    pub fn new(sync: bool) -> Reader {
        let port = free_port();
        let (otx, out) = channel();
        let (cmd, crx) = channel::<Option<Outcome>>();
        let (dtx, done) = channel();
        let ip = IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1));
        std::thread::spawn(move || {
            if sync {
                let mut h = tcp::TcpStreamHandler::new(ip, port as usize);
                loop {
                    match catch_unwind(AssertUnwindSafe(|| h.receive_request())) {
                        Ok(Some(r)) => {
                            let mut sender = r.sender;
                            let g = if sender.is_none() && r.request.is_ok() { Got::NoSender } else { report(r.request, r.headers) };
                            if otx.send(g).is_err() {
                                return;
                            }
                            match crx.recv() {
                                Ok(Some(o)) => {
                                    let ok = catch_unwind(AssertUnwindSafe(|| sender.as_mut().map(|s| s.send(o).is_ok()) == Some(true)));
                                    let _ = dtx.send(ok.unwrap_or(false));
                                }
                                Ok(None) => (),
                                Err(_) => return,
                            }
                        }
                        Ok(None) => {
                            let _ = otx.send(Got::Panic("receive_request returned nothing".into()));
                            return;
                        }
                        Err(e) => {
                            let _ = otx.send(Got::Panic(panic_text(e)));
                            if crx.recv().is_err() {
                                return;
                            }
                        }
                    }
                }
            } else {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                let mut h = rt.block_on(tcp_async::TcpStreamHandler::new(ip, port as usize));
                loop {
                    match catch_unwind(AssertUnwindSafe(|| rt.block_on(h.receive_request()))) {
                        Ok(r) => {
                            let mut sender = r.sender;
                            let g = if sender.is_none() && r.request.is_ok() { Got::NoSender } else { report(r.request, r.headers) };
                            if otx.send(g).is_err() {
                                return;
                            }
                            match crx.recv() {
                                Ok(Some(o)) => {
                                    let ok = catch_unwind(AssertUnwindSafe(|| match sender.as_mut() {
                                        Some(s) => rt.block_on(s.send(o)).is_ok(),
                                        None => false,
                                    }));
                                    let _ = dtx.send(ok.unwrap_or(false));
                                }
                                Ok(None) => (),
                                Err(_) => return,
                            }
                        }
                        Err(e) => {
                            let _ = otx.send(Got::Panic(panic_text(e)));
                            if crx.recv().is_err() {
                                return;
                            }
                        }
                    }
                }
            }
        });
        // wait until it listens
        let r = Reader { port, sync, out, cmd, done };
        let t0 = Instant::now();
        loop {
            if let Ok(c) = TcpStream::connect(("127.0.0.1", port)) {
                drop(c); // one empty connection: an error
                match r.out.recv_timeout(PATIENCE) {
                    Ok(Got::Err(_)) => (),
                    other => panic!("a connection closed at once: {:?}", other),
                }
                r.cmd.send(None).unwrap();
                return r;
            }
            if t0.elapsed() > PATIENCE {
                panic!("the stream handler does not listen");
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    fn poll(&self, d: Duration) -> Option<Got> {
        for _ in 0..30_000 {
            if let Ok(x) = self.out.try_recv() {
                return Some(x);
            }
            std::hint::spin_loop();
        }
        self.out.recv_timeout(d).ok()
    }
}

pub struct Delivery {
    pub got: Option<Got>,
    pub closed: bool,
    pub gone: bool,
    pub sent: usize,
    pub client: TcpStream,
}

/// Wait until the server has consumed what was sent, or has decided.
fn consumed(r: &Reader, upto: i64, got: &mut Option<Got>) {
    let t0 = Instant::now();
    let mut n = 0u32;
    while shim::f(shim::RX_BYTES).load(SeqCst) < upto {
        if let Ok(g) = r.out.try_recv() {
            *got = Some(g);
            return;
        }
        n += 1;
        if n > 20_000 {
            std::thread::sleep(Duration::from_micros(50));
            if t0.elapsed() > PATIENCE {
                return;
            }
        }
        std::hint::spin_loop();
    }
}

pub fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Open,  // the client keeps its side open: the reader has to have decided
    Close, // the client closes its sending side
    Reset, // the client resets the connection
}

/// Deliver bytes in the given segments; then close or not, and wait for the outcome.
pub fn deliver(r: &Reader, bytes: &[u8], segs: &[usize], end: End) -> Delivery {
    let mut c = TcpStream::connect(("127.0.0.1", r.port)).unwrap();
    c.set_nodelay(true).unwrap();
    let base = shim::f(shim::RX_BYTES).load(SeqCst);
    let mut got = None;
    let mut sent = 0;
    if r.sync {
        // the bytes lie ready, the reads are cut short
        let plan: Vec<i32> = segs.iter().map(|n| *n as i32).collect();
        shim::recv_plan(&plan);
        let _ = c.write_all(bytes);
        sent = bytes.len();
    } else {
        for n in segs {
            let n = (*n).min(bytes.len() - sent);
            if n == 0 {
                break;
            }
            if c.write_all(&bytes[sent..sent + n]).is_err() {
                break;
            }
            sent += n;
            consumed(r, base + sent as i64, &mut got);
            if got.is_some() {
                break;
            }
        }
        if got.is_none() && sent < bytes.len() {
            let _ = c.write_all(&bytes[sent..]);
            sent = bytes.len();
        }
    }
    let mut closed = false;
    match end {
        End::Open => (),
        End::Close => {
            let _ = c.shutdown(Shutdown::Write);
            closed = true;
        }
        End::Reset => {
            linger0(&c);
            closed = true;
        }
    }
    if end == End::Reset {
        let dummy = TcpListener::bind("127.0.0.1:0").unwrap();
        let keep = TcpStream::connect(dummy.local_addr().unwrap()).unwrap();
        drop(std::mem::replace(&mut c, keep));
    }
    if got.is_none() {
        got = r.poll(PATIENCE);
    }
    shim::recv_plan(&[]);
    Delivery { got, closed, gone: end == End::Reset, sent, client: c }
}

/// Close the connection (the reader goes on to the next one).
fn done(r: &mut Reader, d: Delivery) {
    if d.got.is_none() {
        // stuck: leave that one behind
        drop(d);
        *r = Reader::new(r.sync);
        return;
    }
    r.cmd.send(None).unwrap();
}

fn whole(n: usize) -> Vec<usize> {
    vec![n]
}
pub fn random_segs(r: &mut Rng, n: usize) -> Vec<usize> {
    let k = 1 + r.below(6);
    let mut cuts: Vec<usize> = (0..k).map(|_| r.below(n as u64 + 1) as usize).collect();
    cuts.push(n);
    cuts.sort();
    let mut out = vec![];
    let mut at = 0;
    for c in cuts {
        if c > at {
            out.push(c - at);
            at = c;
        }
    }
    out
}

pub fn show_bytes(b: &[u8]) -> String {
    b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect()
}

// ---------------------------------------------------------------------------
// TLC's streams
// ---------------------------------------------------------------------------
struct Stream {
    bytes: Vec<u8>,
    odd: u64,
    ms: Vec<(usize, String)>,
    q: Option<String>,
    hs: Vec<(String, String)>,
}
const FINAL: [&str; 3] = ["query", "bad", "error"];

impl Stream {
    fn class(&self, n: usize) -> &str {
        &self.ms.iter().rev().find(|m| m.0 <= n).unwrap().1
    }
    fn fits(&self, class: &str, closed: bool, g: &Got, hs: bool) -> bool {
        match (class, g) {
            ("query", Got::Query(q, seen)) => Some(q) == self.q.as_ref() && (!hs || self.headers_ok(seen)),
            ("bad", Got::Err(e)) => *e == "RequestError",
            ("error", Got::Err(_)) => true,
            ("wait", Got::Err(_)) => closed,
            ("waitbad", Got::Err(e)) => closed || *e == "RequestError",
            ("any", Got::Err(_)) | ("any", Got::Query(..)) => true,
            _ => false,
        }
    }
    fn headers_ok(&self, seen: &[(String, String)]) -> bool {
        self.hs.iter().all(|(n, v)| {
            let once = self.hs.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).count() == 1;
            if !once || !v.is_ascii() {
                return true;
            }
            let same: Vec<_> = seen.iter().filter(|s| s.0.eq_ignore_ascii_case(n)).collect();
            !same.is_empty() && same.iter().all(|s| &s.1 == v)
        })
    }
    /// May a reader that was given the first n bytes have come to this outcome?
    fn allows(&self, n: usize, closed: bool, g: &Got) -> bool {
        for (i, (from, class)) in self.ms.iter().enumerate() {
            if *from > n {
                break;
            }
            let last = self.ms.get(i + 1).map(|m| m.0 > n).unwrap_or(true);
            // before the end of what was delivered, nothing has been closed
            if self.fits(class, closed && last, g, true) {
                return true;
            }
        }
        false
    }
}

fn num_list(j: &J) -> Vec<u64> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}
fn latin(j: &J) -> String {
    num_list(j).iter().map(|c| *c as u8 as char).collect()
}

/// vh httpvec FILE SEED sync|async EVERY: replay every stream; those that are not
/// nearly plain only with a chance of 1/EVERY byte by byte.
pub fn vectors(a: &[String]) -> J {
    let mut rng = Rng::new(a[1].parse().unwrap());
    let sync = a[2] == "sync";
    let every: u64 = a[3].parse().unwrap();
    let f = std::io::BufReader::new(std::fs::File::open(&a[0]).unwrap());
    let mut r = Reader::new(sync);
    let (mut n, mut conns, mut stuck) = (0u64, 0u64, 0u64);
    let mut bad: Vec<J> = vec![];
    let mut classes: HashMap<String, u64> = HashMap::new();
    for line in f.lines() {
        let line = line.unwrap();
        if !line.starts_with("\"V ") {
            continue;
        }
        let s: String = serde_json::from_str(&line).unwrap();
        let v: J = serde_json::from_str(&s[2..]).unwrap();
        let st = Stream {
            bytes: num_list(&v["bytes"]).iter().map(|x| *x as u8).collect(),
            odd: v["odd"].as_u64().unwrap(),
            ms: v["ms"].as_array().unwrap().iter().map(|m| (m[0].as_u64().unwrap() as usize, m[1].as_str().unwrap().to_string())).collect(),
            q: if v["q"][0].as_i64() == Some(-1) { None } else { Some(crate::lang::of_cps(&v["q"])) },
            hs: v["hs"].as_array().unwrap().iter().map(|h| (latin(&h[0]), latin(&h[1]))).collect(),
        };
        n += 1;
        let len = st.bytes.len();
        *classes.entry(st.class(len).to_string()).or_default() += 1;
        let mut plans: Vec<(usize, Vec<usize>, End)> = vec![];
        let full_end = if FINAL.contains(&st.class(len)) { End::Open } else { End::Close };
        plans.push((len, whole(len), full_end));
        plans.push((len, random_segs(&mut rng, len), full_end));
        let t = rng.below(len as u64) as usize;
        let end = |k: usize| if FINAL.contains(&st.class(k)) { End::Open } else { End::Close };
        plans.push((t, random_segs(&mut rng, t.max(1)), end(t)));
        if st.odd <= 1 {
            for k in 1..len {
                plans.push((len, vec![k, len - k], full_end));
            }
            for k in 0..len {
                plans.push((k, whole(k.max(1)), end(k)));
            }
        }
        if st.odd == 0 {
            for i in 1..len {
                for j in (i + 1)..len {
                    plans.push((len, vec![i, j - i, len - j], full_end));
                }
            }
        }
        if st.odd <= 1 || rng.below(every) == 0 {
            plans.push((len, vec![1; len], full_end));
        }
        for (k, segs, end) in plans {
            conns += 1;
            let d = deliver(&r, &st.bytes[..k], &segs, end);
            let ok = match &d.got {
                None => false,
                Some(g) => st.allows(k, d.closed, g),
            };
            if !ok && bad.len() < 20 {
                bad.push(json!({"bytes": show_bytes(&st.bytes[..k]), "segments": segs, "client": format!("{:?}", end),
                    "meaning": st.class(k), "query": st.q, "got": match &d.got { None => "no answer in 10 s".to_string(), Some(g) => format!("{:?}", g) }}));
            }
            stuck += d.got.is_none() as u64;
            done(&mut r, d);
            if bad.len() >= 20 || stuck >= 4 {
                break;
            }
        }
        if bad.len() >= 20 || stuck >= 4 {
            break;
        }
    }
    json!({"streams":n,"connections":conns,"classes":classes,"violations":bad})
}

// ---------------------------------------------------------------------------
// random requests
// ---------------------------------------------------------------------------
pub fn header_noise(r: &mut Rng) -> String {
    let n: String = (0..1 + r.below(10)).map(|_| *r.pick(&['a', 'Z', '-', '_', '7', '!', '~', '|'])).collect();
    let v: String = (0..r.below(30)).map(|_| *r.pick(&['a', ' ', ':', '"', '\t', ';', ',', '0', '=', '/'])).collect();
    format!("{}:{}{}", n, if r.chance(2, 3) { " " } else { "" }, v)
}
fn random_json(r: &mut Rng, depth: u64) -> J {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => J::Null,
        1 => J::Bool(r.chance(1, 2)),
        2 => json!(r.next() as i64 >> r.below(60)),
        3 => json!((r.below(100000) as f64) / 64.0),
        4 => J::String(rand_string(r).chars().take(20).collect()),
        5 => J::Array((0..r.below(4)).map(|_| random_json(r, depth - 1)).collect()),
        _ => J::Object((0..r.below(4)).map(|i| (format!("k{}", i), random_json(r, depth - 1))).collect()),
    }
}
/// A body, most of the time a good one.
fn random_body(r: &mut Rng, size: u64) -> Vec<u8> {
    let mut q: String = rand_string(r).chars().take(60).collect();
    if size > 1 {
        // the body as a whole tends to end at or next to a power of two
        let c = *r.pick(&["x", "x", "\u{e9}", "\"", "\u{4e2d}"]);
        q.push_str(&c.repeat((size as usize).saturating_sub(q.len() + 16) / serde_json::to_string(c).unwrap().len().saturating_sub(2).max(1)));
        q.push_str(&"y".repeat(r.below(8) as usize));
    } else if size == 1 {
        let n = *r.pick(&[900usize, 1000, 1023, 1024, 1025, 1900, 2047, 2048, 2049, 2500, 3071, 3072]);
        q.push_str(&r.pick(&["x", "\u{e9}", "\"", "\u{4e2d}"]).repeat(n / 2));
    }
    let mut o = serde_json::Map::new();
    for _ in 0..r.below(3) {
        o.insert(r.pick(&["a", "Query", "quer", "z", "\u{e9}"]).to_string(), random_json(r, 2));
    }
    let with = !r.chance(1, 10);
    if with {
        o.insert("query".into(), if r.chance(1, 12) { random_json(r, 2) } else { J::String(q) });
    }
    let top = if r.chance(1, 20) { random_json(r, 2) } else { J::Object(o) };
    let mut s = match r.below(4) {
        0 => serde_json::to_string_pretty(&top).unwrap(),
        1 => ascii(&top),
        _ => top.to_string(),
    };
    let mut b = std::mem::take(&mut s).into_bytes();
    if size > 1 && r.chance(1, 2) && b.len() < size as usize {
        // white space makes up the rest
        let at = r.below(2) as usize * b.len();
        let n = size as usize + r.below(3) as usize - 1;
        let pad = vec![b' '; n.saturating_sub(b.len())];
        b.splice(at..at, pad);
    }
    if r.chance(1, 10) && !b.is_empty() {
        // damage it
        let i = r.below(b.len() as u64) as usize;
        match r.below(4) {
            0 => {
                b.remove(i);
            }
            1 => b[i] = r.below(256) as u8,
            2 => b.insert(i, *r.pick(&[b'"', b'{', b'}', b'\\', b',', 0, 255])),
            _ => b.truncate(i),
        }
    }
    b
}

/// A request, and whether all of it is there (a reader can decide without waiting for more).
pub fn random_request_whole(r: &mut Rng) -> (Vec<u8>, bool) {
    let big = r.chance(1, 8) as u64;
    request_of_size(r, big)
}
/// `size`: of the body; 0 small, 1 a few kB
fn request_of_size(r: &mut Rng, size: u64) -> (Vec<u8>, bool) {
    let mut whole = true;
    let body = random_body(r, size);
    let eol = if r.chance(1, 6) { "\n" } else { "\r\n" };
    let method = if r.chance(1, 10) { *r.pick(&["GET", "PUT", "post", "HEAD", "X", "P0ST"]) } else { "POST" };
    let target = *r.pick(&["/", "/", "/x", "*", "/%20?a=b", "http://h/p"]);
    let version = if r.chance(1, 20) { *r.pick(&["HTTP/1.0", "HTTP/2.0", "HTTP/1.1 ", "http/1.1"]) } else { "HTTP/1.1" };
    let mut hs: Vec<String> = vec![];
    if !r.chance(1, 12) {
        let name: String = "Content-Length".chars().map(|c| if r.chance(1, 4) { if r.chance(1, 2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } else { c }).collect();
        let n = body.len() as i64;
        let v = match r.below(14) {
            0 => {
                whole = false;
                (n + 1 + r.below(5) as i64).to_string()
            }
            1 => (n - 1 - r.below(5) as i64).to_string(),
            2 => format!("{:05}", n),
            3 => {
                whole = false;
                r.pick(&["", "x", "1e2", "12a", "99999999999999999999", "18446744073709551615", "0", " ", "-0", "1,1"]).to_string()
            }
            _ => n.to_string(),
        };
        hs.push(format!("{}:{}{}{}", name, r.pick(&["", " ", "  ", "\t"]), v, r.pick(&["", "", " ", "\t "])));
        if r.chance(1, 25) {
            whole = false;
            hs.push(format!("content-length: {}", if r.chance(1, 2) { n } else { n + 1 }));
        }
    }
    if r.chance(2, 3) {
        hs.push(format!("Username: {}", r.pick(&["admin", "read", "write", "unauthenticated", "someone", ""])));
    }
    let extra = match r.below(8) {
        0 => 25 + r.below(10),
        1 => r.below(10),
        _ => r.below(3),
    };
    for _ in 0..extra {
        let at = r.below(hs.len() as u64 + 1) as usize;
        let h = header_noise(r);
        hs.insert(at, h);
    }
    if size > 1 && r.chance(1, 3) {
        // a head that takes many reads
        for i in 0..1 + r.below(12) {
            let at = r.below(hs.len() as u64 + 1) as usize;
            hs.insert(at, format!("Pad{}: {}", i, "p".repeat(500 + r.below(4000) as usize)));
        }
    }
    if r.chance(1, 4) {
        // the end of the head or of the body at or next to a multiple of the buffer size
        let mut len = method.len() + target.len() + version.len() + 2 + 2 * eol.len() + hs.iter().map(|h| h.len() + eol.len()).sum::<usize>();
        if r.chance(3, 4) {
            len += body.len();
        }
        len += 2 + eol.len();
        let aim = (len / 1024 + 1) * 1024 + 1 - r.below(3) as usize;
        let at = r.below(hs.len() as u64 + 1) as usize;
        hs.insert(at, format!("P:{}", "p".repeat(aim - len)));
    }
    let mut b = vec![];
    b.extend(format!("{} {} {}{}", method, target, version, eol).into_bytes());
    for h in hs {
        b.extend(h.into_bytes());
        b.extend(eol.as_bytes());
    }
    b.extend(eol.as_bytes());
    b.extend(body);
    if r.chance(1, 8) {
        b.extend((0..r.below(40)).map(|_| r.below(256) as u8));
    }
    if r.chance(1, 30) {
        let i = r.below(b.len() as u64) as usize;
        b[i] = r.below(256) as u8;
        whole = false;
    }
    (b, whole)
}
pub fn random_request(r: &mut Rng) -> Vec<u8> {
    random_request_whole(r).0
}

pub fn nums(b: &[u8]) -> J {
    J::Array(b.iter().map(|x| J::from(*x)).collect())
}

/// vh httprec SEED sync|async N OUT [large]
pub fn record(a: &[String]) -> J {
    let mut rng = Rng::new(a[0].parse().unwrap());
    let sync = a[1] == "sync";
    let n: u64 = a[2].parse().unwrap();
    let large = a.len() > 4;
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    let mut r = Reader::new(sync);
    let (mut queries, mut errors, mut stuck) = (0, 0, vec![]);
    for _ in 0..n {
        let (b, complete) = if large {
            let size = crate::hist::edge(&mut rng, 4000, 70_000);
            request_of_size(&mut rng, size)
        } else {
            random_request_whole(&mut rng)
        };
        let mut k = b.len();
        if rng.chance(1, 5) {
            k = rng.below(b.len() as u64 + 1) as usize;
        }
        let segs = match rng.below(5) {
            0 => whole(k),
            1 if k < 20_000 => vec![1; k],
            2 => {
                // reads that end at and around the head's end and multiples of the buffer size
                let h = b.windows(2).position(|w| w == b"\n\n").map(|p| p + 2).or(b.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4)).unwrap_or(1);
                let c = (h as i64 + rng.below(5) as i64 - 2).max(1) as usize;
                if c < k { vec![c, k - c] } else { whole(k) }
            }
            _ => random_segs(&mut rng, k),
        };
        let end = match rng.below(10) {
            0 => End::Reset,
            1..=5 if complete && k == b.len() => End::Open,
            _ => End::Close,
        };
        let d = deliver(&r, &b[..k], &segs, end);
        let (o, hs) = match &d.got {
            None => (json!({"k":"wait"}), vec![]),
            Some(Got::Query(q, hs)) => {
                queries += 1;
                (json!({"k":"query","q":cps(q)}), hs.clone())
            }
            Some(Got::Err(e)) => {
                errors += 1;
                (json!({"k":"err","e":e}), vec![])
            }
            Some(g) => (json!({"k":"panic","e":format!("{:?}", g)}), vec![]),
        };
        if d.got.is_none() && stuck.len() < 10 {
            stuck.push(show_bytes(&b[..k]));
        }
        let hs: Vec<J> = hs.iter().map(|(n, v)| json!([nums(n.as_bytes()), nums(v.as_bytes())])).collect();
        writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
        writeln!(out, "{}", ascii(&json!({"kind":"read","bytes":nums(&b[..k]),"closed":d.closed,"gone":d.gone,"o":o,"hs":hs}))).unwrap();
        done(&mut r, d);
        if stuck.len() >= 4 {
            break;
        }
    }
    out.flush().unwrap();
    json!({"requests":n,"queries":queries,"errors":errors,"stuck":stuck})
}

// ---------------------------------------------------------------------------
// replies
// ---------------------------------------------------------------------------
fn random_error(r: &mut Rng) -> ServerError {
    let m: String = rand_string(r).chars().take(80).collect();
    match r.below(11) {
        0 => ServerError::KeyError(m),
        1 => ServerError::NetworkError(m),
        2 => ServerError::WriteError(m),
        3 => ServerError::TokenizationError(m),
        4 => ServerError::ParseError(m),
        5 => ServerError::IndexError(m),
        6 => ServerError::TypeError(m),
        7 => ServerError::InternalError(m),
        8 => ServerError::AuthorizationError(m),
        9 => ServerError::AuthenticationError(m),
        _ => ServerError::RequestError(m),
    }
}
fn random_outcome(r: &mut Rng, big: u64) -> Outcome {
    Ok(match r.below(14) {
        0 => return Err(random_error(r)),
        1 => return Err(random_error(r)),
        2 => InterpreterResponse::Message("Ok".into()),
        3 => InterpreterResponse::Size(r.below(1000000) as usize),
        4 => InterpreterResponse::Expiration(if r.chance(1, 3) { None } else { Some(r.below(100000)) }),
        5 => InterpreterResponse::Bool(r.chance(1, 2)),
        6 => InterpreterResponse::ShuttingDown,
        7 => InterpreterResponse::Null,
        8 => InterpreterResponse::ValueType(match r.below(7) {
            0 => ValueType::Null,
            1 => ValueType::Bool,
            2 => ValueType::Int,
            3 => ValueType::Float,
            4 => ValueType::String,
            5 => ValueType::Vector(ct(*r.pick(&TYPES))),
            _ => ValueType::Map(kt(*r.pick(&["int", "str"])), ct(*r.pick(&TYPES))),
        }),
        _ => InterpreterResponse::Value(rand_val(r, big).to_real()),
    })
}

const ASK: &[u8] = b"POST / HTTP/1.1\r\nContent-Length: 13\r\n\r\n{\"query\":\"x\"}";

/// The bytes a client gets for an outcome; `slow`: how it reads.
fn fetch(r: &mut Reader, o: Outcome, slow: u64, rng: &mut Rng, small_buffers: bool) -> (Vec<u8>, Option<bool>) {
    shim::f(shim::SNDBUF).store(if small_buffers { 4608 } else { 0 }, SeqCst);
    let mut d = deliver(r, ASK, &whole(ASK.len()), End::Open);
    if small_buffers && slow > 50 {
        let v: i32 = 40_000;
        unsafe {
            libc::setsockopt(d.client.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &v as *const _ as *const _, 4);
        }
    }
    if !matches!(d.got, Some(Got::Query(..))) {
        done(r, d);
        return (vec![], None);
    }
    r.cmd.send(Some(o)).unwrap();
    d.client.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    let mut b = vec![];
    let mut buf = vec![0u8; 65536];
    if slow > 0 {
        std::thread::sleep(Duration::from_millis(slow));
    }
    let mut calls = 0;
    loop {
        let cap = if slow > 0 && calls < 20 { 1 + rng.below(3000) as usize } else { buf.len() };
        match d.client.read(&mut buf[..cap]) {
            Ok(0) => break,
            Ok(n) => b.extend(&buf[..n]),
            Err(_) => break,
        }
        calls += 1;
        if slow > 0 && calls < 20 {
            std::thread::sleep(Duration::from_millis((slow / 10).min(10)));
        }
    }
    let verdict = r.done.recv_timeout(PATIENCE).ok();
    if verdict.is_none() {
        *r = Reader::new(r.sync);
    }
    shim::f(shim::SNDBUF).store(0, SeqCst);
    (b, verdict)
}

fn find(b: &[u8], x: &[u8]) -> Option<usize> {
    b.windows(x.len()).position(|w| w == x)
}

/// vh httprep SEED sync|async N BIGS OUT PAUSE
/// PAUSE: ms for which the slowest client reads nothing
pub fn replies(a: &[String]) -> J {
    let mut rng = Rng::new(a[0].parse().unwrap());
    let sync = a[1] == "sync";
    let n: u64 = a[2].parse().unwrap();
    let bigs: u64 = a[3].parse().unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[4]).unwrap());
    let pause: u64 = a[5].parse().unwrap();
    let mut r = Reader::new(sync);
    let mut total = 0usize;
    let mut lost = vec![];
    for i in 0..n {
        let o = random_outcome(&mut rng, 40);
        let text = match &o {
            Err(e) => {
                let _ = get_error_code(e);
                format!("{}", e)
            }
            _ => String::new(),
        };
        let rr = R::from_real(&o, 1);
        if sync {
            // short writes and interruptions
            let plan: Vec<i32> = match rng.below(5) {
                0 => vec![1; 4000],
                1 => (0..200).map(|_| if rng.chance(1, 3) { -libc::EINTR } else { 1 + rng.below(50) as i32 }).collect(),
                2 => vec![-libc::EINTR, -libc::EINTR, 0],
                3 => (0..400).map(|_| 1 + rng.below(9) as i32).collect(),
                _ => vec![],
            };
            shim::send_plan(&plan);
        }
        let (b, verdict) = fetch(&mut r, o, 0, &mut rng, false);
        shim::send_plan(&[]);
        if verdict != Some(true) && lost.len() < 10 {
            lost.push(json!({"reply": i, "outcome": rr.to_spec(), "sender_said": verdict, "bytes": show_bytes(&b)}));
        }
        total += b.len();
        if b.len() > 6000 {
            continue;
        }
        writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
        writeln!(out, "{}", ascii(&json!({"kind":"reply","r":cp_reply(&rr),"text":cps(&text),"bytes":nums(&b)}))).unwrap();
    }
    for i in 0..bigs + 1 {
        let slowest = i == bigs && pause > 0;
        let i = if slowest { 3 } else { i };
        // a big reply and a client that reads slowly
        let vec = i % 3 == 2;
        let n = match i % 4 {
            0 => 1_500 + rng.below(4_000),
            1 => 200_000 + rng.below(100_000),
            2 => 30_000 + rng.below(10_000),
            _ => 700_000 + rng.below(100_000),
        } as usize;
        let s = *rng.pick(&["x", "\u{e9}", "\"", "\n", "\u{1F600}", "ab", "\u{1}"]);
        let k = rng.below(100000) as i64 - 5000;
        let (v, unit, what, x) = if vec {
            let es = vec![sc("int", &k.to_string()); n];
            (V::Vec("int".into(), es).to_real(), format!("{{\"Int\":{}}},", k), "vec", cps(&k.to_string()))
        } else {
            let u = serde_json::to_string(s).unwrap();
            (StorageValue::String(s.repeat(n)), u[1..u.len() - 1].to_string(), "str", cps(s))
        };
        if sync && !slowest && rng.chance(1, 2) {
            let plan: Vec<i32> = (0..300).map(|_| 1 + rng.below(2000) as i32).collect();
            shim::send_plan(&plan);
        }
        let small = slowest || rng.chance(2, 3);
        let wait = if slowest { pause } else { 20 + rng.below(80) };
        let (b, verdict) = fetch(&mut r, Ok(InterpreterResponse::Value(v)), wait, &mut rng, small);
        shim::send_plan(&[]);
        total += b.len();
        let u = unit.as_bytes();
        let h = find(&b, b"\n\n").map(|p| p + 2).or(find(&b, b"\r\n\r\n").map(|p| p + 4)).unwrap_or(0);
        let at = h + find(&b[h..], if vec { u } else { b":\"" }).map(|p| if vec { p } else { p + 2 }).unwrap_or(0);
        let mut got = 0;
        while b[at + got * u.len()..].starts_with(u) {
            got += 1;
        }
        let (pre, post) = (&b[..at], &b[at + got * u.len()..]);
        if verdict != Some(true) && lost.len() < 10 {
            lost.push(json!({"big": what, "repetitions": n, "sender_said": verdict, "bytes_received": b.len()}));
        }
        let cut = |x: &[u8]| nums(&x[..x.len().min(400)]);
        writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
        writeln!(out, "{}", ascii(&json!({"kind":"big","what":what,"x":x,"n":n,"pre":cut(pre),"unit":nums(u),"got":got,"post":cut(post)}))).unwrap();
    }
    // clients that go away: before the reply, during it
    let mut away = 0;
    for i in 0..40 {
        let d = deliver(&r, ASK, &whole(ASK.len()), End::Open);
        if !matches!(d.got, Some(Got::Query(..))) {
            done(&mut r, d);
            continue;
        }
        let big = InterpreterResponse::Value(StorageValue::String("y".repeat(300_000)));
        if i % 2 == 0 {
            if i % 4 == 0 {
                linger0(&d.client);
            }
            drop(d);
            r.cmd.send(Some(Ok(big))).unwrap();
        } else {
            r.cmd.send(Some(Ok(big))).unwrap();
            let mut c = d.client;
            let mut buf = [0u8; 100];
            let _ = c.read(&mut buf);
            linger0(&c);
            drop(c);
        }
        match r.done.recv_timeout(PATIENCE) {
            Ok(_) => away += 1,
            Err(_) => {
                lost.push(json!({"stuck": "sending to a client that went away"}));
                r = Reader::new(sync);
            }
        }
    }
    // and the handler still serves
    let (b, verdict) = fetch(&mut r, Ok(InterpreterResponse::Null), 0, &mut rng, false);
    if verdict != Some(true) || b.is_empty() {
        lost.push(json!({"stuck": "no reply after clients went away"}));
    }
    let _ = rand_scalar(&mut rng, "int");
    out.flush().unwrap();
    json!({"replies":n,"big":bigs,"bytes":total,"clients_gone":away,"lost":lost})
}
