//! The real server processes under the shim, and clients talking to them over
//! loopback; what was sent and received is recorded for ServedTrace.tla and
//! ServiceTrace.tla.
use crate::http::*;
use crate::lang::*;
use crate::rng::Rng;
use crate::shim::{self, Ctl};
use crate::val::*;
use serde_json::{json, Value as J};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const VARIANTS: [&str; 3] = ["simple", "multi", "async"];

pub struct Server {
    pub kind: String,
    pub child: Child,
    pub ctl: Ctl,
    pub port: u16,
    pub exit: Option<std::process::ExitStatus>,
}

fn listening(port: u16) -> bool {
    let t = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
    let want = format!(":{:04X}", port);
    t.lines().skip(1).any(|l| {
        let f: Vec<&str> = l.split_whitespace().collect();
        f.len() > 3 && f[1].ends_with(&want) && f[3] == "0A"
    })
}

impl Server {
    /// Start a server with a virtual (or, if not, real but shiftable) clock.
    pub fn start(kind: &str, virt: bool, setup: impl Fn(&Ctl)) -> Server {
        let me = std::env::current_exe().unwrap();
        let bin = me.with_file_name(format!("{}_server", kind));
        for attempt in 0.. {
            let ctl = Ctl::new();
            if virt {
                ctl.virtual_clock();
            }
            setup(&ctl);
            let port = free_port();
            let mut c = Command::new(&bin);
            c.env("VSHIM_CTL", &ctl.path).env("VSHIM_PORT", port.to_string());
            c.env("MALLOC_MMAP_THRESHOLD_", "65536").env("MALLOC_ARENA_MAX", "2");
            c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            unsafe {
                c.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    // connections that are not given back soon show
                    let few = libc::rlimit { rlim_cur: 200, rlim_max: 200 };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &few);
                    Ok(())
                });
            }
            let child = c.spawn().expect("start server");
            let mut s = Server { kind: kind.to_string(), child, ctl, port, exit: None };
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_secs(10) {
                if listening(port) {
                    return s;
                }
                if !s.alive() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            if attempt == 4 {
                panic!("server {} does not start", kind);
            }
        }
        unreachable!()
    }
    pub fn alive(&mut self) -> bool {
        if self.exit.is_none() {
            self.exit = self.child.try_wait().unwrap();
        }
        self.exit.is_none()
    }
    /// Wait for the process to end by itself.
    pub fn ended(&mut self, d: Duration) -> bool {
        let t0 = Instant::now();
        while self.alive() {
            if t0.elapsed() > d {
                return false;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        true
    }
    pub fn clean_exit(&self) -> bool {
        matches!(&self.exit, Some(s) if s.success() && s.signal().is_none())
    }
    pub fn now(&self, ms: i64) {
        self.ctl.set_time(ms * 1_000_000);
    }
    pub fn quiet(&self) -> bool {
        self.ctl.get(shim::ACCEPTED) == self.ctl.get(shim::CLOSED)
    }
    /// Wait until every accepted connection has been closed by the server.
    pub fn settle(&self, d: Duration) -> bool {
        let t0 = Instant::now();
        while !self.quiet() {
            if t0.elapsed() > d {
                return false;
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        true
    }
    pub fn rss_kb(&self) -> i64 {
        let t = std::fs::read_to_string(format!("/proc/{}/statm", self.child.id())).unwrap_or_default();
        t.split_whitespace().nth(1).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1) * 4
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// How a client treats its connection.
#[derive(Clone, Debug)]
pub enum Manner {
    Stay,              // send all, keep the sending side open, read the reply
    Shut,              // send all, close the sending side, read the reply
    Pieces(Vec<usize>), // send in pieces with pauses, then as Stay
    PiecesShut(Vec<usize>), // the same, then as Shut
    Vanish,            // send all, then reset without reading
    Leave,             // send all, then close without reading
    Behind,            // as Vanish, while another client is not yet done with its request
}

pub const PATIENCE: Duration = Duration::from_secs(20);

pub fn connect(port: u16) -> Option<TcpStream> {
    for _ in 0..50 {
        if let Ok(c) = TcpStream::connect(("127.0.0.1", port)) {
            let _ = c.set_nodelay(true);
            return Some(c);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    None
}

/// The bytes of the reply (all of them, up to the end of the connection).
pub fn read_all(c: &mut TcpStream, d: Duration) -> (Vec<u8>, bool) {
    let t0 = Instant::now();
    let mut b = vec![];
    let mut buf = [0u8; 16384];
    loop {
        let left = d.checked_sub(t0.elapsed()).unwrap_or(Duration::from_millis(1)).max(Duration::from_millis(1));
        c.set_read_timeout(Some(left)).unwrap();
        match c.read(&mut buf) {
            Ok(0) => return (b, true),
            Ok(n) => b.extend(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => return (b, false),
            Err(_) => return (b, true),
        }
        if t0.elapsed() > d {
            return (b, false);
        }
    }
}

pub fn talk(port: u16, bytes: &[u8], m: &Manner) -> (Vec<u8>, bool) {
    // a server that reads one connection at a time comes to this one when its client has gone
    let ahead = if matches!(m, Manner::Behind) { connect(port) } else { None };
    let mut c = match connect(port) {
        Some(c) => c,
        None => return (vec![], true),
    };
    match m {
        Manner::Pieces(segs) | Manner::PiecesShut(segs) => {
            let mut at = 0;
            for n in segs {
                let n = (*n).min(bytes.len() - at);
                if c.write_all(&bytes[at..at + n]).is_err() {
                    break;
                }
                at += n;
                std::thread::sleep(Duration::from_micros(150));
            }
            let _ = c.write_all(&bytes[at..]);
        }
        _ => {
            let _ = c.write_all(bytes);
        }
    }
    match m {
        Manner::Vanish => {
            linger0(&c);
            (vec![], true)
        }
        Manner::Behind => {
            linger0(&c);
            drop(c);
            std::thread::sleep(Duration::from_millis(20));
            drop(ahead);
            (vec![], true)
        }
        Manner::Leave => (vec![], true),
        Manner::Shut | Manner::PiecesShut(_) => {
            let _ = c.shutdown(Shutdown::Write);
            read_all(&mut c, PATIENCE)
        }
        _ => read_all(&mut c, PATIENCE),
    }
}

/// A well-formed request for a query, spelled in one of many ways.
pub fn frame(r: &mut Rng, query: &str, users: &[&str], plain: bool) -> Vec<u8> {
    let mut o = serde_json::Map::new();
    if !plain && r.chance(1, 6) {
        o.insert(r.pick(&["a", "z", "Query"]).to_string(), json!([1, {"b": null}, "x"]));
    }
    o.insert("query".into(), J::String(query.to_string()));
    let o = J::Object(o);
    let body = match if plain { 9 } else { r.below(6) } {
        0 => serde_json::to_string_pretty(&o).unwrap(),
        1 | 2 => ascii(&o),
        _ => o.to_string(),
    };
    let mut hs = vec![format!("{}: {}", if plain { "Content-Length" } else { r.pick(&["Content-Length", "content-length", "Content-length", "CONTENT-LENGTH"]) }, body.len())];
    for u in users {
        let at = r.below(hs.len() as u64 + 1) as usize;
        hs.insert(at, format!("Username: {}", u));
    }
    if !plain && r.chance(1, 4) {
        // sometimes more than a server takes
        let n = if r.chance(1, 6) { 26 + r.below(12) } else { r.below(6) };
        for _ in 0..n {
            let at = r.below(hs.len() as u64 + 1) as usize;
            hs.insert(at, header_noise(r));
        }
    }
    let eol = if !plain && r.chance(1, 10) { "\n" } else { "\r\n" };
    let mut s = format!("POST {} HTTP/1.1{}", if plain { "/" } else { r.pick(&["/", "/", "/q?x=1", "*"]) }, eol);
    for h in hs {
        s.push_str(&h);
        s.push_str(eol);
    }
    s.push_str(eol);
    s.push_str(&body);
    s.into_bytes()
}

const USERS: &[&str] = &["admin", "admin", "admin", "admin", "write", "write", "read"];
const STRANGERS: &[&str] = &["unauthenticated", "nobody", "Admin", "ADMIN", "admin2", "adm in", "root", "", "read,admin", "\"admin\"", "write;admin", "admi", "dmin", "Read", "WRITE", "админ", "admin\u{e9}", "nobody-with-a-name-of-more-than-sixty-four-characters-in-all-0123456789", "xxxxxxxxxxxxxxxxxxxxxxx\u{e9}\u{e9}\u{e9}\u{e9}"];

fn auth_headers(r: &mut Rng) -> Vec<String> {
    // the name given twice
    if r.chance(1, 10) {
        let any = |r: &mut Rng| if r.chance(2, 3) { r.pick(USERS) } else { r.pick(STRANGERS) }.to_string();
        return vec![any(r), any(r)];
    }
    match r.below(12) {
        0 | 1 => vec![],
        2..=4 => vec![r.pick(STRANGERS).to_string()],
        _ => vec![r.pick(USERS).to_string()],
    }
}

/// Header lines that look like credentials but are none.
fn decoys(r: &mut Rng, b: Vec<u8>) -> Vec<u8> {
    let s = match String::from_utf8(b) {
        Ok(s) => s,
        Err(e) => return e.into_bytes(),
    };
    if r.chance(1, 2) {
        return s.into_bytes();
    }
    let d = *r.pick(&["User: admin", "X-Username: admin", "Usernam: admin", "UserName2: admin", "Authorization: Basic YWRtaW46YWRtaW4=", "Name: Username: admin", "Cookie: Username=admin", "Level: admin"]);
    s.replacen("HTTP/1.1\r\n", &format!("HTTP/1.1\r\n{}\r\n", d), 1).into_bytes()
}

fn nap(us: u64) {
    std::thread::sleep(Duration::from_micros(us));
}

/// A request which, sent again and again, is answered alike each time and leaves the store as the
/// first one did.
fn idempotent(r: &mut Rng, k: &str) -> (Vec<u8>, Manner, String) {
    let q = match r.below(12) {
        0 => format!("set {} 1", k),
        1 => format!("get {}", k),
        2 => "get missing_key".into(),
        3 => "vpush missing_key 1; set a 2".into(),
        4 => "set".into(),
        5 => "\"".into(),
        6 => "".into(),
        7 => format!("type {}; shutdown now", k),
        8 => "mget missing_key 1; shutdown".into(),
        9 => format!("set {} int [1, 2]; vget {} 2", k, k),
        10 => format!("set {} str int {{\"a\": 1}}; mdel {} \"b\"", k, k),
        _ => "shutdown".into(),
    };
    let us: Vec<&str> = if q == "shutdown" {
        vec![*r.pick(&["read", "write", "nobody", "unauthenticated", ""])]
    } else {
        match r.below(6) {
            0 => vec![],
            1 => vec![*r.pick(STRANGERS)],
            2 => vec!["read"],
            _ => vec!["admin"],
        }
    };
    let mut b = frame(r, &q, &us, false);
    let mut m = Manner::Stay;
    match r.below(12) {
        0 => {
            b.truncate(r.below(b.len() as u64) as usize);
            m = Manner::Shut;
        }
        1 => b = String::from_utf8(b).unwrap().replacen("POST", "GET", 1).into_bytes(),
        2 => b = String::from_utf8(b).unwrap().replacen("ength: ", "ength: x", 1).into_bytes(),
        3 => b = String::from_utf8(b).unwrap().replacen("query", "qvery", 1).into_bytes(),
        4 => {
            b = (0..r.below(200)).map(|_| r.below(256) as u8).collect();
            m = Manner::Shut;
        }
        5 => {
            b.truncate(r.below(b.len() as u64) as usize);
            m = Manner::Vanish;
        }
        6 => m = Manner::PiecesShut(random_segs(r, b.len())),
        _ => (),
    }
    (b, m, q)
}

/// vh netseq SEED HISTORIES LEN OUT MODE VARIANTS
/// MODE: same (well-formed requests), auth (credentials of all kinds), rough (clients of all kinds)
pub fn sequence(a: &[String]) -> J {
    let seed: u64 = a[0].parse().unwrap();
    let (nh, len): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let mode = &a[4][..];
    let variants: Vec<&str> = a[5].split(',').collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    let (mut n, mut stops, mut unanswered) = (0u64, 0u64, vec![]);
    let mut mixed = 0;
    for h in 0..nh {
        let mut r = Rng::new(seed * 104729 + h);
        let mut servers: Vec<Server> = variants.iter().map(|k| Server::start(k, true, |_| ())).collect();
        let mut names: Vec<String> = vec![];
        for _ in 0..2 + r.below(3) {
            names.push(rand_name(&mut r));
        }
        writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
        let mut now = 0i64;
        let mut repeat: Option<(Vec<u8>, Manner, u64, String)> = None;
        let mut i = 0;
        let mut over = false;
        let (mut again, mut last) = (0u64, vec![]);
        let mut base: (String, u64) = (String::new(), 0);
        while i < len && !over {
            if repeat.is_some() {
                again += 1;
            } else {
                again = 0;
            }
            if again == 0 || mode != "long" {
                i += 1;
            }
            if again == 0 && r.chance(1, 8) {
                now += *r.pick(&[1, 999, 1000, 1001, 2000, 60_000]);
                for s in &servers {
                    s.now(now);
                }
            }
            // what to send, and how
            let mut large = false;
            let (bytes, manner, q) = match repeat.take() {
                Some((b, m, k, q)) => {
                    if k > 1 {
                        repeat = Some((b.clone(), m.clone(), k - 1, q.clone()));
                    }
                    (b, m, q)
                }
                None => {
                    let flavour = if r.chance(1, 3) { "lits" } else { "all" };
                    let mut q = rand_query(&mut r, &names, flavour);
                    for _ in 0..20 {
                        let short = q.chars().count() < 250;
                        if short && (i > 3 || understand(&q)["cs"][0]["op"] == "set") {
                            break;
                        }
                        q = rand_query(&mut r, &names, "all");
                    }
                    if mode == "rough" && r.chance(1, 4) {
                        q = odd_query(&mut r, &names);
                    }
                    // the like of a query just sent
                    if mode == "same" {
                        if base.1 > 0 {
                            base.1 -= 1;
                            q = twin(&mut r, &base.0);
                        } else if r.chance(1, 10) {
                            q = telling(&mut r, &names[0]);
                            base = (q.clone(), 6);
                        }
                    }
                    // a shutdown asked for in all sorts of ways
                    if mode != "stop" && (mode != "long" || i > 36) && i > 6 && r.chance(1, 40) {
                        q = match r.below(4) {
                            0 => "shutdown".into(),
                            1 => format!("set {} 1; shutdown", names[0]),
                            2 => format!("get missing_key; shutdown"),
                            _ => "shutdown; shutdown; get a".into(),
                        };
                    }
                    match mode {
                        "long" if i > 4 && i % 4 == 0 => {
                            let (b, m, q) = idempotent(&mut r, &names[0]);
                            let times = *r.pick(&[70, 130, 260, 260, 300, 520, 1100]);
                            repeat = Some((b.clone(), m.clone(), times, q.clone()));
                            (b, m, q)
                        }
                        "same" | "long" => {
                            let u = *r.pick(USERS);
                            if mode == "same" && i % 25 == 20 {
                                // now and then a large one, with a large answer
                                let n = crate::hist::edge(&mut r, 1000, 33_000);
                                let c = *r.pick(&["x", "\u{e9}", "\\n", " ;"]);
                                let n = n as usize / c.len();
                                let k = names[0].clone();
                                q = match r.below(3) {
                                    0 => format!("set {} \"{}\"; get {}", k, c.repeat(n), k),
                                    1 => format!("set {} str [\"{}\"]; vpop {}", k, c.repeat(n), k),
                                    _ => format!("set {} int [{}]; get {}", k, vec!["77"; 1 + n / 16].join(","), k),
                                };
                                large = true;
                            }
                            let segs = if r.chance(1, 4) { Manner::Pieces(random_segs(&mut r, 200)) } else { Manner::Stay };
                            let us: &[&str] = if mode == "same" && r.chance(1, 15) { &[u, r.pick(USERS)] } else { &[u] };
                            (frame(&mut r, &q, us, false), segs, q)
                        }
                        "stop" => {
                            let k = names[0].clone();
                            let q = match r.below(14) {
                                0 => "shutdown".to_string(),
                                1 => "ShutDown ;".into(),
                                2 => format!("set {} 1; shutdown", k),
                                3 => "get missing_key; shutdown".into(),
                                4 => format!("shutdown; set {} 2", k),
                                5 => "shutdown now".into(),
                                6 => format!("set {} \"shutdown\"", k),
                                7 => format!("get {}", k),
                                8 => format!("vpush {} 1; shutdown; shutdown", k),
                                9 => "shutdown 1".into(),
                                10 => "shutdown; get".into(),
                                11 => format!("ex {}; shutdown", k),
                                12 => format!("try_set {} 3; get missing_key; shutdown", k),
                                _ => "shut_down".into(),
                            };
                            let real = i > 3 && r.chance(1, 4);
                            let us: Vec<&str> = if real || !understand(&q)["st"].eq("ok") || !text_stops(&q) || q.contains("missing") {
                                vec!["admin"]
                            } else {
                                match r.below(8) {
                                    0..=2 => vec!["write"],
                                    3 | 4 => vec!["read"],
                                    5 => vec!["nobody"],
                                    6 => vec!["unauthenticated"],
                                    _ => vec![],
                                }
                            };
                            let mut b = frame(&mut r, &q, &us, false);
                            let mut m = Manner::Stay;
                            match r.below(12) {
                                0 => {
                                    b.truncate(b.len() - 1 - r.below(20) as usize);
                                    m = Manner::Shut;
                                }
                                1 => {
                                    let t = String::from_utf8(b).unwrap().replacen("POST", "GET", 1);
                                    b = t.into_bytes();
                                }
                                2 => m = Manner::Leave,
                                3 => m = Manner::PiecesShut(random_segs(&mut r, b.len())),
                                4 | 5 => m = Manner::Behind,
                                _ => (),
                            }
                            (b, m, q)
                        }
                        "auth" => {
                            let us = auth_headers(&mut r);
                            let us: Vec<&str> = us.iter().map(|s| &s[..]).collect();
                            let b = frame(&mut r, &q, &us, false);
                            (decoys(&mut r, b), Manner::Stay, q)
                        }
                        _ => {
                            let u = *r.pick(USERS);
                            let mut b = if r.chance(1, 2) { frame(&mut r, &q, &[u], false) } else { random_request(&mut r) };
                            let mut m = Manner::Shut;
                            match r.below(10) {
                                0 => b.truncate(r.below(b.len() as u64 + 1) as usize),
                                1 => {
                                    let k = r.below(b.len() as u64) as usize;
                                    b[k] = r.below(256) as u8;
                                }
                                2 => b = (0..r.below(200)).map(|_| r.below(256) as u8).collect(),
                                3 => m = Manner::Vanish,
                                4 => m = Manner::Leave,
                                5 => m = Manner::PiecesShut(random_segs(&mut r, b.len())),
                                _ => (),
                            }
                            if r.chance(1, 3) {
                                // as often as there are workers, and more
                                repeat = Some((b.clone(), m.clone(), 4, q.clone()));
                            }
                            (b, m, q)
                        }
                    }
                }
            };
            if bytes.len() > 2500 && !large {
                continue;
            }
            let gone = matches!(manner, Manner::Vanish | Manner::Leave | Manner::Behind);
            let mut got = vec![];
            for s in servers.iter_mut() {
                let (mut b, mut end) = talk(s.port, &bytes, &manner);
                if gone {
                    nap(300);
                }
                if !s.settle(PATIENCE) && s.alive() {
                    end = false;
                }
                if !end {
                    if unanswered.len() < 10 {
                        unanswered.push(json!({"server": s.kind, "history": h, "bytes": show_bytes(&bytes), "manner": format!("{:?}", manner), "received": show_bytes(&b)}));
                    }
                    b = b"no end".to_vec();
                }
                got.push(b);
            }
            n += 1;
            let stop = got.iter().any(|b| b.windows(14).any(|w| w == b"\"ShuttingDown\""));
            let text = body_query(&bytes).unwrap_or(q);
            // the like of the one before, which left everything as it was: nothing new to judge
            let known = mode == "long" && again > 1 && got == last;
            last = got.clone();
            if known {
                continue;
            }
            writeln!(
                out,
                "{}",
                ascii(&json!({"kind":"req","bytes":nums(&bytes),"f":hints(&text),"now":now,"gone":gone,"got":got.iter().map(|b| nums(b)).collect::<Vec<_>>()}))
            )
            .unwrap();
            // nobody was told: see whether the first server ends
            let quiet_stop = gone && text_stops(&text) && bytes.windows(5).any(|w| w.eq_ignore_ascii_case(b"admin")) && servers[0].ended(Duration::from_secs(2));
            if stop || quiet_stop || (gone && servers.iter_mut().any(|s| !s.alive())) {
                over = true;
                stops += 1;
            }
            if unanswered.len() >= 2 {
                over = true;
            }
        }
        // who is still running; a stopped server ends within a bounded time
        let limit = Duration::from_secs(20);
        if !over || !unanswered.is_empty() {
            nap(20_000);
        }
        let run: Vec<J> = servers
            .iter_mut()
            .map(|s| {
                if over && unanswered.is_empty() {
                    s.ended(limit);
                }
                if s.alive() { json!("up") } else if s.clean_exit() { json!("ended") } else { json!("crashed") }
            })
            .collect();
        writeln!(out, "{}", json!({"kind":"state","procs":run})).unwrap();
        // the servers do not agree about being up: enough to be judged
        if run.iter().any(|x| *x != run[0]) {
            mixed += 1;
        }
        if unanswered.len() >= 2 || mixed >= 2 {
            break;
        }
    }
    out.flush().unwrap();
    json!({"histories":nh,"requests":n,"stops":stops,"unanswered":unanswered})
}

fn text_stops(t: &str) -> bool {
    t.to_lowercase().contains("shutdown")
}

/// The query in the body of a request, as far as it can be made out.
pub fn body_query(b: &[u8]) -> Option<String> {
    let at = b.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4).into_iter().chain(b.windows(2).position(|w| w == b"\n\n").map(|p| p + 2)).min()?;
    let mut de = serde_json::Deserializer::from_slice(&b[at..]).into_iter::<J>();
    let j = de.next()?.ok()?;
    Some(j.get("query")?.as_str()?.to_string())
}
