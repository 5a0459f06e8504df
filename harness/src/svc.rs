//! Many clients at once against one real server process; what each sent and
//! got, in real time order, for ServiceTrace.tla.
use crate::http::*;
use crate::lang::*;
use crate::net::*;
use crate::rng::Rng;
use crate::shim;
use crate::val::*;
use serde_json::{json, Value as J};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

const LIMIT: Duration = Duration::from_millis(990);

/// Requests over few keys, so that most of them interfere; what is written is unique.
pub fn query(r: &mut Rng, uniq: &AtomicI64) -> String {
    fn u(q: &AtomicI64) -> i64 {
        q.fetch_add(1, SeqCst)
    }
    let one = |r: &mut Rng| -> String {
        let v = *r.pick(&["va", "vb"]);
        match r.below(28) {
            0 => format!("vpush {} {}", v, u(uniq)),
            1..=5 => format!("vpush {} {}; vlen {}", v, u(uniq), v),
            6..=7 => format!("vpop {}", v),
            8..=9 => format!("get {}", v),
            10 => format!("vlen {}", v),
            11 => format!("get k; set k {}", u(uniq)),
            12 => format!("get k"),
            13 => format!("try_set once{} {}", r.below(3), u(uniq)),
            14 => format!("try_get once{}", r.below(3)),
            15 => format!("del once{}", r.below(3)),
            16 => format!("mset m {} {}", r.below(3), u(uniq)),
            17 => format!("mdel m {}", r.below(3)),
            18 => format!("mget m {}", r.below(3)),
            19 => format!("get m"),
            20 => format!("vset va 0 {}", u(uniq)),
            21 => format!("vget vb 1"),
            22 => format!("set t {} 3", u(uniq)),
            23 => format!("upd k {}", u(uniq)),
            24 => format!("ex t; type t"),
            25 => format!("vpush {} \"x\"", v),
            _ => format!("get {}", v),
        }
    };
    match r.below(12) {
        0..=5 => one(r),
        6..=8 => {
            let n = 2 + r.below(4);
            (0..n).map(|_| one(r)).collect::<Vec<_>>().join("; ")
        }
        9 => match r.below(3) {
            0 => format!("get va; vpush va {}; get va", u(uniq)),
            1 => {
                let x = u(uniq);
                format!("set k {}; set t {} 40; set k2 {}; vpush va {}; get k2", x, x, x, x)
            }
            _ => {
                let x = u(uniq);
                format!("set k {}; set k2 {}; get k", x, x)
            }
        },
        10 => r.pick(&["vpush va", "get \"k\"", "set k 1.0.0", "#", "vpush va 1 2 3"]).to_string(),
        _ => {
            let x = u(uniq);
            format!("vpush va {}; vpush vb {}; get vb", x, x)
        }
    }
}

struct Log {
    ev: Vec<J>,
    next: u64,
}

fn call(log: &Mutex<Log>, bytes: &[u8], text: &str) -> (usize, u64) {
    let mut l = log.lock().unwrap();
    let id = l.next;
    l.next += 1;
    l.ev.push(json!({"kind":"call","id":id,"bytes":nums(bytes),"f":hints(text),"got":[],"late":false,"gone":"no"}));
    (l.ev.len() - 1, id)
}

fn ret(log: &Mutex<Log>, at: (usize, u64), got: &[u8], late: bool, gone: &str) {
    let mut l = log.lock().unwrap();
    l.ev[at.0]["got"] = json!(nums(got));
    l.ev[at.0]["late"] = json!(late);
    l.ev[at.0]["gone"] = json!(gone);
    l.ev.push(json!({"kind":"ret","id":at.1}));
}

/// vh svc SEED HISTORIES ROUNDS CLIENTS OUT SERVER MODE
/// MODE: load (jitter only), slow (the executor stalls beyond the time limit), stop (ends in a shutdown)
pub fn main(a: &[String]) -> J {
    let seed: u64 = a[0].parse().unwrap();
    let (nh, rounds, clients): (u64, u64, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let kind = &a[5][..];
    let mode = &a[6][..];
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[4]).unwrap());
    let (mut n, mut overlap, mut late_n, mut stalls) = (0u64, 0u64, 0u64, 0i64);
    let mut unanswered: Vec<J> = vec![];
    for h in 0..nh {
        let mut r = Rng::new(seed * 7919 + h);
        let mut s = Server::start(kind, true, |c| c.set(shim::JITTER, *Rng::new(seed + h).pick(&[0, 50, 300, 1500])));
        let log = Arc::new(Mutex::new(Log { ev: vec![json!({"kind":"reset"})], next: 0 }));
        let uniq = Arc::new(AtomicI64::new(1));
        let mut now = 0i64;
        let busy = Arc::new(AtomicI64::new(0));
        let maxbusy = Arc::new(AtomicI64::new(0));
        let lates = Arc::new(AtomicI64::new(0));
        // the beginning of the history, one request
        let first = frame(&mut r, "set va int [] 99999; set vb int [] 99999; set m int int {} 99999; set k 0 99999", &["admin"], true);
        let at = call(&log, &first, "");
        let (b, _) = talk(s.port, &first, &Manner::Stay);
        ret(&log, at, &b, false, "no");
        let stopping = Arc::new(AtomicBool::new(false));
        for round in 0..rounds {
            let barrier = Arc::new(Barrier::new(clients));
            let last = round + 1 == rounds;
            if mode == "slow" && r.chance(1, 2) {
                s.ctl.set(shim::CLK_US, *r.pick(&[1_150_000, 1_400_000, 2_300_000]));
                s.ctl.set(shim::CLK_N, 1 + r.below(20) as i64);
            }
            let hs: Vec<_> = (0..clients)
                .map(|c| {
                    let (barrier, log, uniq, busy, maxbusy, lates, stopping) = (barrier.clone(), log.clone(), uniq.clone(), busy.clone(), maxbusy.clone(), lates.clone(), stopping.clone());
                    let port = s.port;
                    let mut r = Rng::new(seed * 31 + h * 1009 + round * 101 + c as u64);
                    let mode = mode.to_string();
                    let limited = kind == "multi";
                    std::thread::spawn(move || -> Option<J> {
                        barrier.wait();
                        let k = 1 + r.below(if mode == "slow" { 2 } else { 4 });
                        for j in 0..k {
                            let mut q = query(&mut r, &uniq);
                            if mode == "stop" && last && c == 0 && j == k / 2 {
                                q = r.pick(&["shutdown", "vpush va 77777; shutdown", "shutdown; vpush va 88888", "vpush nowhere 1; shutdown"]).to_string();
                            }
                            let users: Vec<&str> = match r.below(20) {
                                0 => vec![],
                                1 => vec!["read"],
                                2 => vec!["write"],
                                3 => vec!["nobody"],
                                4 => vec!["unauthenticated"],
                                _ => vec!["admin"],
                            };
                            let mut bytes = frame(&mut r, &q, &users, true);
                            let m = match r.below(40) {
                                0 => Manner::Vanish,
                                1 => Manner::Leave,
                                2 | 3 => Manner::Pieces(random_segs(&mut r, 60)),
                                _ => Manner::Stay,
                            };
                            let gone = match m {
                                Manner::Vanish => {
                                    if r.chance(1, 2) {
                                        bytes.truncate(r.below(bytes.len() as u64) as usize);
                                    }
                                    "lost"
                                }
                                Manner::Leave => "left",
                                _ => "no",
                            };
                            if stopping.load(SeqCst) && r.chance(1, 2) {
                                return None;
                            }
                            let at = call(&log, &bytes, "");
                            let b0 = busy.fetch_add(1, SeqCst) + 1;
                            maxbusy.fetch_max(b0, SeqCst);
                            let t0 = Instant::now();
                            let (got, end) = talk(port, &bytes, &m);
                            let late = limited && t0.elapsed() >= LIMIT;
                            if late {
                                lates.fetch_add(1, SeqCst);
                            }
                            busy.fetch_sub(1, SeqCst);
                            if got.windows(14).any(|w| w == b"\"ShuttingDown\"") {
                                stopping.store(true, SeqCst);
                            }
                            ret(&log, at, if end { &got } else { b"no end" }, late, gone);
                            if !end {
                                return Some(json!({"server": kind_of(limited), "history": h, "bytes": show_bytes(&bytes), "received": show_bytes(&got)}));
                            }
                            if mode == "slow" && got.is_empty() {
                                break;
                            }
                        }
                        None
                    })
                })
                .collect();
            for t in hs {
                if let Ok(Some(j)) = t.join() {
                    unanswered.push(j);
                }
            }
            overlap = overlap.max(maxbusy.load(SeqCst) as u64);
            // let everything that is still under way run
            let stalled = mode == "slow";
            s.ctl.set(shim::CLK_N, 0);
            if stopping.load(SeqCst) {
                break;
            }
            if !s.settle(PATIENCE) && s.alive() {
                unanswered.push(json!({"server": kind, "history": h, "what": "connections not closed by the server"}));
            }
            std::thread::sleep(Duration::from_millis(if stalled || lates.load(SeqCst) > 0 { 3500 } else { 30 }));
            lates.fetch_add(-lates.load(SeqCst), SeqCst);
            if r.chance(1, 3) {
                now += *r.pick(&[1, 1000, 2999, 3001, 60_000]);
                s.now(now);
            }
            log.lock().unwrap().ev.push(json!({"kind":"sync","now":now}));
            if unanswered.len() > 2 {
                break;
            }
        }
        stalls += s.ctl.get(shim::CLK_HIT);
        // what is there in the end
        if !stopping.load(SeqCst) {
            let q = frame(&mut r, "get va", &["read"], true);
            let at = call(&log, &q, "");
            let (b, _) = talk(s.port, &q, &Manner::Stay);
            ret(&log, at, &b, false, "no");
            for t in ["get vb", "get k", "try_get once0", "try_get once1", "try_get once2", "get m"] {
                let q = frame(&mut r, t, &["read"], true);
                let at = call(&log, &q, "");
                let (b, _) = talk(s.port, &q, &Manner::Stay);
                ret(&log, at, &b, false, "no");
            }
            std::thread::sleep(Duration::from_millis(10));
        } else {
            s.ended(Duration::from_secs(25));
        }
        let proc = if s.alive() { "up" } else if s.clean_exit() { "ended" } else { "crashed" };
        let mut l = log.lock().unwrap();
        l.ev.push(json!({"kind":"state","proc":proc}));
        for e in &l.ev {
            if e["kind"] == "call" {
                n += 1;
                if e["late"] == true {
                    late_n += 1;
                }
            }
            writeln!(out, "{}", e).unwrap();
        }
        if unanswered.len() > 2 {
            break;
        }
    }
    out.flush().unwrap();
    json!({"histories":nh,"requests":n,"most_at_once":overlap,"late":late_n,"stalls":stalls,"unanswered":unanswered})
}
fn kind_of(limited: bool) -> &'static str {
    if limited { "multi" } else { "simple/async" }
}
