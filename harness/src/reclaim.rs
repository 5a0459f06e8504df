//! Running servers left alone with elapsed keys: how many big values they
//! still hold, by the memory of the process, as time goes by.
use crate::lang::*;
use crate::net::*;
use crate::rng::Rng;
use serde_json::{json, Value as J};
use std::io::Write;
use std::time::{Duration, Instant};

/// vh reclaim SEED OUT KIND N SECONDS SPEED IDLE
/// SPEED times faster than real time (lifetimes, sleeps, limits); IDLE seconds pass before anything
/// is stored that will elapse
pub fn main(a: &[String]) -> J {
    let seed: u64 = a[0].parse().unwrap();
    let kind = &a[2][..];
    let n: i64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let speed: u64 = a[5].parse().unwrap();
    let idle: f64 = a[6].parse().unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[1]).unwrap());
    let mut r = Rng::new(seed * 7919 + 11);
    let mut s = Server::start(kind, false, |c| c.set(crate::shim::SPEED, speed as i64));
    let names: Vec<String> = (0..3).map(|_| rand_name(&mut r)).collect();
    let users = ["admin", "write", "read", "nobody", "unauthenticated"];
    let mut asked = 0u64;
    // whether this machine lets a thread wait for longer than it asked to
    let stall = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let st = stall.clone();
    std::thread::spawn(move || loop {
        let t = Instant::now();
        std::thread::sleep(Duration::from_millis(20));
        st.fetch_max((t.elapsed().as_millis() as u64).saturating_sub(20), std::sync::atomic::Ordering::SeqCst);
    });
    let mut lives = true;
    let mut one = |s: &Server, r: &mut Rng, lives: bool| {
        let mut q = rand_query(r, &names, "all");
        while q.to_lowercase().contains("shutdown") || q.len() > 2000 {
            q = rand_query(r, &names, "all");
        }
        if !lives {
            // nothing that could give a key a lifetime
            let k = r.pick(&names).clone();
            q = r.pick(&["get", "del", "ex", "type", "vlen", "vpop", "upd", "set", "try_set"]).to_string() + " " + &k;
            q += *r.pick(&[" 7", " \"x\"", "", " ;", " {", "; get nothing_here"]);
        }
        if r.chance(1, 3) {
            q = r.pick(&["get nothing_here", "vpush nothing_here 1", "set a", "\"", "", "get nothing_here; shutdown", "vget nothing_here 3", "mdel nothing_here 1"]).to_string();
        }
        let u = if q.contains("shutdown") { "write" } else { *r.pick(&users) };
        let mut b = frame(r, &q, &[u], false);
        if r.chance(1, 8) {
            b.truncate(r.below(b.len() as u64) as usize);
        }
        let m = if r.chance(1, 8) { Manner::Vanish } else { Manner::Shut };
        asked += 1;
        talk(s.port, &b, &m)
    };
    for _ in 0..20 + r.below(40) {
        one(&s, &mut r, lives);
    }
    let still = r.chance(1, 2);
    let i0 = Instant::now();
    while i0.elapsed().as_secs_f64() < idle {
        if !still {
            one(&s, &mut r, lives);
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    // from now on nothing else has a lifetime: each pass meets one of ours
    lives = false;
    for k in &names {
        let b = frame(&mut r, &format!("set {} 1; del {}", k, k), &["admin"], true);
        talk(s.port, &b, &Manner::Stay);
    }
    // small keys that stay for ever, many or none
    let lasting = [0, 1500, 60, 400][(seed % 4) as usize];
    for i in 0..lasting / 20 {
        let q: String = (0..20).map(|j| format!("set lasting{}_{} {};", i, j, j)).collect();
        let b = frame(&mut r, &q, &["write"], true);
        talk(s.port, &b, &Manner::Stay);
    }
    stall.store(0, std::sync::atomic::Ordering::SeqCst);
    std::thread::sleep(Duration::from_millis(300));
    let r0 = s.rss_kb();
    let keep = 2i64;
    let big = "x".repeat(2_000_000);
    let t0 = Instant::now();
    // so long that everything is stored before the first elapses
    let life = if speed > 1 { 4 * speed } else { 5 };
    let ms = |t0: &Instant| (t0.elapsed().as_micros() as u64 * speed) / 1000;
    let mut first = u64::MAX;
    let mut ok = true;
    for i in 0..n + keep {
        let q = if i < n { format!("set big{} \"{}\" {}", i, big, life) } else { format!("set kept{} \"{}\"{}", i, big, if i == n && speed > 1 { " 999999" } else { "" }) };
        let b = frame(&mut r, &q, &["write"], true);
        let before = ms(&t0);
        let (got, _) = talk(s.port, &b, &Manner::Stay);
        // (at speed the servers' own time limits are short: late answers are no matter)
        ok &= speed > 1 || got.starts_with(b"HTTP/1.1 200");
        if i < n {
            first = first.min(before + life * 1000);
        }
    }
    let stored = ms(&t0);
    std::thread::sleep(Duration::from_millis(150));
    let r1 = s.rss_kb();
    let per = (r1 - r0) as f64 / (n + keep) as f64;
    if !ok || stored + 500 > first || per < 1500.0 || s.rss_kb() < 0 {
        return json!({"error": format!("could not store: ok {} stored {} first {} per {} kB", ok, stored, first, per)});
    }
    let gone = stored + life * 1000;
    writeln!(out, "{}", json!({"kind":"reset"})).unwrap();
    writeln!(out, "{}", json!({"kind":"stored","server":kind,"n":n,"keep":keep,"extra":if speed > 1 { 40 } else { 0 },"gone":gone,"slack":if speed > 1 { 300 * speed } else { 2500 }})).unwrap();
    let traffic = r.chance(1, 2);
    // somebody who never leaves the server in peace
    let busy = seed % 3 == 0;
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(!busy));
    let (o2, port, ask) = (over.clone(), s.port, frame(&mut r, "get nothing_here", &["read"], true));
    let pest = std::thread::spawn(move || {
        let mut n = 0u64;
        while !o2.load(std::sync::atomic::Ordering::SeqCst) {
            talk(port, &ask, &Manner::Stay);
            n += 1;
            std::thread::sleep(Duration::from_millis(4));
        }
        n
    });
    let mut curve = vec![];
    loop {
        // the memory is read between the two times
        let (mut held, mut tries) = (0i64, 0);
        let t = loop {
            let rss = s.rss_kb();
            let t = ms(&t0);
            let x = (rss - r0) as f64 / per;
            held = x.round() as i64;
            tries += 1;
            // in the middle of something: look again
            if (x - x.round()).abs() < 0.25 || tries > 40 {
                break t;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        curve.push(json!([t, held]));
        writeln!(out, "{}", json!({"kind":"sample","at":t,"first":first,"held":held,"alive":s.alive()})).unwrap();
        if t > gone + (secs * 1000.0) as u64 * speed {
            break;
        }
        if traffic {
            one(&s, &mut r, lives);
        }
        std::thread::sleep(Duration::from_millis(if speed > 1 { 60 } else { 250 }));
    }
    over.store(true, std::sync::atomic::Ordering::SeqCst);
    let pestered = pest.join().unwrap();
    out.flush().unwrap();
    let stall = stall.load(std::sync::atomic::Ordering::SeqCst);
    if stall * speed > if speed > 1 { 100 * speed } else { 1000 } {
        return json!({"error": format!("this machine stood still for {} ms", stall), "stalled": true});
    }
    json!({"server": kind, "per_kb": per, "traffic": traffic, "speed": speed, "idle": idle, "lasting": lasting, "pestered": pestered, "asked": asked, "samples": curve.len(), "curve": curve.iter().step_by(6).collect::<Vec<_>>(), "unanswered": []})
}
