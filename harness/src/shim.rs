//! The control page shared with the LD_PRELOAD shim (see /verif/shim/shim.c).
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
pub const N: usize = 24;
pub const PLAN: usize = 4096;
pub const SIZE: usize = N * 8 + 2 * PLAN * 4;
static mut BASE: *mut u8 = std::ptr::null_mut();

pub fn attach() -> bool {
    let p = match std::env::var("VSHIM_CTL") {
        Ok(p) => p,
        Err(_) => return false,
    };
    unsafe {
        let c = std::ffi::CString::new(p).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR);
        if fd < 0 {
            return false;
        }
        let m = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        libc::close(fd);
        if m == libc::MAP_FAILED {
            return false;
        }
        BASE = m as *mut u8;
    }
    true
}
/// The control page of another process, created by us.
pub struct Ctl {
    base: *mut u8,
    pub path: String,
}
unsafe impl Send for Ctl {}
unsafe impl Sync for Ctl {}
static NEXT: AtomicI64 = AtomicI64::new(0);
impl Ctl {
    pub fn new() -> Ctl {
        let dir = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let path = format!("{}/vctl-{}-{}", dir, std::process::id(), NEXT.fetch_add(1, SeqCst));
        std::fs::write(&path, vec![0u8; SIZE]).unwrap();
        unsafe {
            let c = std::ffi::CString::new(path.clone()).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_RDWR);
            let m = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            libc::close(fd);
            assert!(m != libc::MAP_FAILED);
            Ctl { base: m as *mut u8, path }
        }
    }
    pub fn f(&self, i: usize) -> &AtomicI64 {
        unsafe { &*(self.base.add(i * 8) as *const AtomicI64) }
    }
    pub fn set(&self, i: usize, v: i64) {
        self.f(i).store(v, SeqCst);
    }
    pub fn get(&self, i: usize) -> i64 {
        self.f(i).load(SeqCst)
    }
    pub fn virtual_clock(&self) {
        self.set(VIRT, T0);
        self.set(MODE, 1);
    }
    pub fn set_time(&self, ns: i64) {
        self.set(VIRT, T0 + ns);
    }
}
impl Drop for Ctl {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, SIZE) };
        let _ = std::fs::remove_file(&self.path);
    }
}
pub fn f(i: usize) -> &'static AtomicI64 {
    unsafe { &*(BASE.add(i * 8) as *const AtomicI64) }
}
pub fn send_plan(p: &[i32]) {
    f(SEND_N).store(0, SeqCst);
    unsafe {
        let a = BASE.add(N * 8) as *mut i32;
        for (i, x) in p.iter().enumerate().take(PLAN) {
            a.add(i).write_volatile(*x);
        }
    }
    f(SEND_I).store(0, SeqCst);
    f(SEND_N).store(p.len().min(PLAN) as i64, SeqCst);
}
pub fn recv_plan(p: &[i32]) {
    f(RECV_N).store(0, SeqCst);
    unsafe {
        let a = BASE.add(N * 8 + PLAN * 4) as *mut i32;
        for (i, x) in p.iter().enumerate().take(PLAN) {
            a.add(i).write_volatile(*x);
        }
    }
    f(RECV_I).store(0, SeqCst);
    f(RECV_N).store(p.len().min(PLAN) as i64, SeqCst);
}
pub const MODE: usize = 0;
pub const VIRT: usize = 2;
pub const SEQ: usize = 3;
pub const RX_BYTES: usize = 4;
pub const RX_EOF: usize = 6;
pub const TX_BYTES: usize = 7;
pub const ACCEPTED: usize = 9;
pub const CLOSED: usize = 10;
pub const SNDBUF: usize = 11;
pub const SEND_N: usize = 12;
pub const SEND_I: usize = 13;
pub const RECV_N: usize = 14;
pub const RECV_I: usize = 15;
pub const ACCEPT_FAIL: usize = 16;
pub const JITTER: usize = 17;
pub const SEND_DELAY: usize = 18;
pub const CLK_N: usize = 20;
pub const CLK_US: usize = 21;
pub const CLK_HIT: usize = 22;
pub const OFF: usize = 1;
pub const SPEED: usize = 23;

pub const T0: i64 = 1_700_000_000_000_000_000;
pub fn virtual_clock() {
    f(VIRT).store(T0, SeqCst);
    f(SEQ).store(0, SeqCst);
    f(MODE).store(1, SeqCst);
}
/// Set the clock to `ns` after T0; readings continue strictly increasing from there.
pub fn set_time(ns: i64) {
    f(VIRT).store(T0 + ns, SeqCst);
}
