mod backend;
mod hist;
mod http;
mod lang;
mod net;
mod reclaim;
mod rng;
mod shim;
mod svc;
mod val;
mod walk;
use std::io::Write;
use std::os::unix::io::FromRawFd;

fn main() {
    // the code under test prints to stdout: keep fd 1 for the result only
    let out = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        fd
    };
    if std::env::var("VH_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    if !shim::attach() {
        eprintln!("not under the shim");
        std::process::exit(2);
    }
    let r = match a[0].as_str() {
        "walk" => walk::main(&a[1..]),
        "langvec" => lang::vectors(&a[1..]),
        "langparse" => lang::parse(&a[1..]),
        "langrun" => lang::run(&a[1..]),
        "httpvec" => http::vectors(&a[1..]),
        "httprec" => http::record(&a[1..]),
        "httprep" => http::replies(&a[1..]),
        "netseq" => net::sequence(&a[1..]),
        "reclaim" => reclaim::main(&a[1..]),
        "svc" => svc::main(&a[1..]),
        "scale" => hist::scale(&a[1..]),
        "hist" => hist::main(&a[1..]),
        o => {
            eprintln!("unknown command {}", o);
            std::process::exit(2);
        }
    };
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    writeln!(f, "{}", r).unwrap();
    f.flush().unwrap();
    std::process::exit(0);
}
