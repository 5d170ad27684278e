//! Search for a concrete failing input against the real crate (built with --cfg verif_hooks), with
//! exact oracles that share no code with it.  `harness run PROP SEED MILLIS` or
//! `harness replay PROP CHECK SEED CASE`.
mod lib_oracle;
mod low;
mod rings;
mod schemes;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
pub use lib_oracle::*;

pub type Res = Result<(), String>;
pub struct Check {
    pub prop: &'static str,
    pub name: &'static str,
    /// at most this many cases
    pub max: u64,
    pub f: fn(&mut R, u64) -> Res,
}
thread_local! { static NOTE: RefCell<String> = RefCell::new(String::new()); static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn note(s: String) {
    NOTE.with(|n| *n.borrow_mut() = s);
}
static STARTED: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<(String, u64, u64)> = Mutex::new((String::new(), 0, 0));

fn case(c: &Check, seed: u64, i: u64) -> Res {
    NOTE.with(|n| n.borrow_mut().clear());
    PANIC.with(|n| n.borrow_mut().clear());
    let mut r = R::new(seed, c.name, i);
    match catch_unwind(AssertUnwindSafe(|| (c.f)(&mut r, i))) {
        Ok(x) => x,
        Err(_) => Err(format!("the code panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}
fn fail(c: &str, prop: &str, seed: u64, i: u64, msg: &str) -> ! {
    println!("FAIL property={prop} check={c} seed={seed} case={i}");
    let n = NOTE.with(|n| n.borrow().clone());
    if !n.is_empty() {
        println!("input: {n}");
    }
    println!("observed: {msg}");
    std::process::exit(1)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|p| {
        let s = format!("{p}");
        PANIC.with(|n| *n.borrow_mut() = s);
    }));
    let mut all: Vec<Check> = vec![];
    low::checks(&mut all);
    rings::checks(&mut all);
    schemes::checks(&mut all);
    let t0 = Instant::now();
    let hang = Duration::from_secs(200);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(5));
        let s = STARTED.load(Ordering::SeqCst);
        if s > 0 && t0.elapsed().as_millis() as u64 > s + hang.as_millis() as u64 {
            let g = CUR.lock().unwrap().clone();
            println!("FAIL property=? check={} seed={} case={}\nobserved: the code did not return within {} s", g.0, g.1, g.2, hang.as_secs());
            std::process::exit(1);
        }
    });
    match a[1].as_str() {
        "run" => {
            let (prop, seed, ms) = (a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
            let cs: Vec<&Check> = all.iter().filter(|c| c.prop == prop).collect();
            let mut n = vec![0u64; cs.len()];
            let end = t0 + Duration::from_millis(ms);
            loop {
                let mut more = false;
                for (k, c) in cs.iter().enumerate() {
                    // a slice of time per check, so that cheap checks run many cases
                    let sl = Instant::now() + Duration::from_millis(250);
                    loop {
                        // every check runs at least 4 cases whatever the budget
                        if n[k] >= c.max || (Instant::now() > end && n[k] >= 4) {
                            break;
                        }
                        *CUR.lock().unwrap() = (c.name.to_string(), seed, n[k]);
                        STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        if let Err(m) = case(c, seed, n[k]) {
                            fail(c.name, prop, seed, n[k], &m);
                        }
                        STARTED.store(0, Ordering::SeqCst);
                        n[k] += 1;
                        more = true;
                        if Instant::now() > sl {
                            break;
                        }
                    }
                }
                if !more {
                    break;
                }
            }
            let s: Vec<String> = cs.iter().zip(n.iter()).map(|(c, n)| format!("\"{}\": {}", c.name, n)).collect();
            println!("OK {{{}}}", s.join(", "));
        }
        "replay" => {
            let (prop, chk, seed, i) = (a[2].as_str(), a[3].as_str(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
            let c = all.iter().find(|c| c.prop == prop && c.name == chk).expect("no such check");
            match case(c, seed, i) {
                Ok(()) => println!("OK replay passes"),
                Err(m) => fail(c.name, prop, seed, i, &m),
            }
        }
        "list" => {
            for c in &all {
                println!("{} {}", c.prop, c.name);
            }
        }
        _ => panic!("usage"),
    }
}
