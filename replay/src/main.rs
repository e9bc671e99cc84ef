//! Bounded stand-in and replay driver: runs concrete histories on the real
//! crate and compares with independent oracles.
//! usage: replay PROPERTY SEED SECONDS OUTFILE [CASE]
//! exit 0: no failing input; exit 1: failing input, written to OUTFILE.
mod core;
mod scen;
mod coll;
mod mac;
mod rng;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static CASE_START_MS: AtomicU64 = AtomicU64::new(0);

/// A case runner: given a seed, runs one case; Ok(weight of the case) or the failure text.
pub type Case = fn(u64) -> Result<u64, String>;

pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
            Err(format!("{}: unexpected panic: {}", what, m.chars().take(300).collect::<String>()))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, secs, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap(), a[4].clone());
    let only: Option<u64> = a.get(5).map(|x| x.parse().unwrap());
    let mut cases: Vec<(&'static str, Case)> = vec![];
    cases.extend(core::cases(&prop));
    cases.extend(scen::cases(&prop));
    cases.extend(coll::cases(&prop));
    if prop == "X01" { cases.extend(mac::cases()) }
    if cases.is_empty() { eprintln!("unknown property {}", prop); std::process::exit(2) }
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    // watchdog: a case that does not finish is a failing input too
    {
        let out = out.clone(); let prop = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_millis() as u64;
            let st = CASE_START_MS.load(Ordering::SeqCst);
            if st > 0 && now > st + 60_000 {
                let c = CASE.load(Ordering::SeqCst);
                let _ = std::fs::write(&out, format!("property {}\ncase {}\nthe case does not terminate (60 s)\nrerun: replay {} SEED SECONDS OUT {}\n", prop, c, prop, c));
                println!("FAIL case {} does not terminate", c);
                std::process::exit(1);
            }
        });
    }
    let w = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let casefile = std::fs::File::create(format!("{}.case", out)).unwrap();
        let mut evals = 0u64; let mut weight = 0u64;
        let mut i = 0u64;
        loop {
            if start.elapsed().as_secs_f64() > secs && i >= cases.len() as u64 && only.is_none() { break }
            if let Some(o) = only { if i > 0 { break } i = o; }
            let (name, f) = cases[(i % cases.len() as u64) as usize];
            let s = rng::mix(seed, i);
            CASE.store(i, Ordering::SeqCst);
            CASE_START_MS.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            // stays behind when the process dies
            { use std::os::unix::fs::FileExt; let _ = casefile.write_at(format!("{:<20}", i).as_bytes(), 0); }
            let r = match guard(name, || f(s)) { Ok(r) => r, Err(e) => Err(e) };
            match r {
                Ok(n) => { evals += 1; weight += (n > 1) as u64 }
                Err(e) => {
                    let _ = std::fs::write(&out, format!("property {}\nscenario {}\nseed {} case {}\nrerun: replay {} {} {} OUT {}\n{}\n", prop, name, seed, i, prop, seed, secs, i, e));
                    println!("FAIL case {} ({}): {}", i, name, e.lines().next().unwrap_or(""));
                    std::process::exit(1);
                }
            }
            if only.is_some() { println!("OK"); break }
            i += 1;
        }
        println!("EVALS {} NONTRIVIAL {}", evals, weight);
        let _ = std::fs::remove_file(format!("{}.case", out));
    }).unwrap();
    if w.join().is_err() { std::process::exit(2) }
    std::process::exit(0)
}
