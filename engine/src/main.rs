mod codec;
mod coder;
mod gen;
mod misc;
mod sel;
mod spec;
mod stream;

use gen::Rng;
use std::panic;
use std::time::{Duration, Instant};

type Case = fn(&mut Rng) -> Result<(), String>;

fn groups() -> Vec<(&'static str, Case)> {
    vec![
        ("legacy", codec::legacy as Case),
        ("layered", codec::layered),
        ("stream", stream::stream),
        ("parallel", stream::parallel),
        ("seek", stream::seek),
        ("seekpar", stream::seekpar),
        ("append", stream::append),
        ("selective", sel::selective),
        ("refdiff", sel::refdiff),
        ("damaged", sel::damaged),
        ("coder", coder::coder),
        ("werr", coder::werr),
        ("carry", coder::carry),
        ("ic", coder::ic),
        ("vlr", misc::vlr),
        ("chunktable", misc::chunktable),
        ("pack", misc::pack),
        ("slices", misc::slices),
    ]
}

fn run_case(f: Case, seed: u64, idx: u64) -> Result<(), String> {
    let r = panic::catch_unwind(move || {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(idx));
        f(&mut rng)
    });
    match r {
        Ok(x) => x,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panic: {m} at {}", LOC.with(|l| l.borrow().clone())))
        }
    }
}

thread_local! { static LOC: std::cell::RefCell<String> = Default::default(); }

/// usage: laz-engine GROUP SEED SECONDS MAXCASES [keep-going]
///        laz-engine GROUP --case SEED IDX
fn main() {
    panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| l.to_string()).unwrap_or_default();
        LOC.with(|l| *l.borrow_mut() = s);
    }));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "carryrun" {
        // laz-engine carryrun SEED RUN upper|lower
        let r = coder::carry_run(&mut Rng::new(a[2].parse().unwrap()), a[3].parse().unwrap(), a[4] == "upper");
        println!("{r:?}");
        std::process::exit(r.is_err() as i32);
    }
    let g = groups();
    let Some((name, f)) = g.iter().find(|(n, _)| *n == a[1]) else {
        println!("unknown group; known: {:?}", g.iter().map(|x| x.0).collect::<Vec<_>>());
        std::process::exit(3);
    };
    if a[2] == "--case" {
        let r = run_case(*f, a[3].parse().unwrap(), a[4].parse().unwrap());
        println!("{name} {} {}: {r:?}", a[3], a[4]);
        std::process::exit(if r.is_err() { 1 } else { 0 });
    }
    let seed: u64 = a[2].parse().unwrap();
    let secs: u64 = a[3].parse().unwrap();
    let max: u64 = a[4].parse().unwrap();
    let keep = a.get(5).is_some();
    let t0 = Instant::now();
    let mut idx = 0;
    let mut fails = 0;
    // a case that does not come back is a failure too
    let current = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let (cur, nm) = (current.clone(), name.to_string());
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = cur.load(std::sync::atomic::Ordering::Relaxed);
            if now != last {
                (last, since) = (now, Instant::now());
            } else if since.elapsed() > Duration::from_secs(60) {
                println!("FAIL {nm} {seed} {now} did not finish within 60 s");
                println!("CASES {} FAILS 1", now + 1);
                std::process::exit(1);
            }
        }
    });
    let trace = std::env::var("ENGINE_TRACE").is_ok();
    let mut seen: std::collections::HashMap<String, u64> = Default::default();
    while idx < max && t0.elapsed() < Duration::from_secs(secs) {
        current.store(idx, std::sync::atomic::Ordering::Relaxed);
        if trace {
            eprintln!("CASE {idx}");
        }
        if let Err(e) = run_case(*f, seed, idx) {
            fails += 1;
            let key: String = if e.starts_with("panic") { e.clone() } else { e.chars().take(40).collect() };
            let c = seen.entry(key).or_default();
            *c += 1;
            if *c == 1 {
                println!("FAIL {name} {seed} {idx} {e}");
            }
            if !keep {
                println!("CASES {} FAILS {fails}", idx + 1);
                std::process::exit(1);
            }
        }
        idx += 1;
    }
    if keep {
        println!("{seen:#?}");
    }
    println!("CASES {idx} FAILS {fails}");
    std::process::exit(if fails > 0 { 1 } else { 0 });
}
