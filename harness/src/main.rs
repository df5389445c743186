#![allow(dead_code)]
mod alpha;
mod ast;
mod cli;
mod delay;
mod engine;
mod eval;
mod front;
#[global_allocator]
static ALLOC: delay::Delay = delay::Delay;
mod gen;
mod lin;
mod proof;
mod par;
mod props;
mod report;
mod rng;
mod run;
mod sorts;
mod sx;
mod typing;
mod watch;
mod words;

use std::time::{Duration, Instant};

/// A deliberate data race: shows that the race detector this was built with is at work.
fn race() {
    static mut N: u64 = 0;
    let hs: Vec<_> = (0..4)
        .map(|_| {
            std::thread::spawn(|| {
                for _ in 0..1000 {
                    // SAFETY: none, this is the point
                    unsafe {
                        let p = std::ptr::addr_of_mut!(N);
                        *p += 1;
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
fn main() {
    let av: Vec<String> = std::env::args().collect();
    if av.len() == 2 && av[1] == "race" {
        return race();
    }
    if av.len() == 3 && av[1] == "replay" {
        run::install_hook();
        return std::thread::Builder::new().stack_size(512 << 20).spawn(move || props::c24::replay(&av[2])).unwrap().join().unwrap();
    }
    if av.len() == 4 && av[1] == "nest" {
        return props::c24::child(av[2].parse().unwrap(), av[3].parse().unwrap());
    }
    if av.len() < 5 {
        eprintln!("usage: cvh ID quick|thorough SEED OUT");
        std::process::exit(2);
    }
    let id = av[1].clone();
    let thorough = av[2] == "thorough";
    let seed: u64 = av[3].parse().unwrap_or(1);
    let Some(f) = props::get(&id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    run::install_hook();
    let workers: usize = std::env::var("CVH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let secs = std::env::var("CVH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 150 });
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut hs = vec![];
    for wk in 0..workers {
        let id = id.clone();
        let cur = format!("{}.cur{}", av[4], wk);
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    watch::register();
                    watch::keep(&cur);
                    let mut h = 0u64;
                    for b in id.bytes() {
                        h = h * 131 + b as u64;
                    }
                    let mut c = props::Ctx {
                        rng: rng::Rng::new(rng::mix(seed).wrapping_add(h << 8).wrapping_add(wk as u64)),
                        rep: Default::default(),
                        worker: wk,
                        workers,
                        thorough,
                        seed,
                        deadline,
                    };
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c))).is_err() {
                        // an expectation about the code under test that no monitor reports itself
                        let (how, at) = run::last_here();
                        if how.contains("Os {") {
                            eprintln!("harness worker failed: {how} @ {at}");
                            std::process::exit(3);
                        }
                        let file = at.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                        c.rep.violation(&format!("panic:{file}"), format!("unexpected panic: {how} @ {at}"), watch::current());
                    }
                    if c.late() {
                        c.rep.count("deadline-reached");
                    }
                    watch::done();
                    let _ = std::fs::remove_file(&cur);
                    c.rep
                })
                .unwrap(),
        );
    }
    let mut total = report::Report::default();
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        if let Some(t) = watch::stuck(60) {
            total.violation("hang", "a case did not terminate within 60 s", t);
            std::fs::write(&av[4], total.json()).unwrap();
            std::process::exit(0);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for h in hs {
        match h.join() {
            Ok(r) => total.merge(r),
            Err(_) => {
                eprintln!("harness worker panicked: {} / {}", run::any_panic(), run::last_anywhere());
                std::process::exit(3)
            }
        }
    }
    std::fs::write(&av[4], total.json()).unwrap();
}
