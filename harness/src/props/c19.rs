//! The parallel checker under a race detector, delay injection and a watchdog for deadlocks. The
//! verdicts are C17's business: here the sanitizer, the watchdog and the process status decide.
use super::Ctx;
use crate::par;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use std::cell::RefCell;

fn go(r: &mut Rng, rep: &mut Report, pb: &str, pf: &str, o: &Opts, runs: usize) {
    let Ok(i) = par::load(pb, pf, o) else {
        rep.count("not-parsed");
        return;
    };
    for _ in 0..runs {
        let n = *r.pick(&[2, 2, 3, 3, 4, 4, 6, 8, 12]);
        let hand = r.chance(2, 3);
        let s = if hand {
            par::arbitrary(&i, n, r)
        } else {
            match par::official(&i, n) {
                Ok(s) => s,
                Err(_) => return,
            }
        };
        let stats = r.chance(1, 3);
        let text = format!("threads={n} arbitrary={hand} stats={stats}\n{pb}\n---- proof\n{pf}");
        crate::watch::set(|| text.clone());
        // racy executions are most likely when the threads work on the same contexts
        let shared = s.1.iter().filter(|u| **u > 1).count();
        let out = par::run(&i, &s, o, stats);
        rep.seen(&text);
        rep.count(&format!("result:{}", out.verdict()));
        rep.count(&format!("threads:{n}"));
        rep.add("contexts-shared-by-threads", shared as u64);
        rep.sample(|| format!("{n} threads, {shared} shared contexts, {}\n{pf}", out.kind()));
    }
}
pub fn run(c: &mut Ctx) {
    let before = crate::delay::injected();
    crate::delay::on(80, c.seed);
    let n = c.iters(300);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let p = super::c17::nest(&mut c.rng);
        let o = Opts::default();
        let (pb, pf) = (p.problem(), p.proof());
        go(&mut c.rng, &mut c.rep, &pb, &pf, &o, 3);
    }
    let r = RefCell::new(Rng::new(c.rng.next()));
    c.workloads(super::c17::ALL, 60, move |_, pb, pf, o, _, rep| go(&mut r.borrow_mut(), rep, pb, pf, o, 2));
    if c.worker == 0 {
        c.rep.add("delays-injected(worker 0)", crate::delay::injected() - before);
    }
}
