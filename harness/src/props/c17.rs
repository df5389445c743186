//! Parallel checking against sequential checking: any thread count, any schedule.
use super::c28::{decls, u, UN};
use super::Ctx;
use crate::par;
use crate::proof::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use std::cell::RefCell;
use std::rc::Rc;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C13", "C14", "C15", "C16"];

fn threads(r: &mut Rng) -> usize {
    *r.pick(&[1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8, 8, 12, 16, 33])
}
/// nested anchors whose assignments refer to the outer ones; most of the values they lead to are
/// not written anywhere in the proof
pub fn nest(r: &mut Rng) -> Prf {
    let d = Rc::new(decls());
    let mut p = Prf::new(&d);
    let mut next = 0;
    let consts: Vec<&str> = UN.to_vec();
    let depth = 2 + r.below(7);
    let n = 1 + r.below(3);
    let bad = r.chance(1, 4);
    for _ in 0..n {
        let mut map: Vec<(String, Sx)> = vec![];
        let mut open = vec![];
        fn value(t: &Sx, map: &[(String, Sx)]) -> Sx {
            match t {
                Sx::A(x) => map.iter().rev().find(|m| m.0.as_str() == &**x).map(|m| m.1.clone()).unwrap_or_else(|| t.clone()),
                Sx::L(v) => l(std::iter::once(v[0].clone()).chain(v[1..].iter().map(|x| value(x, map))).collect()),
            }
        }
        let term = |r: &mut Rng, map: &[(String, Sx)]| {
            let mut t = if map.is_empty() || r.chance(1, 4) { a(*r.pick(&consts)) } else { a(&map[map.len() - 1 - r.below(map.len().min(2))].0) };
            for _ in 0..r.below(3) {
                t = app("f", &[t]);
            }
            t
        };
        for k in 0..depth {
            next += 1;
            let id = format!("a{next}");
            let x = if r.chance(1, 20) { r.pick(&consts).to_string() } else { format!("x{}", r.below(depth)) };
            let mut v = term(r, &map);
            while v.contains_atom(&x) {
                v = a(*r.pick(&consts[1..]));
            }
            if r.chance(1, 6) {
                let x = if r.chance(1, 10) { x } else { format!("v{next}") };
                p.cmds.push(Cmd::Anchor(id.clone(), vec![AArg::Var(x.clone(), u())]));
                map.push((x.clone(), a(&x)));
            } else {
                p.cmds.push(Cmd::Anchor(id.clone(), vec![AArg::Assign(x.clone(), u(), v.clone())]));
                let y = value(&v, &map);
                map.push((x, y));
            }
            open.push(id);
            for _ in 0..r.below(4) {
                if k + 1 < depth && r.chance(3, 4) {
                    break;
                }
                next += 1;
                let t = app("f", &[term(r, &map)]);
                let s = value(&t, &map);
                let mut s = if t.size() > 2 && r.coin() { s } else { value(&t, &map) };
                if bad && r.chance(1, 12) {
                    s = app("f", &[s]);
                }
                p.cmds.push(Cmd::Step(Step { id: format!("s{next}"), cl: vec![eq(&t, &s)], rule: "refl".into(), ..Step::default() }));
            }
        }
        while let Some(id) = open.pop() {
            for _ in 0..if matches!(p.cmds.last(), Some(Cmd::Anchor(..))) { 1 } else { r.below(2) } {
                next += 1;
                let t = app("f", &[term(r, &map)]);
                let s = value(&t, &map);
                p.cmds.push(Cmd::Step(Step { id: format!("s{next}"), cl: vec![eq(&t, &s)], rule: "refl".into(), ..Step::default() }));
            }
            map.pop();
            let cl = if open.is_empty() && r.chance(1, 5) { vec![] } else { vec![tt()] };
            p.cmds.push(Cmd::Step(Step { id, cl, rule: "hole".into(), ..Step::default() }));
        }
    }
    if r.chance(4, 5) {
        p.cmds.push(Cmd::Step(Step { id: "end".into(), cl: vec![], rule: "hole".into(), ..Step::default() }));
    }
    p
}
pub fn compare(r: &mut Rng, rep: &mut Report, pb: &str, pf: &str, o: &Opts, seq: &Out, runs: usize) {
    if matches!(seq, Out::ParseErr(_) | Out::Panic(_)) {
        return;
    }
    let Ok(i) = par::load(pb, pf, o) else { return };
    for _ in 0..runs {
        let n = threads(r);
        let hand = r.coin();
        let s = if hand {
            par::arbitrary(&i, n, r)
        } else {
            match par::official(&i, n) {
                Ok(s) => s,
                Err(e) => {
                    rep.violation("scheduler-panic", format!("{n} threads: {e}"), format!("{pb}\n---- proof\n{pf}"));
                    return;
                }
            }
        };
        let stats = r.chance(1, 3);
        let what = format!("threads={n} schedule={} stats={stats}", if hand { "arbitrary" } else { "official" });
        let text = format!("{what} elaborated={} ignore={} allowed={:?}\n{pb}\n---- proof\n{pf}", o.checker.elaborated, o.checker.ignore_unknown_rules, o.checker.allowed_rules);
        crate::watch::set(|| text.clone());
        let got = par::run(&i, &s, o, stats);
        let used = s.0.loads.iter().filter(|l| l.last().is_some()).count();
        rep.seen(&format!("{what}{pf}"));
        rep.count(&format!("verdict:{}", seq.verdict()));
        rep.count(&format!("working-threads:{}", used.min(9)));
        if got.verdict() != seq.verdict() {
            let sig = if matches!(got, Out::Panic(_)) { "panic" } else { "verdict" };
            rep.violation(sig, format!("sequential: {seq:?}; parallel ({what}): {got:?} {}", worker_panic()), text);
            return;
        }
        rep.sample(|| format!("{what}: {}\n{pf}", got.kind()));
    }
}
pub fn run(c: &mut Ctx) {
    crate::delay::on(60, c.seed);
    let n = c.iters(500);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let p = nest(r);
        let o = Opts::default();
        let (pb, pf) = (p.problem(), p.proof());
        let seq = check_plain(&pb, &pf, &o);
        c.rep.count(&format!("nest:{}", seq.kind()));
        compare(r, &mut c.rep, &pb, &pf, &o, &seq, 6);
    }
    let r = RefCell::new(Rng::new(c.rng.next()));
    c.workloads(ALL, 120, move |_, pb, pf, o, seq, rep| compare(&mut r.borrow_mut(), rep, pb, pf, o, seq, 2));
    if c.worker == 0 {
        c.rep.add("delays-injected(worker 0)", crate::delay::injected());
    }
}
