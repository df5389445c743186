//! C29: options, statistics and repetition do not change what is decided or produced.
use super::Ctx;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use carcara::ast::*;
use carcara::benchmarking::{CollectResults, CsvBenchmarkResults, OnlineBenchmarkResults};
use carcara::checker::{CheckerStatistics, ProofChecker};
use carcara::elaborator::{Config, ElaborationStep, Elaborator};
use carcara::parser;
use std::io::Cursor;
use std::time::Duration;

type Loaded = (Problem, Proof, rare_rules::Rules, PrimitivePool);
fn load(pb: &str, pf: &str, o: &Opts) -> Option<Loaded> {
    guarded(|| {
        parser::parse_instance(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), o.rules.clone().map(Cursor::new), o.parser.clone())
    })
    .ok()?
    .ok()
}
fn with_stats<CR: CollectResults + Send + Default>(ck: &mut ProofChecker, pb: &Problem, pf: &Proof) -> Out {
    let mut st = CheckerStatistics {
        file_name: "some file",
        polyeq_time: Duration::ZERO,
        assume_time: Duration::ZERO,
        assume_core_time: Duration::ZERO,
        results: CR::default(),
    };
    classify(guarded(|| ck.check_with_stats(pb, pf, &mut st)))
}
/// verdict, and the step and rule that fail
fn key(o: &Out) -> String {
    match o {
        Out::Reject(s, r, _) => format!("reject:{s}:{r}"),
        Out::Panic(_) => "panic".into(),
        o => o.kind().into(),
    }
}
fn cfg(o: &Opts, strict: bool) -> Opts {
    let mut o = o.clone();
    o.checker.elaborated = strict;
    o
}
/// every way to run the checker on the proof
fn runs(pb: &str, pf: &str, o: &Opts, rep: &mut Report, r: &mut Rng) -> Option<Out> {
    let (problem, proof, rules, mut pool) = load(pb, pf, o)?;
    let input = || format!("strict {} ignore {} allowed {:?}\n{pb}\n---- proof\n{pf}", o.checker.elaborated, o.checker.ignore_unknown_rules, o.checker.allowed_rules);
    crate::watch::set(input);
    rep.evals += 1;
    let mut got: Vec<(&str, Out)> = vec![];
    {
        let mut ck = ProofChecker::new(&mut pool, &rules, o.checker.clone());
        got.push(("plain", classify(guarded(|| ck.check(&problem, &proof)))));
        // a panic leaves the checker in a state nobody relies on
        if !matches!(got[0].1, Out::Panic(_)) {
            got.push(("the same checker again", classify(guarded(|| ck.check(&problem, &proof)))));
            got.push(("the same checker, with statistics", with_stats::<OnlineBenchmarkResults>(&mut ck, &problem, &proof)));
        }
    }
    // a checker that was used for another proof before
    let before = if r.coin() { "(step x (cl) :rule hole)" } else { "(anchor :step x :args ((y Bool)))(step x.a (cl y) :rule refl)(step x (cl) :rule hole)" };
    let other = guarded(|| parser::parse_instance_with_pool(Cursor::new(""), Cursor::new(before), None, o.parser.clone(), &mut pool));
    if let Ok(Ok((opb, opf, _))) = other {
        let mut ck = ProofChecker::new(&mut pool, &rules, o.checker.clone());
        let x = classify(guarded(|| ck.check(&opb, &opf)));
        rep.count(&format!("other proof first: {}", x.kind()));
        got.push(("a checker used before", classify(guarded(|| ck.check(&problem, &proof)))));
    }
    let mut fresh = |what, csv: Option<bool>, pool: &mut PrimitivePool| {
        let mut ck = ProofChecker::new(pool, &rules, o.checker.clone());
        got.push((
            what,
            match csv {
                None => classify(guarded(|| ck.check(&problem, &proof))),
                Some(true) => with_stats::<CsvBenchmarkResults>(&mut ck, &problem, &proof),
                Some(false) => with_stats::<OnlineBenchmarkResults>(&mut ck, &problem, &proof),
            },
        ));
    };
    fresh("again in the same pool", None, &mut pool);
    fresh("with statistics", Some(false), &mut pool);
    fresh("with detailed statistics", Some(true), &mut pool);
    if let Some((problem, proof, rules, mut pool)) = load(pb, pf, o) {
        let mut ck = ProofChecker::new(&mut pool, &rules, o.checker.clone());
        got.push(("with statistics, parsed again", with_stats::<OnlineBenchmarkResults>(&mut ck, &problem, &proof)));
    } else {
        got.push(("parsed again", Out::ParseErr("second time only".into())));
    }
    for stats in [false, true] {
        let f = || carcara::check(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), o.rules.clone().map(Cursor::new), o.parser.clone(), o.checker.clone(), stats);
        got.push((if stats { "check with statistics" } else { "check" }, classify(guarded(f))));
    }
    // in parallel only the verdict is determined
    if r.chance(1, 4) {
        let n = 1 + r.below(4);
        for stats in [false, true] {
            let f = || {
                let rules = o.rules.clone().map(Cursor::new);
                carcara::check_parallel(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), rules, o.parser.clone(), o.checker.clone(), stats, n, 16 << 20)
            };
            let v = classify(guarded(f));
            rep.count("parallel runs");
            if v.verdict() != got[0].1.verdict() {
                rep.violation("parallel", format!("plain: {:?}; {n} threads, statistics {stats}: {v:?}", got[0].1), input());
            }
        }
    }
    rep.add("runs", got.len() as u64);
    let first = got[0].1.clone();
    rep.count(&format!("verdict:{}", first.kind()));
    if let Some((what, v)) = got.iter().find(|(_, v)| key(v) != key(&first)) {
        rep.violation(&format!("differs:{}", what.replace(' ', "-").replace(',', "")), format!("plain: {first:?}; {what}: {v:?}"), input());
        return None;
    }
    Some(first)
}
fn both(pb: &str, pf: &str, o: &Opts, rep: &mut Report, r: &mut Rng) -> Option<Out> {
    let normal = runs(pb, pf, &cfg(o, false), rep, r)?;
    let strict = runs(pb, pf, &cfg(o, true), rep, r)?;
    rep.seen(pf);
    rep.count(&format!("strict {} / normal {}", strict.kind(), normal.kind()));
    if strict.accepted() && strict != normal {
        rep.violation("strict", format!("strict: {strict:?}; normal: {normal:?}"), format!("{pb}\n---- proof\n{pf}"));
    }
    rep.sample(|| format!("strict {}, normal {}\n{pf}", key(&strict), key(&normal)));
    Some(normal)
}
/// what elaboration produces, printed with and without sharing
fn elaborated(pb: &str, pf: &str, o: &Opts, check: Option<bool>, timed: bool, pipe: &Option<Vec<ElaborationStep>>, rot: bool) -> Option<Result<(String, String), String>> {
    let (problem, proof, rules, mut pool) = load(pb, pf, o)?;
    if let Some(stats) = check {
        let mut ck = ProofChecker::new(&mut pool, &rules, o.checker.clone());
        if stats {
            with_stats::<OnlineBenchmarkResults>(&mut ck, &problem, &proof);
        } else {
            let _ = guarded(|| ck.check(&problem, &proof));
        }
    }
    let cf = Config { lia_options: None, hole_options: None, uncrowd_rotation: rot };
    let (commands, defs) = (proof.commands, proof.constant_definitions);
    let pipe = pipe.clone().unwrap_or_else(|| {
        use ElaborationStep::*;
        vec![Polyeq, LiaGeneric, Local, Uncrowd, Reordering]
    });
    let n = pipe.len();
    let done = guarded(|| {
        let f = ProofNodeForest::from_commands(commands);
        let mut e = Elaborator::new(&mut pool, &problem, cf);
        let f = if timed {
            let (f, t) = e.elaborate_with_stats(f, pipe);
            assert_eq!(t.len(), n, "one duration for each step of the pipeline");
            f
        } else {
            e.elaborate(f, pipe)
        };
        f.into_commands()
    });
    Some(done.and_then(|c| {
        let out = Proof { constant_definitions: defs, commands: c };
        Ok((super::c22::print(&mut pool, &problem, &out, false)?, super::c22::print(&mut pool, &problem, &out, true)?))
    }))
}
fn elaborations(pb: &str, pf: &str, o: &Opts, rep: &mut Report, r: &mut Rng) -> Option<String> {
    let (nm, p) = super::c20::pipeline(r);
    let rot = r.coin();
    let input = || format!("{pb}\n---- proof\n{pf}\n---- pipeline {nm} rotation {rot}");
    crate::watch::set(input);
    let base = elaborated(pb, pf, o, Some(false), false, &p, rot)?;
    rep.evals += 1;
    rep.count(if base.is_ok() { "elaborated" } else { "elaboration:panic" });
    for (what, check, timed) in [("again", Some(false), false), ("checked-with-statistics", Some(true), false), ("timed", Some(true), true), ("not-checked", None, false)] {
        let x = elaborated(pb, pf, o, check, timed, &p, rot)?;
        rep.count("elaborated again");
        let same = match (&base, &x) {
            // names of shared terms depend on which terms the checker built
            (Ok(b), Ok(x)) => b.0 == x.0 && (check.is_none() || b.1 == x.1),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            let show = |x: &Result<(String, String), String>| x.clone().map(|t| format!("{}\n~~ with sharing\n{}", t.0, t.1)).unwrap_or_else(|e| e);
            rep.violation(&format!("elaborated:{what}"), format!("first:\n{}\n{what}:\n{}", show(&base), show(&x)), input());
            return None;
        }
    }
    // and through the interface of the library, which may print statistics as well
    let mut outs = vec![];
    for stats in [false, true] {
        let cf = Config { lia_options: None, hole_options: None, uncrowd_rotation: rot };
        use ElaborationStep::*;
        let pipe = p.clone().unwrap_or(vec![Polyeq, LiaGeneric, Local, Uncrowd, Reordering]);
        let rules = o.rules.clone().map(Cursor::new);
        let x = guarded(|| {
            carcara::check_and_elaborate(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), rules, o.parser.clone(), o.checker.clone(), cf, pipe, stats)
                .map(|(holey, pb, pf, mut pool)| (holey, super::c22::print(&mut pool, &pb, &pf, false)))
                .map_err(|e| e.to_string())
        });
        outs.push(x);
    }
    if outs[0].is_ok() != outs[1].is_ok() || outs[0].is_ok() && outs[0] != outs[1] {
        rep.violation("elaborated:statistics", format!("without: {:?}\nwith: {:?}", outs[0], outs[1]), input());
    }
    if let (Ok(Ok((_, Ok(t)))), Ok(b)) = (&outs[0], &base) {
        if *t != b.0 {
            rep.violation("elaborated:library", format!("by hand:\n{}\nby the library:\n{t}", b.0), input());
        }
    }
    base.ok().map(|t| t.0)
}
/// small changes that the two modes may judge differently
fn tweak(pf: &str, r: &mut Rng) -> Option<String> {
    let mut cmds = parse_all(pf)?;
    if cmds.is_empty() {
        return None;
    }
    for _ in 0..1 + r.below(3) {
        let i = r.below(cmds.len());
        let c = cmds[i].clone();
        let ps: Vec<Vec<usize>> = c.paths().into_iter().filter(|p| c.at(p).is_op("=") && c.at(p).args().len() == 2).collect();
        cmds[i] = match r.below(5) {
            0 | 1 if !ps.is_empty() => {
                let p = r.pick::<Vec<usize>>(&ps).clone();
                let e = c.at(&p).args().to_vec();
                c.replace(&p, &eq(&e[1], &e[0]))
            }
            2 => {
                let mut v = c.list()?.to_vec();
                match v.iter().position(|x| x.atom() == Some(":args")) {
                    Some(k) if k + 1 < v.len() && !c.is_op("anchor") => {
                        v.drain(k..k + 2);
                    }
                    _ => (),
                }
                l(v)
            }
            3 => {
                let mut v = c.list()?.to_vec();
                if let Some(k) = v.iter().position(|x| x.atom() == Some(":rule")) {
                    let new = match v.get(k + 1).and_then(|x| x.atom())? {
                        "resolution" => "th_resolution",
                        "th_resolution" => "resolution",
                        "refl" => *r.pick(&["refl", "strict_refl"]),
                        "resolution_with_args" => "resolution",
                        x => x,
                    };
                    v[k + 1] = a(new);
                }
                l(v)
            }
            _ => c,
        };
    }
    Some(cmds.iter().map(|c| format!("{c}\n")).collect())
}
fn all(pb: &str, pf: &str, o: &Opts, rep: &mut Report, r: &mut Rng) {
    let Some(n) = both(pb, pf, o, rep, r) else { return };
    if let Some(t) = tweak(pf, r) {
        both(pb, &t, o, rep, r);
    }
    if !n.accepted() || !r.coin() {
        return;
    }
    let Some(e) = elaborations(pb, pf, &cfg(o, false), rep, r) else { return };
    rep.count("strict workload: elaborated proof");
    both(pb, &e, o, rep, r);
    if let Some(t) = tweak(&e, r) {
        both(pb, &t, o, rep, r);
    }
}
/// Assertions are found however deep the equalities written the other way around are, and whatever else is asserted.
pub fn deep(r: &mut Rng) -> (String, String) {
    fn flip(t: &Sx, r: &mut Rng, often: usize) -> Sx {
        match t {
            Sx::L(v) => {
                let mut w: Vec<Sx> = v.iter().map(|x| flip(x, r, often)).collect();
                if t.is_op("=") && w.len() == 3 && r.below(4) < often {
                    w.swap(1, 2);
                }
                l(w)
            }
            _ => t.clone(),
        }
    }
    let term = |r: &mut Rng| {
        let mut t = parse(*r.pick(&["(= a b)", "(= b a)", "(= (f a) (f (ite (= a b) a b)))", "p", "(forall ((x U)) (= x a))"]));
        let n = if r.chance(1, 3) { 60 } else { 6 };
        for _ in 0..r.below(n) {
            t = match r.below(8) {
                0 => app("or", &[t, parse("q")]),
                1 => app("and", &[parse("(= a b)"), t, parse("(= (f b) a)")]),
                2 => app("=", &[t, parse("p")]),
                3 => app("=", &[parse("q"), t]),
                4 => app("=", &[app("ite", &[t, a("a"), a("b")]), a("b")]),
                5 => app("forall", &[parse("((y U) (z U))"), app("=>", &[parse("(= y z)"), t])]),
                6 => app("g", &[t.clone(), parse("(= a (f a))")]),
                _ => not(&t),
            };
        }
        t
    };
    let mut pb = String::from("(declare-sort U 0)\n(declare-const a U)\n(declare-const b U)\n(declare-const p Bool)\n(declare-const q Bool)\n(declare-fun f (U) U)\n(declare-fun g (Bool Bool) Bool)\n");
    let ts: Vec<Sx> = (0..1 + r.below(6)).map(|_| term(r)).collect();
    let mut asserts: Vec<String> = ts.iter().map(|t| t.to_string()).collect();
    asserts.extend(["p".into(), "(not p)".into()]);
    r.shuffle(&mut asserts);
    for s in &asserts {
        pb.push_str(&format!("(assert {s})\n"));
    }
    let mut pf = String::new();
    for k in 0..1 + r.below(3) {
        let often = r.below(5);
        let mut t = flip(&ts[r.below(ts.len())], r, often);
        if r.chance(1, 8) {
            let ps = t.paths();
            let at = ps[r.below(ps.len())].clone();
            if t.at(&at).atom() == Some("a") {
                t = t.replace(&at, &a("b"));
            }
        }
        pf.push_str(&format!("(assume h{k} {t})\n"));
    }
    pf.push_str("(assume hp p)\n(assume hn (not p))\n(step e (cl) :rule resolution :premises (hp hn))\n");
    (pb, pf)
}
pub fn run(cx: &mut Ctx) {
    for _ in 0..cx.iters(60) {
        if cx.late() {
            break;
        }
        let (pb, pf) = deep(&mut cx.rng);
        let mut r = Rng::new(cx.rng.next());
        all(&pb, &pf, &Opts::default(), &mut cx.rep, &mut r);
        cx.rep.count("deep");
    }
    for _ in 0..cx.iters(400) {
        if cx.late() {
            break;
        }
        let (pb, pf) = super::c20::mixed(&mut cx.rng);
        let mut r = Rng::new(cx.rng.next());
        all(&pb, &pf, &Opts::default(), &mut cx.rep, &mut r);
    }
    for _ in 0..cx.iters(100) {
        if cx.late() {
            break;
        }
        let p = super::c17::nest(&mut cx.rng);
        let mut r = Rng::new(cx.rng.next());
        all(&p.problem(), &p.proof(), &Opts::default(), &mut cx.rep, &mut r);
    }
    let mut r = Rng::new(cx.rng.next());
    cx.workloads(super::c17::ALL, 40, move |_, pb, pf, o, _, rep| all(pb, pf, o, rep, &mut r));
}
