//! Top-level assumptions against the assertions of the problem.
use super::c28::*;
use super::Ctx;
use crate::alpha::*;
use crate::gen::{donors, mutate_term};
use crate::rng::Rng;
use crate::run::*;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

fn formula(r: &mut Rng) -> Sx {
    form(r, 3)
}
fn form(r: &mut Rng, dep: usize) -> Sx {
    match if dep == 0 { 5 * r.below(2) } else { r.below(6) } {
        0 | 1 => {
            let d = 1 + r.below(3);
            arith(r, &St::Bool, d)
        }
        2 => {
            let (x, y) = (form(r, dep - 1), form(r, dep - 1));
            app(*r.pick(&["and", "or", "=>", "=", "xor"]), &[x, y])
        }
        3 => {
            let x = form(r, dep - 1);
            let y = form(r, dep - 1);
            let z = form(r, dep - 1);
            app(*r.pick(&["and", "or", "=>", "=", "xor"]), &[x, y, z])
        }
        4 => not(&form(r, dep - 1)),
        _ => {
            let g = G { letb: r.chance(1, 3), choice: r.chance(1, 3), nary: r.coin(), dup: false };
            let d = 1 + r.below(3);
            g.term(r, &St::Bool, d, &mut vec![])
        }
    }
}
fn size_ok(t: &Sx) -> bool {
    t.size() < 120
}
/// how an assertion enters the problem
fn assertion(t: &Sx, r: &mut Rng, k: usize) -> String {
    match r.below(8) {
        0 => format!("(assert (! {} :named nm{}))\n", t, k),
        1 => format!("(check-sat-assuming ({}))\n", t),
        2 => format!("; (assert (not {}))\n(assert {})\n", t, t),
        3 => format!("(set-info :notes |(assert {})|)\n(assert {} )\n", "false", t),
        _ => format!("(assert {})\n", t),
    }
}
/// text that looks like an assertion but is none
fn decoy(t: &Sx, r: &mut Rng) -> String {
    match r.below(5) {
        0 => format!("; (assert {})\n", t),
        1 => format!("(set-info :notes \"(assert {})\")\n", t),
        2 => format!("(set-option :foo |\n(assert {})\n|)\n", t.to_string().replace('|', "")),
        3 => format!("(get-value ({}))\n", t),
        _ => format!("(echo \")(assert {})\")\n", t),
    }
}
pub fn run(c: &mut Ctx) {
    let d = Rc::new(decls());
    let n = c.iters(6000);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let k = 1 + r.below(4);
        let asserts: Vec<Sx> = (0..k).map(|_| formula(r)).filter(size_ok).collect();
        if asserts.is_empty() {
            continue;
        }
        let i = r.below(asserts.len());
        let t = asserts[i].clone();
        // the assumption: same, within the tolerances, or something else
        let (what, s, must, strict_must) = match r.below(10) {
            0 => ("identical", t.clone(), true, true),
            1 | 2 => ("flipped", flip(&t, r), true, false),
            3 => ("n-ary", nary(&t, r), true, false),
            4 => {
                let s = flip(&t, r);
                ("both", nary(&s, r), true, false)
            }
            5 => ("renamed", rename_all(&t, r, &mut 0), false, false),
            6 => ("renamed-badly", rename_badly(&t, r), false, false),
            7 => {
                let s = match r.below(6) {
                    0 => not(&t),
                    1 if !t.args().is_empty() => r.pick(t.args()).clone(),
                    2 => formula(r),
                    3 => app("and", &[t.clone(), r.pick(&asserts).clone()]),
                    4 => app("or", &[t.clone(), formula(r)]),
                    _ => {
                        let x = r.pick(&asserts).clone();
                        eq(&t, &x)
                    }
                };
                if sort_of(&s, &d, &mut vec![]) != Some(St::Bool) {
                    continue;
                }
                ("other", s, false, false)
            }
            _ => {
                let don = donors(&Case::new(&d, "", "x", vec![], asserts.clone(), vec![]), &[]);
                let s = if r.coin() { nary(&t, r) } else { t.clone() };
                match mutate_term(&s, r, &d, &don) {
                    Some(s) => ("mutated", if r.coin() { flip(&s, r) } else { s }, false, false),
                    None => continue,
                }
            }
        };
        let mut pb = format!("(set-logic ALL)\n{}", d.text());
        for (k, x) in asserts.iter().enumerate() {
            pb.push_str(&assertion(x, r, k));
            if r.chance(1, 3) {
                let y = if r.coin() { s.clone() } else { ff() };
                if !y.to_string().contains('"') && !must {
                    pb.push_str(&decoy(&y, r));
                }
            }
        }
        pb.push_str("(check-sat)\n");
        let spelled = match r.below(4) {
            0 => format!("(! {} :named pn)", s),
            _ => s.to_string(),
        };
        let pf = format!("(assume h {})\n(step end (cl) :rule hole)\n", spelled);
        for strict in [false, true] {
            let mut o = Opts::default();
            o.checker.elaborated = strict;
            o.checker.ignore_unknown_rules = c.rng.coin();
            let text = || format!("elaborated={strict} {what}\n{pb}---- proof\n{pf}");
            crate::watch::set(text);
            let out = check_text(&pb, &pf, &o);
            c.rep.seen(&text());
            c.rep.count(&format!("{}:{}:{}", if strict { "strict" } else { "normal" }, what, out.kind()));
            let acc = out.accepted();
            if acc {
                c.rep.sample(text);
            }
            if !acc && (!strict && must || strict && strict_must) {
                c.rep.violation(&format!("rejected:{what}"), format!("assumption within the tolerances of an assertion was not accepted: {:?}", out), text());
                continue;
            }
            if !acc && !matches!(out, Out::Reject(..) | Out::ParseErr(_)) {
                c.rep.violation(&format!("odd:{}", out.kind()), format!("{:?}", out), text());
            }
            if acc && strict && !asserts.contains(&s) {
                c.rep.violation("strict", format!("strict mode accepted an assumption that is not syntactically an assertion: {s}"), text());
                continue;
            }
            if acc && !asserts.contains(&s) {
                let r = &mut c.rng;
                if asserts.iter().all(|x| differ(r, &d, x, &s, 24).is_some()) {
                    c.rep.violation("unsound", format!("accepted assumption {s} differs from every assertion"), text());
                    continue;
                }
            }
            // inside a subproof it is a local assumption
            let sub = format!(
                "(anchor :step t)\n(assume h {spelled})\n(step t1 (cl true) :rule true)\n(step t (cl (not {s}) true) :rule subproof :discharge (h))\n(step end (cl) :rule hole)\n"
            );
            if c.rng.chance(1, 3) && !matches!(out, Out::ParseErr(_)) {
                let out = check_text(&pb, &sub, &o);
                c.rep.count(&format!("local:{}", out.kind()));
                if !out.accepted() {
                    c.rep.violation("local", format!("local assumption was not accepted: {:?}", out), format!("elaborated={strict}\n{pb}---- proof\n{sub}"));
                }
            }
        }
        // definitions as assertions, and numerals of a real-only logic
        if c.rng.chance(1, 20) {
            fixed(&mut c.rep, &mut c.rng);
        }
    }
}
fn fixed(rep: &mut crate::report::Report, r: &mut Rng) {
    let cases: &[(&str, &str, bool, bool)] = &[
        ("(declare-const a Int)(define-fun g ((x Int)) Int (+ x 1))", "(= g (lambda ((x Int)) (+ x 1)))", false, true),
        ("(declare-const a Int)(define-fun g ((x Int)) Int (+ x 1))", "(= g (lambda ((x Int)) (+ x 2)))", false, false),
        ("(declare-const a Int)(define-fun g () Int (+ a 1))", "(= g (+ a 1))", false, true),
        ("(declare-const a Int)(define-fun g () Int (+ a 1))", "(= (+ a 1) g)", false, true),
        ("(declare-const a Int)(define-fun g () Bool (= a 1))(assert g)", "(= a 1)", true, true),
        ("(declare-const a Int)(define-fun g () Bool (= a 1))", "(= a 1)", true, false),
        ("(declare-const a Int)(define-fun g () Bool (= a 1))(assert g)", "(= a 1)", false, false),
        ("(define-fun-rec h ((x Int)) Int (ite (< x 0) 0 (h (- x 1))))", "(forall ((x Int)) (= (h x) (ite (< x 0) 0 (h (- x 1)))))", true, true),
        ("(define-fun-rec h ((x Int)) Int (ite (< x 0) 0 (h (- x 1))))", "(forall ((x Int)) (= (h x) (ite (< x 0) 1 (h (- x 1)))))", true, false),
        (
            "(define-funs-rec ((e ((x Int)) Bool) (o ((x Int)) Bool)) ((or (= x 0) (o (- x 1))) (and (not (= x 0)) (e (- x 1)))))",
            "(forall ((x Int)) (= (o x) (and (not (= x 0)) (e (- x 1)))))",
            true,
            true,
        ),
        (
            "(define-funs-rec ((e ((x Int)) Bool) (o ((x Int)) Bool)) ((or (= x 0) (o (- x 1))) (and (not (= x 0)) (e (- x 1)))))",
            "(forall ((x Int)) (= (e x) (and (not (= x 0)) (e (- x 1)))))",
            true,
            false,
        ),
        ("(set-logic QF_LRA)(declare-const w Real)(assert (< w 1))", "(< w 1.0)", true, true),
        ("(set-logic QF_LRA)(declare-const w Real)(assert (< w 1))", "(< w 2)", true, false),
        ("(declare-const p Bool)(declare-const q Bool)(check-sat-assuming (p (not q)))", "(not q)", true, true),
        ("(declare-const p Bool)(declare-const q Bool)(check-sat-assuming (p (not q)))", "q", true, false),
    ];
    for (pb, s, apply, ok) in cases {
        for strict in [false, true] {
            let mut o = Opts::default();
            o.parser.apply_function_defs = *apply;
            o.checker.elaborated = strict;
            if strict && s.starts_with("(= (+") {
                continue;
            }
            let more = if r.coin() { "(declare-const zz Bool)(assert (or zz (not zz)))" } else { "" };
            let pb = format!("{pb}{more}");
            let pf = format!("(assume h {s})(step end (cl) :rule hole)");
            let out = check_text(&pb, &pf, &o);
            rep.seen(&format!("{strict}{pb}{pf}"));
            rep.count(&format!("definitions:{}", out.kind()));
            if out.accepted() != *ok {
                rep.violation(
                    "definitions",
                    format!("assumption {} be accepted, got {:?}", if *ok { "must" } else { "must not" }, out),
                    format!("expected accepted={ok} apply_function_defs={apply} elaborated={strict}\n{pb}---- proof\n{pf}"),
                );
            }
        }
    }
}
