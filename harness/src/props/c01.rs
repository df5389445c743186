//! Clausal rules: resolution family, contraction, reordering, weakening, tautology, shuffle.
use super::Ctx;
use crate::engine::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

fn w() -> Rc<Decls> {
    let mut d = Decls::new();
    for n in ["p", "q", "r", "s", "t", "|u v|"] {
        d.fun(n, &[], St::Bool);
    }
    let u = d.sort("U");
    for n in ["a", "b"] {
        d.fun(n, &[], u.clone());
    }
    d.fun("P", &[u.clone()], St::Bool);
    Rc::new(d)
}
fn w_int() -> Rc<Decls> {
    let mut d = Decls::new();
    for n in ["x", "y", "z"] {
        d.fun(n, &[], St::Int);
    }
    for n in ["p", "q", "r"] {
        d.fun(n, &[], St::Bool);
    }
    Rc::new(d)
}
type Lit = (usize, Sx);
fn lit((n, t): &Lit) -> Sx {
    let mut t = t.clone();
    for _ in 0..*n {
        t = not(&t);
    }
    t
}
fn atoms(r: &mut Rng) -> Vec<Sx> {
    let mut v: Vec<Sx> = ["p", "q", "r", "s", "t", "|u v|"].iter().map(|x| a(x)).collect();
    if r.chance(1, 4) {
        v.push(parse("(= a b)"));
        v.push(parse("(P a)"));
        v.push(parse("(and p (not q))"));
    }
    if r.chance(1, 10) {
        v.push(tt());
        v.push(ff());
    }
    r.shuffle(&mut v);
    v
}
fn rl(r: &mut Rng, at: &[Sx]) -> Lit {
    let n = match r.below(12) {
        0..=4 => 0,
        5..=9 => 1,
        10 => 2,
        _ => 3,
    };
    (n, r.pick(at).clone())
}
/// A linear input derivation: premises, pivots (term, polarity), resulting literal list.
struct Chain {
    prems: Vec<Vec<Lit>>,
    piv: Vec<(Sx, bool)>,
    set: Vec<Lit>,
    list: Vec<Lit>,
}
fn chain(r: &mut Rng) -> Chain {
    let at = atoms(r);
    let na = 2 + r.below(at.len() - 2);
    let at = &at[..na.min(at.len())];
    let len = match r.below(6) {
        0 => 4 + r.below(8),
        _ => 1 + r.below(4),
    };
    let mut c0: Vec<Lit> = (0..1 + r.below(4)).map(|_| rl(r, at)).collect();
    if r.chance(1, 5) {
        let x = r.pick(&c0).clone();
        c0.push(x);
    }
    let mut set: Vec<Lit> = vec![];
    for x in &c0 {
        if !set.contains(x) {
            set.push(x.clone());
        }
    }
    let mut list = c0.clone();
    let mut prems = vec![c0];
    let mut piv = vec![];
    for _ in 0..len {
        if set.is_empty() {
            break;
        }
        let p = r.pick(&set).clone();
        // complement: one more negation, or one less
        let (comp, pol, pt) = if p.0 > 0 && r.coin() {
            ((p.0 - 1, p.1.clone()), false, (p.0 - 1, p.1.clone()))
        } else {
            ((p.0 + 1, p.1.clone()), true, p.clone())
        };
        let k = if r.coin() { 0 } else { r.below(4) };
        let mut c: Vec<Lit> = (0..k).map(|_| if r.chance(1, 3) && !set.is_empty() { r.pick(&set).clone() } else { rl(r, at) }).collect();
        let pos = r.below(c.len() + 1);
        c.insert(pos, comp.clone());
        // derived clause
        set.retain(|x| *x != p);
        let i = list.iter().position(|x| *x == p).unwrap();
        list.remove(i);
        let mut found = false;
        for x in &c {
            if !found && *x == comp {
                found = true;
            } else {
                if !set.contains(x) {
                    set.push(x.clone());
                }
                list.push(x.clone());
            }
        }
        // keep list/set consistent for the list variant: literals in `list` cover `set`
        prems.push(c);
        piv.push((lit(&pt), pol));
    }
    Chain { prems, piv, set, list }
}
fn cls(v: &[Vec<Lit>]) -> Vec<Vec<Sx>> {
    v.iter().map(|c| c.iter().map(lit).collect()).collect()
}

fn gen(r: &mut Rng, d: &Rc<Decls>, di: &Rc<Decls>) -> Option<Case> {
    Some(match r.below(12) {
        0..=3 => {
            let c = chain(r);
            let mut prems = cls(&c.prems);
            let mut tag = "linear";
            if prems.len() < 2 {
                return None;
            }
            if r.chance(1, 3) {
                r.shuffle(&mut prems);
                tag = "linear-shuffled";
            } else if r.chance(1, 3) {
                prems.reverse();
                tag = "linear-reversed";
            }
            let mut co: Vec<Sx> = c.set.iter().map(lit).collect();
            r.shuffle(&mut co);
            if r.chance(1, 8) && !co.is_empty() {
                let x = r.pick(&co).clone();
                co.push(x);
            }
            let rule = if r.coin() { "resolution" } else { "th_resolution" };
            Case::new(d, tag, rule, prems, co, vec![])
        }
        4..=5 => {
            let c = chain(r);
            if c.prems.len() < 2 {
                return None;
            }
            let args = c.piv.iter().flat_map(|(p, b)| [p.clone(), if *b { tt() } else { ff() }]).collect();
            let mut co: Vec<Sx> = c.set.iter().map(lit).collect();
            r.shuffle(&mut co);
            let rule = if r.coin() { "resolution" } else { "th_resolution" };
            Case::new(d, "pivots", rule, cls(&c.prems), co, args)
        }
        6 => {
            let c = chain(r);
            if c.prems.len() < 2 {
                return None;
            }
            let args = c.piv.iter().flat_map(|(p, b)| [p.clone(), if *b { tt() } else { ff() }]).collect();
            Case::new(d, "strict", "strict_resolution", cls(&c.prems), c.list.iter().map(lit).collect(), args)
        }
        7 => {
            let at = atoms(r);
            let n = 1 + r.below(8);
            let base: Vec<Sx> = (0..n).map(|_| lit(&rl(r, &at))).collect();
            let mut p = base.clone();
            for _ in 0..r.below(4) {
                let x = r.pick(&base).clone();
                let i = r.below(p.len() + 1);
                p.insert(i, x);
            }
            // remove some repetitions, keep at least one of each
            let mut co = p.clone();
            let full = r.coin();
            let mut i = 0;
            while i < co.len() {
                let x = co[i].clone();
                if co.iter().filter(|y| **y == x).count() > 1 && (full || r.coin()) {
                    co.remove(i);
                } else {
                    i += 1;
                }
            }
            if r.coin() {
                r.shuffle(&mut co);
            }
            Case::new(d, "contraction", "contraction", vec![p], co, vec![])
        }
        8 => {
            let at = atoms(r);
            let n = 1 + r.below(9);
            let p: Vec<Sx> = (0..n).map(|_| lit(&rl(r, &at))).collect();
            let mut co = p.clone();
            r.shuffle(&mut co);
            Case::new(d, "reordering", "reordering", vec![p], co, vec![])
        }
        9 => {
            let at = atoms(r);
            let n = r.below(5);
            let p: Vec<Sx> = (0..n).map(|_| lit(&rl(r, &at))).collect();
            let mut co = p.clone();
            for _ in 0..r.below(4) {
                co.push(lit(&rl(r, &at)));
            }
            Case::new(d, "weakening", "weakening", vec![p], co, vec![])
        }
        10 => {
            let at = atoms(r);
            let n = r.below(5);
            let mut p: Vec<Lit> = (0..n).map(|_| rl(r, &at)).collect();
            let x = rl(r, &at);
            let y = (if x.0 > 0 && r.coin() { x.0 - 1 } else { x.0 + 1 }, x.1.clone());
            for z in [x, y] {
                let i = r.below(p.len() + 1);
                p.insert(i, z);
            }
            Case::new(d, "tautology", "tautology", cls(&[p]), vec![tt()], vec![])
        }
        _ => {
            let n = 2 + r.below(5);
            let (op, pool): (&str, &[&str]) = match r.below(4) {
                0 => ("+", &["x", "y", "z", "1", "2"]),
                1 => ("*", &["x", "y", "z", "1", "2"]),
                2 => ("and", &["p", "q", "r", "(not p)"]),
                _ => ("or", &["p", "q", "r", "(not p)"]),
            };
            let v: Vec<Sx> = (0..n).map(|_| parse(*r.pick(pool))).collect();
            let mut v2 = v.clone();
            r.shuffle(&mut v2);
            Case::new(di, "shuffle", "shuffle", vec![], vec![eq(&app(op, &v), &app(op, &v2))], vec![])
        }
    })
}
/// Random clause sets with a random conclusion: soundness only.
fn random_case(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let at: Vec<Sx> = ["p", "q", "r"].iter().map(|x| a(x)).collect();
    let at = &at[..2 + r.below(2)];
    let n = 2 + r.below(5);
    let mut prems: Vec<Vec<Sx>> = (0..n)
        .map(|_| {
            (0..1 + r.below(3))
                .map(|_| {
                    let k = if r.chance(1, 8) { 2 + r.below(2) } else { r.below(2) };
                    lit(&(k, r.pick(at).clone()))
                })
                .collect()
        })
        .collect();
    if r.chance(1, 6) {
        // repeated premises
        let x = r.pick(&prems).clone();
        prems.push(x);
    }
    let k = if r.chance(1, 2) { 0 } else { 1 + r.below(2) };
    let co: Vec<Sx> = (0..k).map(|_| lit(&(r.below(2), r.pick(at).clone()))).collect();
    let mut args = vec![];
    let mut rule = "resolution";
    if r.chance(1, 4) {
        rule = *r.pick(&["resolution", "strict_resolution", "tautology", "contraction", "reordering", "weakening"]);
        for _ in 0..prems.len() - 1 {
            args.push(lit(&(r.below(2), r.pick(at).clone())));
            args.push(if r.coin() { tt() } else { ff() });
        }
    }
    Case::new(d, "random", rule, prems, co, args)
}
const SIBS: &[&str] =
    &["resolution", "th_resolution", "strict_resolution", "contraction", "reordering", "weakening", "tautology", "shuffle"];

pub fn run(c: &mut Ctx) {
    let d = w();
    let di = w_int();
    let k = Knobs { mutants: 6, tries: 3 };
    // fixed shapes, by hand
    if c.worker == 0 {
        let cl = |s: &str| -> Vec<Sx> { parse(s).list().unwrap().to_vec() };
        let must: &[(&str, &[&str], &str)] = &[
            ("resolution", &["((not true))"], "()"),
            ("th_resolution", &["((not true))"], "()"),
            ("resolution", &["(p q false)", "((not p))", "((not q))"], "()"),
            ("resolution", &["((not p))", "((= (not p) (not (not q))))", "((not (= (not p) (not (not q)))) p q)"], "((not (not q)))"),
            ("resolution", &["((not p) (not (not q)) (not q))", "((not (not (not q))) q)"], "((not p) q (not q))"),
            ("resolution", &["(p q)", "((not p) q)", "((not q))"], "()"),
            ("resolution", &["(p p q)", "((not p))", "((not q) r)"], "(r)"),
        ];
        for (rule, ps, co) in must {
            let case = Case::new(&d, "by-hand", rule, ps.iter().map(|p| cl(p)).collect(), cl(co), vec![]);
            drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, no_class, true);
        }
        let never: &[(&str, &[&str], &str)] = &[
            ("resolution", &["(p q)", "((not p) (not q))", "((not q) (not p))", "(p q)", "(q p)"], "()"),
            ("resolution", &["((= false true) (not false) (not true))", "((= false true) false true)"], "((= false true))"),
            ("resolution", &["(p q)", "((not p) (not q))"], "()"),
            ("tautology", &["(p (not (not p)))"], "(true)"),
            ("weakening", &["(p q)"], "(p)"),
        ];
        for (rule, ps, co) in never {
            let case = Case::new(&d, "by-hand", rule, ps.iter().map(|p| cl(p)).collect(), cl(co), vec![]);
            judge(&case, &mut c.rng, &mut c.rep, &k, no_class);
        }
    }
    for _ in 0..c.iters(6000) {
        if c.late() {
            break;
        }
        if let Some(case) = gen(&mut c.rng, &d, &di) {
            drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, no_class, true);
        }
        for _ in 0..6 {
            let case = random_case(&mut c.rng, &d);
            judge(&case, &mut c.rng, &mut c.rep, &k, no_class);
        }
    }
}
