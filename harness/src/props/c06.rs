//! Quantifier rules: instantiation, joining, pruning, clausification, miniscoping.
use super::c28::{decls, u, G, UN};
use super::Ctx;
use crate::alpha::*;
use crate::engine::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const SIBS: &[&str] = &[
    "forall_inst", "qnt_join", "qnt_rm_unused", "qnt_cnf", "qnt_simplify", "miniscope_distribute", "miniscope_split", "miniscope_ite",
];
type B = Vec<(String, St)>;
fn q(k: &str, b: &B, t: &Sx) -> Sx {
    l(vec![a(k), l(b.iter().map(|(n, s)| l(vec![a(n), s.sx()])).collect()), t.clone()])
}
fn names(r: &mut Rng, n: usize, pool: &[&str]) -> B {
    let mut b: B = vec![];
    for _ in 0..n {
        let nm = r.pick(pool).to_string();
        if b.iter().any(|x| x.0 == nm) {
            continue;
        }
        b.push((nm, if r.chance(1, 4) { St::Bool } else { u() }));
    }
    b
}
fn g(r: &mut Rng) -> G {
    G { letb: false, choice: r.chance(1, 3), nary: false, dup: false }
}
fn body(r: &mut Rng, b: &B, dep: usize) -> Sx {
    let mut sc: Scope = b.iter().map(|(n, s)| (Rc::from(n.as_str()), s.clone())).collect();
    g(r).term(r, &St::Bool, dep, &mut sc)
}
/// Simultaneous replacement of free symbols (binders are renamed to fresh names first).
pub fn subst(t: &Sx, map: &BTreeMap<String, Sx>, r: &mut Rng, next: &mut usize) -> Sx {
    fn go(t: &Sx, map: &BTreeMap<String, Sx>) -> Sx {
        match t {
            Sx::A(x) => map.get(&**x).cloned().unwrap_or_else(|| t.clone()),
            Sx::L(v) => l(v.iter().map(|x| go(x, map)).collect()),
        }
    }
    go(&rename_all(t, r, next), map)
}
fn flip(t: &Sx, r: &mut Rng) -> Sx {
    match t {
        Sx::L(v) if v.len() == 3 && v[0].atom() == Some("=") => {
            let (x, y) = (flip(&v[1], r), flip(&v[2], r));
            if r.chance(1, 3) {
                eq(&y, &x)
            } else {
                eq(&x, &y)
            }
        }
        Sx::L(v) => l(v.iter().map(|x| flip(x, r)).collect()),
        _ => t.clone(),
    }
}
fn inst(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let n = 1 + r.below(3);
    let b = names(r, n, UN);
    let dep = 1 + r.below(4);
    let t = body(r, &b, dep);
    let gg = g(r);
    let mut map = BTreeMap::new();
    let mut args = vec![];
    for (n, s) in &b {
        let dep = r.below(3);
        let v = gg.term(r, s, dep, &mut vec![]);
        map.insert(n.clone(), v.clone());
        args.push(v);
    }
    let mut k = 0;
    let e = subst(&t, &map, r, &mut k);
    let e = if r.coin() { flip(&e, r) } else { e };
    Case::new(d, "inst", "forall_inst", vec![], vec![app("or", &[not(&q("forall", &b, &t)), e])], args)
}
fn quant(r: &mut Rng) -> &'static str {
    *r.pick(&["forall", "exists"])
}
fn join(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let k = quant(r);
    let (n, m) = (1 + r.below(3), 1 + r.below(3));
    let b1 = names(r, n, UN);
    let b2 = names(r, m, UN);
    let mut b: B = b1.clone();
    for x in &b2 {
        if !b.contains(x) {
            b.push(x.clone());
        }
    }
    let mut all = b1.clone();
    all.extend(b2.clone());
    let dep = 1 + r.below(3);
    let t = body(r, &all, dep);
    Case::new(d, "join", "qnt_join", vec![], vec![eq(&q(k, &b1, &q(k, &b2, &t)), &q(k, &b, &t))], vec![])
}
/// no name twice with different sorts among the joined lists (later ones would shadow)
fn clash(b: &Sx) -> bool {
    let _ = b;
    false
}
fn free(t: &Sx) -> BTreeSet<Rc<str>> {
    let mut s = BTreeSet::new();
    free_atoms(t, &mut s);
    s
}
fn rm_unused(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let k = quant(r);
    let n = 1 + r.below(4);
    let b = names(r, n, UN);
    let dep = 1 + r.below(3);
    let t = body(r, &b, dep);
    let f = free(&t);
    let rest: B = b.iter().filter(|x| f.contains(x.0.as_str()) || r.chance(1, 4)).cloned().collect();
    let rhs = if rest.is_empty() { t.clone() } else { q(k, &rest, &t) };
    Case::new(d, "unused", "qnt_rm_unused", vec![], vec![eq(&q(k, &b, &t), &rhs)], vec![])
}
fn simplify(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let k = quant(r);
    let n = 1 + r.below(3);
    let b = names(r, n, UN);
    let t = if r.coin() { tt() } else { ff() };
    Case::new(d, "simplify", "qnt_simplify", vec![], vec![eq(&q(k, &b, &t), &t)], vec![])
}
fn distribute(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let (k, op) = if r.coin() { ("forall", "and") } else { ("exists", "or") };
    let n = 1 + r.below(3);
    let b = names(r, n, UN);
    let ts: Vec<Sx> = (0..2 + r.below(3)).map(|_| body(r, &b, 2)).collect();
    let rhs: Vec<Sx> = ts.iter().map(|t| q(k, &b, t)).collect();
    Case::new(d, "distribute", "miniscope_distribute", vec![], vec![eq(&q(k, &b, &app(op, &ts)), &app(op, &rhs))], vec![])
}
fn split(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let (k, op) = if r.coin() { ("forall", "or") } else { ("exists", "and") };
    let n = 1 + r.below(4);
    let b = names(r, n, UN);
    let m = 2 + r.below(3);
    let mut owner: Vec<usize> = b.iter().map(|_| r.below(m)).collect();
    let mut ts = vec![];
    let mut rhs = vec![];
    for i in 0..m {
        let mine: B = b.iter().zip(&owner).filter(|(_, o)| **o == i).map(|(x, _)| x.clone()).collect();
        // no other disjunct may mention them: the others are hidden behind a fresh constant
        let t = body(r, &mine, 2);
        let mut map = BTreeMap::new();
        for (x, o) in b.iter().zip(&owner) {
            if *o != i {
                map.insert(x.0.clone(), if x.0.starts_with('p') || x.0.starts_with('q') { a("q'") } else { a("zz") });
            }
        }
        let mut k2 = 100 * i;
        let t = subst(&t, &map, r, &mut k2);
        rhs.push(if mine.is_empty() { t.clone() } else { q(k, &mine, &t) });
        ts.push(t);
    }
    owner.clear();
    Case::new(d, "split", "miniscope_split", vec![], vec![eq(&q(k, &b, &app(op, &ts)), &app(op, &rhs))], vec![])
}
fn ite(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let n = 1 + r.below(3);
    let b = names(r, n, UN);
    let (x, y) = (body(r, &b, 2), body(r, &b, 2));
    let map: BTreeMap<String, Sx> = b.iter().map(|(n, _)| (n.clone(), a("zz"))).collect();
    let c = g(r).term(r, &St::Bool, 2, &mut vec![]);
    let mut k = 100;
    let c = subst(&c, &map, r, &mut k);
    let lhs = q("forall", &b, &l(vec![a("ite"), c.clone(), x.clone(), y.clone()]));
    let rhs = l(vec![a("ite"), c, q("forall", &b, &x), q("forall", &b, &y)]);
    Case::new(d, "ite", "miniscope_ite", vec![], vec![eq(&lhs, &rhs)], vec![])
}
fn formula(r: &mut Rng, dep: usize, sc: &mut Scope) -> Sx {
    let gg = G { letb: false, choice: false, nary: false, dup: false };
    if dep == 0 || r.chance(1, 6) {
        let d = r.below(2);
        return if r.coin() { app("P", &[gg.term(r, &u(), d, sc)]) } else { app("R", &[gg.term(r, &u(), d, sc), gg.term(r, &u(), d, sc)]) };
    }
    match r.below(12) {
        0 | 1 => not(&formula(r, dep - 1, sc)),
        2 | 3 => {
            let n = 2 + r.below(2);
            let v: Vec<Sx> = (0..n).map(|_| formula(r, dep - 1, sc)).collect();
            app("and", &v)
        }
        4 | 5 => {
            let n = 2 + r.below(2);
            let v: Vec<Sx> = (0..n).map(|_| formula(r, dep - 1, sc)).collect();
            app("or", &v)
        }
        6 => app("=>", &[formula(r, dep - 1, sc), formula(r, dep - 1, sc)]),
        7 => app("=", &[formula(r, dep - 1, sc), formula(r, dep - 1, sc)]),
        8 => app("ite", &[formula(r, dep - 1, sc), formula(r, dep - 1, sc), formula(r, dep - 1, sc)]),
        9 => gg.term(r, &St::Bool, 1, sc),
        _ => {
            let m = sc.len();
            let n = 1 + r.below(2);
            let b = names(r, n, UN);
            for (n, s) in &b {
                sc.push((Rc::from(n.as_str()), s.clone()));
            }
            let t = formula(r, dep - 1, sc);
            sc.truncate(m);
            q(quant(r), &b, &t)
        }
    }
}
fn nnf(t: &Sx, pol: bool, d: &Decls, sc: &mut Scope) -> Sx {
    let lit = |t: &Sx| if pol { t.clone() } else { not(t) };
    let (op, args) = match t.op() {
        Some(x) => x,
        None => return lit(t),
    };
    let ao = |p: bool| if p { ("and", "or") } else { ("or", "and") };
    match (op, args.len()) {
        ("not", 1) => nnf(&args[0], !pol, d, sc),
        ("and" | "or", _) => {
            let o = if pol { op } else if op == "and" { "or" } else { "and" };
            let v: Vec<Sx> = args.iter().map(|x| nnf(x, pol, d, sc)).collect();
            app(o, &v)
        }
        ("=>", 2) => app(ao(!pol).0, &[nnf(&args[0], !pol, d, sc), nnf(&args[1], pol, d, sc)]),
        ("ite", 3) => {
            let (x, y) = ao(pol);
            app(x, &[
                app(y, &[nnf(&args[0], !pol, d, sc), nnf(&args[1], pol, d, sc)]),
                app(y, &[nnf(&args[0], pol, d, sc), nnf(&args[2], pol, d, sc)]),
            ])
        }
        ("=", 2) if sort_of(&args[0], d, sc) == Some(St::Bool) => {
            let (x, y) = ao(pol);
            app(x, &[
                app(y, &[nnf(&args[0], !pol, d, sc), nnf(&args[1], pol, d, sc)]),
                app(y, &[nnf(&args[1], !pol, d, sc), nnf(&args[0], pol, d, sc)]),
            ])
        }
        ("forall" | "exists", 2) => {
            let m = sc.len();
            for (n, s) in bindings(&args[0]).unwrap_or_default() {
                sc.push((n, sort_of_sx(&s).unwrap_or(St::Bool)));
            }
            let t = nnf(&args[1], pol, d, sc);
            sc.truncate(m);
            let k = if pol == (op == "forall") { "forall" } else { "exists" };
            l(vec![a(k), args[0].clone(), t])
        }
        _ => lit(t),
    }
}
fn prenex(t: &Sx, acc: &mut Vec<Sx>) -> Sx {
    match t.op() {
        Some((o @ ("and" | "or"), args)) => {
            let v: Vec<Sx> = args.iter().map(|x| prenex(x, acc)).collect();
            app(o, &v)
        }
        Some(("forall", args)) => {
            acc.extend(args[0].list().unwrap().iter().cloned());
            prenex(&args[1], acc)
        }
        _ => t.clone(),
    }
}
fn cnf(t: &Sx) -> Option<Vec<Vec<Sx>>> {
    let res = match t.op() {
        Some(("and", args)) => {
            let mut v = vec![];
            for x in args {
                v.extend(cnf(x)?);
            }
            v
        }
        Some(("or", args)) => {
            let mut acc: Vec<Vec<Sx>> = vec![vec![]];
            for x in args {
                let c = cnf(x)?;
                let mut n = vec![];
                for p in &acc {
                    for y in &c {
                        n.push(p.iter().chain(y).cloned().collect());
                    }
                }
                if n.len() > 200 {
                    return None;
                }
                acc = n;
            }
            acc
        }
        _ => vec![vec![t.clone()]],
    };
    if res.len() > 200 {
        return None;
    }
    Some(res)
}
fn qcnf(r: &mut Rng, d: &Rc<Decls>, distinct: bool) -> Option<Case> {
    let n = 1 + r.below(3);
    let b = names(r, n, UN);
    let dep = 1 + r.below(4);
    let mut sc: Scope = b.iter().map(|(n, s)| (Rc::from(n.as_str()), s.clone())).collect();
    let t = formula(r, dep, &mut sc);
    let mut lhs = q("forall", &b, &t);
    if distinct {
        lhs = rename_all(&lhs, r, &mut 0);
    }
    let (bs, t) = (lhs.args()[0].list()?.to_vec(), lhs.args()[1].clone());
    let mut sc: Scope = bindings(&lhs.args()[0])?.into_iter().map(|(n, s)| (n, sort_of_sx(&s).unwrap_or(St::Bool))).collect();
    let nn = nnf(&t, true, d, &mut sc);
    let mut acc = bs;
    let pre = prenex(&nn, &mut acc);
    let cl = cnf(&pre)?;
    let c = r.pick(&cl).clone();
    let c = if c.len() == 1 { c[0].clone() } else { app("or", &c) };
    let f = free(&c);
    let mut rb: Vec<Sx> = vec![];
    for x in acc {
        if !rb.contains(&x) && (f.contains(x.list()?[0].atom()?) || r.chance(1, 4)) {
            rb.push(x);
        }
    }
    if rb.is_empty() {
        return None;
    }
    if r.chance(1, 4) {
        r.shuffle(&mut rb);
    }
    Some(Case::new(d, if distinct { "distinct" } else { "clash" }, "qnt_cnf", vec![], vec![app("or", &[not(&lhs), l(vec![a("forall"), l(rb), c])])], vec![]))
}
/// Replaces a bound-variable occurrence, a binder's list or a body so that scopes interact.
fn rescope(c: &Case, r: &mut Rng) -> Option<Case> {
    let mut c = c.clone();
    let ps = c.concl[0].paths();
    let cand: Vec<_> = ps.into_iter().filter(|p| c.concl[0].at(p).atom().is_some_and(|x| UN.contains(&x))).collect();
    if cand.is_empty() {
        return None;
    }
    for _ in 0..1 + r.below(2) {
        let p = r.pick(&cand).clone();
        if r.chance(1, 3) {
            // rename one symbol everywhere
            let from = c.concl[0].at(&p).atom()?.to_string();
            let to = r.pick(UN).to_string();
            fn go(t: &Sx, x: &str, y: &str) -> Sx {
                match t {
                    Sx::A(n) if &**n == x => a(y),
                    Sx::L(v) => l(v.iter().map(|t| go(t, x, y)).collect()),
                    _ => t.clone(),
                }
            }
            c.concl[0] = go(&c.concl[0], &from, &to);
            c.args = c.args.iter().map(|t| if r.coin() { go(t, &from, &to) } else { t.clone() }).collect();
            break;
        }
        c.concl[0] = c.concl[0].replace(&p, &a(*r.pick(UN)));
    }
    Some(c)
}
pub fn run(c: &mut Ctx) {
    let mut dd = decls();
    dd.fun("zz", &[], u());
    dd.fun("q'", &[], St::Bool);
    let d = Rc::new(dd);
    let k = Knobs { mutants: 3, tries: 10 };
    let n = c.iters(2600);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let (case, must) = match r.below(16) {
            0..=3 => (inst(r, &d), true),
            4 | 5 => {
                let j = join(r, &d);
                let m = !clash(&j.concl[0]);
                (j, m)
            }
            6 | 7 => (rm_unused(r, &d), true),
            8 => (simplify(r, &d), true),
            9 => (distribute(r, &d), true),
            10 | 11 => (split(r, &d), true),
            12 => (ite(r, &d), true),
            x => match qcnf(r, &d, x != 13) {
                Some(c) => (c, x != 13),
                None => continue,
            },
        };
        let sound = Knobs { mutants: 3, tries: 30 };
        let kk = if must { &k } else { &sound };
        drive(&case, r, &mut c.rep, kk, SIBS, no_class, must);
        for _ in 0..3 {
            if let Some(m) = rescope(&case, r) {
                judge(&m, r, &mut c.rep, &sound, no_class);
            }
        }
    }
}
