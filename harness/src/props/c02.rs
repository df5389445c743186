//! Boolean connective and clausification rules.
use super::Ctx;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;

/// (rule, premise clauses, conclusion) with Boolean metavariables ?0 ?1 ?2
const TPL: &[(&str, &[&[&str]], &[&str])] = &[
    ("true", &[], &["true"]),
    ("false", &[], &["(not false)"]),
    ("not_not", &[], &["(not (not (not ?0)))", "?0"]),
    ("xor_pos1", &[], &["(not (xor ?0 ?1))", "?0", "?1"]),
    ("xor_pos2", &[], &["(not (xor ?0 ?1))", "(not ?0)", "(not ?1)"]),
    ("xor_neg1", &[], &["(xor ?0 ?1)", "?0", "(not ?1)"]),
    ("xor_neg2", &[], &["(xor ?0 ?1)", "(not ?0)", "?1"]),
    ("implies_pos", &[], &["(not (=> ?0 ?1))", "(not ?0)", "?1"]),
    ("implies_neg1", &[], &["(=> ?0 ?1)", "?0"]),
    ("implies_neg2", &[], &["(=> ?0 ?1)", "(not ?1)"]),
    ("equiv_pos1", &[], &["(not (= ?0 ?1))", "?0", "(not ?1)"]),
    ("equiv_pos2", &[], &["(not (= ?0 ?1))", "(not ?0)", "?1"]),
    ("equiv_neg1", &[], &["(= ?0 ?1)", "(not ?0)", "(not ?1)"]),
    ("equiv_neg2", &[], &["(= ?0 ?1)", "?0", "?1"]),
    ("ite_pos1", &[], &["(not (ite ?0 ?1 ?2))", "?0", "?2"]),
    ("ite_pos2", &[], &["(not (ite ?0 ?1 ?2))", "(not ?0)", "?1"]),
    ("ite_neg1", &[], &["(ite ?0 ?1 ?2)", "?0", "(not ?2)"]),
    ("ite_neg2", &[], &["(ite ?0 ?1 ?2)", "(not ?0)", "(not ?1)"]),
    ("equiv1", &[&["(= ?0 ?1)"]], &["(not ?0)", "?1"]),
    ("equiv2", &[&["(= ?0 ?1)"]], &["?0", "(not ?1)"]),
    ("not_equiv1", &[&["(not (= ?0 ?1))"]], &["?0", "?1"]),
    ("not_equiv2", &[&["(not (= ?0 ?1))"]], &["(not ?0)", "(not ?1)"]),
    ("ite1", &[&["(ite ?0 ?1 ?2)"]], &["?0", "?2"]),
    ("ite2", &[&["(ite ?0 ?1 ?2)"]], &["(not ?0)", "?1"]),
    ("not_ite1", &[&["(not (ite ?0 ?1 ?2))"]], &["?0", "(not ?2)"]),
    ("not_ite2", &[&["(not (ite ?0 ?1 ?2))"]], &["(not ?0)", "(not ?1)"]),
    ("xor1", &[&["(xor ?0 ?1)"]], &["?0", "?1"]),
    ("xor2", &[&["(xor ?0 ?1)"]], &["(not ?0)", "(not ?1)"]),
    ("not_xor1", &[&["(not (xor ?0 ?1))"]], &["?0", "(not ?1)"]),
    ("not_xor2", &[&["(not (xor ?0 ?1))"]], &["(not ?0)", "?1"]),
    ("implies", &[&["(=> ?0 ?1)"]], &["(not ?0)", "?1"]),
    ("not_implies1", &[&["(not (=> ?0 ?1))"]], &["?0"]),
    ("not_implies2", &[&["(not (=> ?0 ?1))"]], &["(not ?1)"]),
    ("connective_def", &[], &["(= (xor ?0 ?1) (or (and (not ?0) ?1) (and ?0 (not ?1))))"]),
    ("connective_def", &[], &["(= (= ?0 ?1) (and (=> ?0 ?1) (=> ?1 ?0)))"]),
    ("connective_def", &[], &["(= (ite ?0 ?1 ?2) (and (=> ?0 ?1) (=> (not ?0) ?2)))"]),
];
const NARY: &[&str] = &["and_pos", "and_neg", "or_pos", "or_neg", "and", "not_or", "or", "not_and", "and_intro"];
const SIBS: &[&str] = &[
    "xor_pos1", "xor_pos2", "xor_neg1", "xor_neg2", "implies_pos", "implies_neg1", "implies_neg2", "equiv_pos1",
    "equiv_pos2", "equiv_neg1", "equiv_neg2", "ite_pos1", "ite_pos2", "ite_neg1", "ite_neg2", "equiv1", "equiv2",
    "not_equiv1", "not_equiv2", "ite1", "ite2", "not_ite1", "not_ite2", "xor1", "xor2", "not_xor1", "not_xor2",
    "implies", "not_implies1", "not_implies2", "and_pos", "and_neg", "or_pos", "or_neg", "and", "not_or", "or",
    "not_and", "and_intro", "not_not", "connective_def", "ite_intro", "nary_elim", "distinct_elim", "bfun_elim",
    "true", "false",
];

fn nary(r: &mut Rng, w: &World, i: usize) -> Case {
    let n = match r.below(8) {
        0 => 1,
        1 => 5 + r.below(12),
        _ => 2 + r.below(3),
    };
    let mut v: Vec<Sx> = (0..n).map(|_| w.bs(r)).collect();
    if r.chance(1, 4) && n > 1 {
        // repeated operand
        let k = r.below(n - 1);
        v[n - 1] = v[k].clone();
    }
    let and = app("and", &v);
    let or = app("or", &v);
    let k = if r.chance(1, 3) { n - 1 } else { r.below(n) };
    let idx = vec![int(k as i128)];
    let rule = NARY[i];
    let nots: Vec<Sx> = v.iter().map(not).collect();
    let one = |h: Sx, t: &[Sx]| {
        let mut c = vec![h];
        c.extend(t.iter().cloned());
        c
    };
    let (pr, co, ar): (Vec<Vec<Sx>>, Vec<Sx>, Vec<Sx>) = match rule {
        "and_pos" => (vec![], vec![not(&and), v[k].clone()], idx),
        "and_neg" => (vec![], one(and, &nots), vec![]),
        "or_pos" => (vec![], one(not(&or), &v), vec![]),
        "or_neg" => (vec![], vec![or, not(&v[k])], idx),
        "and" => (vec![vec![and]], vec![v[k].clone()], idx),
        "not_or" => (vec![vec![not(&or)]], vec![not(&v[k])], idx),
        "or" => (vec![vec![or]], v, vec![]),
        "not_and" => (vec![vec![not(&and)]], nots, vec![]),
        _ => {
            // and_intro, with some premises being proper clauses
            let mut ps = vec![];
            let mut cs = vec![];
            for x in v {
                if r.chance(1, 3) {
                    let m = 2 + r.below(2);
                    let c: Vec<Sx> = (0..m).map(|_| w.bs(r)).collect();
                    cs.push(app("or", &c));
                    ps.push(c);
                } else {
                    cs.push(x.clone());
                    ps.push(vec![x]);
                }
            }
            (ps, vec![app("and", &cs)], vec![])
        }
    };
    Case::new(&w.d, "nary", rule, pr, co, ar)
}

fn ite_subterms(t: &Sx, d: &Decls, out: &mut Vec<Sx>) {
    for (p, s, sc) in subterms(t, d) {
        let x = t.at(&p);
        if x.is_op("ite") && s != St::Bool && sc.is_empty() && !out.contains(x) {
            out.push(x.clone());
        }
    }
}

fn ite_intro(r: &mut Rng, w: &World) -> Option<Case> {
    let mut its = vec![];
    let n = 1 + r.below(2);
    for _ in 0..n {
        let s = match r.below(4) {
            0 => St::Int,
            1 => St::Real,
            2 => w.w.clone(),
            _ => w.u.clone(),
        };
        let c = w.bs(r);
        let x = w.t(r, &s, 1);
        let y = w.t(r, &s, 1);
        its.push((l(vec![a("ite"), c, x, y]), s));
    }
    let (it, s) = &its[0];
    let other = if its.len() > 1 && its[1].1 == *s { its[1].0.clone() } else { w.t(r, s, 1) };
    let root = match s {
        St::U(n) if &**n == "U" && r.coin() => app("R", &[it.clone(), other]),
        St::Int if r.coin() => app("<", &[app("+", &[it.clone(), a("1")]), other]),
        _ => eq(it, &other),
    };
    let mut found = vec![];
    ite_subterms(&root, &w.d, &mut found);
    let mut us = vec![root.clone()];
    for t in &found {
        let (c, x, y) = (&t.args()[0], &t.args()[1], &t.args()[2]);
        let mut e1 = (x.clone(), t.clone());
        let mut e2 = (y.clone(), t.clone());
        if r.coin() {
            e1 = (e1.1, e1.0);
        }
        if r.coin() {
            e2 = (e2.1, e2.0);
        }
        us.push(l(vec![a("ite"), c.clone(), eq(&e1.0, &e1.1), eq(&e2.0, &e2.1)]));
    }
    if r.chance(1, 4) {
        us.truncate(1 + r.below(us.len()));
    }
    if r.chance(1, 8) {
        return Some(Case::new(&w.d, "identity", "ite_intro", vec![], vec![eq(&root, &root)], vec![]));
    }
    Some(Case::new(&w.d, "defs", "ite_intro", vec![], vec![eq(&root, &app("and", &us))], vec![]))
}

fn nary_elim(r: &mut Rng, w: &World) -> Case {
    let n = 2 + r.below(5);
    let (op, s) = match r.below(9) {
        5 => ("xor", St::Bool),
        6 => (*r.pick(&["<", "<=", ">", ">="]), if r.coin() { St::Int } else { St::Real }),
        7 => ("div", St::Int),
        8 => ("/", St::Real),
        0 => ("=", w.sort(r)),
        1 => ("=>", St::Bool),
        2 => ("-", if r.coin() { St::Int } else { St::Real }),
        3 => ("+", if r.coin() { St::Int } else { St::Real }),
        _ => ("*", if r.coin() { St::Int } else { St::Real }),
    };
    let v: Vec<Sx> = (0..n).map(|_| w.t(r, &s, 1)).collect();
    let res = match op {
        "=" | "<" | "<=" | ">" | ">=" => app("and", &v.windows(2).map(|p| app(op, p)).collect::<Vec<_>>()),
        "=>" => {
            let mut t = v[n - 1].clone();
            for x in v[..n - 1].iter().rev() {
                t = app("=>", &[x.clone(), t]);
            }
            t
        }
        _ => {
            let mut t = v[0].clone();
            for x in &v[1..] {
                t = app(op, &[t, x.clone()]);
            }
            t
        }
    };
    Case::new(&w.d, "nary", "nary_elim", vec![], vec![eq(&app(op, &v), &res)], vec![])
}

fn distinct_elim(r: &mut Rng, w: &World) -> Case {
    let n = 2 + r.below(5);
    let s = w.sort(r);
    let v: Vec<Sx> = (0..n).map(|_| w.t(r, &s, 1)).collect();
    let mut ds = vec![];
    for i in 0..n {
        for j in i + 1..n {
            ds.push(not(&if r.chance(1, 3) { eq(&v[j], &v[i]) } else { eq(&v[i], &v[j]) }));
        }
    }
    let rhs = if n == 2 {
        ds[0].clone()
    } else if s == St::Bool {
        ff()
    } else {
        app("and", &ds)
    };
    Case::new(&w.d, "distinct", "distinct_elim", vec![], vec![eq(&app("distinct", &v), &rhs)], vec![])
}

/// Independent implementation of the two documented expansion steps.
fn bfun(t: &Sx, d: &Decls, sc: &mut Scope) -> Sx {
    let Some((h, args)) = t.op() else { return t.clone() };
    if h == "forall" || h == "exists" {
        let bs = bindings(&args[0]).unwrap();
        let bools: Vec<_> = bs.iter().filter(|b| b.1.atom() == Some("Bool")).map(|b| b.0.clone()).collect();
        let rest: Vec<Sx> = bs
            .iter()
            .filter(|b| b.1.atom() != Some("Bool"))
            .map(|b| l(vec![Sx::A(b.0.clone()), b.1.clone()]))
            .collect();
        // the last Boolean variable is instantiated first, false before true
        let mut insts = vec![args[1].clone()];
        for x in bools.iter().rev() {
            let mut nx = vec![];
            for t in &insts {
                nx.push(subst_free(t, x, &ff()));
                nx.push(subst_free(t, x, &tt()));
            }
            insts = nx;
        }
        let inner =
            if insts.len() == 1 { insts.pop().unwrap() } else { app(if h == "forall" { "and" } else { "or" }, &insts) };
        let n = sc.len();
        for b in &bs {
            sc.push((b.0.clone(), sort_of_sx(&b.1).unwrap()));
        }
        let inner = bfun(&inner, d, sc);
        sc.truncate(n);
        return if rest.is_empty() { inner } else { l(vec![a(h), l(rest), inner]) };
    }
    let nargs: Vec<Sx> = args.iter().map(|x| bfun(x, d, sc)).collect();
    if d.get(h).is_some() {
        return expand(h, &nargs, 0, d, sc);
    }
    app(h, &nargs)
}
fn expand(h: &str, args: &[Sx], from: usize, d: &Decls, sc: &mut Scope) -> Sx {
    for i in from..args.len() {
        if sort_of(&args[i], d, sc) == Some(St::Bool) && args[i] != tt() && args[i] != ff() {
            let mut t = args.to_vec();
            t[i] = tt();
            let x = expand(h, &t, i + 1, d, sc);
            t[i] = ff();
            let y = expand(h, &t, i + 1, d, sc);
            return l(vec![a("ite"), args[i].clone(), x, y]);
        }
    }
    app(h, args)
}
pub fn subst_free(t: &Sx, x: &str, v: &Sx) -> Sx {
    match t {
        Sx::A(y) if &**y == x => v.clone(),
        Sx::A(_) => t.clone(),
        Sx::L(xs) => {
            if xs.len() == 3 && matches!(xs[0].atom(), Some("forall" | "exists" | "choice" | "lambda")) {
                if bindings(&xs[1]).map_or(false, |b| b.iter().any(|p| &*p.0 == x)) {
                    return t.clone();
                }
                return l(vec![xs[0].clone(), xs[1].clone(), subst_free(&xs[2], x, v)]);
            }
            l(xs.iter().map(|y| subst_free(y, x, v)).collect())
        }
    }
}
fn bfun_elim(r: &mut Rng, w: &World) -> Option<Case> {
    let cfg = Cfg { quant: false, ite: true, arith: false, letb: false };
    let mut sc: Scope = vec![];
    let mut bs = vec![];
    let names = ["X", "Y", "Z"];
    let k = r.below(4).min(3);
    for n in &names[..k] {
        let s = if r.chance(2, 3) { St::Bool } else { w.u.clone() };
        bs.push(l(vec![a(n), s.sx()]));
        sc.push((std::rc::Rc::from(*n), s));
    }
    let depth = if k == 3 { 2 } else { 2 + r.below(2) };
    let body = w.term(r, &St::Bool, depth, &mut sc, cfg);
    let mut psi = if bs.is_empty() { body } else { l(vec![a(*r.pick(&["forall", "exists"])), l(bs), body]) };
    if r.chance(1, 3) {
        psi = app(*r.pick(&["and", "or", "=>"]), &[psi, w.b(r, 1)]);
        if psi.to_string().contains("forall ((x") {
            return None;
        }
    }
    if psi.size() > 60 {
        return None;
    }
    let res = bfun(&psi, &w.d, &mut vec![]);
    if res.size() > 1500 {
        return None;
    }
    Some(Case::new(&w.d, "expand", "bfun_elim", vec![vec![psi]], vec![res], vec![]))
}

pub fn gen(r: &mut Rng, w: &World) -> Option<Case> {
    match r.below(16) {
        0..=6 => {
            let (rule, ps, co) = *r.pick(TPL);
            let mv: Vec<Sx> = (0..3)
                .map(|_| {
                    let t = w.bs(r);
                    if r.chance(1, 5) {
                        not(&t)
                    } else {
                        t
                    }
                })
                .collect();
            let mut mv = mv;
            if r.chance(1, 8) {
                mv[1] = mv[0].clone();
            }
            if r.chance(1, 8) {
                mv[1] = not(&mv[0]);
            }
            let m: Vec<&Sx> = mv.iter().collect();
            Some(Case::new(
                &w.d,
                "schema",
                rule,
                ps.iter().map(|p| p.iter().map(|t| f(t, &m)).collect()).collect(),
                co.iter().map(|t| f(t, &m)).collect(),
                vec![],
            ))
        }
        7..=10 => {
            let i = r.below(NARY.len());
            Some(nary(r, w, i))
        }
        11 => ite_intro(r, w),
        12 => Some(nary_elim(r, w)),
        13 => Some(distinct_elim(r, w)),
        14 => bfun_elim(r, w),
        _ => {
            // quantifier cases of connective_def
            let mut sc: Scope = vec![];
            let mut bs = vec![];
            for n in ["X", "Y"] {
                if r.coin() || bs.is_empty() {
                    let s = if r.coin() { w.u.clone() } else { St::Bool };
                    bs.push(l(vec![a(n), s.sx()]));
                    sc.push((std::rc::Rc::from(n), s));
                }
            }
            let body = w.term(r, &St::Bool, 2, &mut sc, Cfg::default());
            let (q, dual) = if r.coin() { ("forall", "exists") } else { ("exists", "forall") };
            let lhs = l(vec![a(q), l(bs.clone()), body.clone()]);
            let rhs = not(&l(vec![a(dual), l(bs), not(&body)]));
            Some(Case::new(&w.d, "duality", "connective_def", vec![], vec![eq(&lhs, &rhs)], vec![]))
        }
    }
}

pub fn run(c: &mut Ctx) {
    let w = world();
    let n = c.iters(5000);
    let k = Knobs { mutants: 6, tries: 24 };
    for _ in 0..n {
        if c.late() {
            break;
        }
        if let Some(case) = gen(&mut c.rng, &w) {
            drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, no_class, true);
        }
    }
}
