//! Simplification rewrites.
use super::Ctx;
use crate::engine::*;
use crate::eval::Q;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

/// (rule, lhs, rhs): ?0 ?1 ?2 opaque Boolean metavariables, ?3 ?4 ?5 opaque terms of one sort
const TPL: &[(&str, &str, &str)] = &[
    ("ite_simplify", "(ite true ?3 ?4)", "?3"),
    ("ite_simplify", "(ite false ?3 ?4)", "?4"),
    ("ite_simplify", "(ite ?0 ?3 ?3)", "?3"),
    ("ite_simplify", "(ite ?0 true false)", "?0"),
    ("ite_simplify", "(ite ?0 false true)", "(not ?0)"),
    ("ite_simplify", "(ite (not ?0) ?3 ?4)", "(ite ?0 ?4 ?3)"),
    ("ite_simplify", "(ite ?0 (ite ?0 ?3 ?4) ?5)", "(ite ?0 ?3 ?5)"),
    ("ite_simplify", "(ite ?0 ?3 (ite ?0 ?4 ?5))", "(ite ?0 ?3 ?5)"),
    ("ite_simplify", "(ite ?0 true ?1)", "(or ?0 ?1)"),
    ("ite_simplify", "(ite ?0 ?1 false)", "(and ?0 ?1)"),
    ("ite_simplify", "(ite ?0 false ?1)", "(and (not ?0) ?1)"),
    ("ite_simplify", "(ite ?0 ?1 true)", "(or (not ?0) ?1)"),
    ("eq_simplify", "(= ?3 ?3)", "true"),
    ("eq_simplify", "(not (= 5 5))", "false"),
    ("eq_simplify", "(not (= (- 2.5) (- 2.5)))", "false"),
    ("not_simplify", "(not (not ?0))", "?0"),
    ("not_simplify", "(not false)", "true"),
    ("not_simplify", "(not true)", "false"),
    ("implies_simplify", "(=> (not ?0) (not ?1))", "(=> ?1 ?0)"),
    ("implies_simplify", "(=> false ?0)", "true"),
    ("implies_simplify", "(=> ?0 true)", "true"),
    ("implies_simplify", "(=> true ?0)", "?0"),
    ("implies_simplify", "(=> ?0 false)", "(not ?0)"),
    ("implies_simplify", "(=> ?0 ?0)", "true"),
    ("implies_simplify", "(=> (not ?0) ?0)", "?0"),
    ("implies_simplify", "(=> ?0 (not ?0))", "(not ?0)"),
    ("implies_simplify", "(=> (=> ?0 ?1) ?1)", "(or ?0 ?1)"),
    ("equiv_simplify", "(= (not ?0) (not ?1))", "(= ?0 ?1)"),
    ("equiv_simplify", "(= ?0 ?0)", "true"),
    ("equiv_simplify", "(= ?0 (not ?0))", "false"),
    ("equiv_simplify", "(= (not ?0) ?0)", "false"),
    ("equiv_simplify", "(= true ?0)", "?0"),
    ("equiv_simplify", "(= ?0 true)", "?0"),
    ("equiv_simplify", "(= false ?0)", "(not ?0)"),
    ("equiv_simplify", "(= ?0 false)", "(not ?0)"),
    ("bool_simplify", "(not (=> ?0 ?1))", "(and ?0 (not ?1))"),
    ("bool_simplify", "(not (or ?0 ?1))", "(and (not ?0) (not ?1))"),
    ("bool_simplify", "(not (and ?0 ?1))", "(or (not ?0) (not ?1))"),
    ("bool_simplify", "(=> ?0 (=> ?1 ?2))", "(=> (and ?0 ?1) ?2)"),
    ("bool_simplify", "(=> (=> ?0 ?1) ?1)", "(or ?0 ?1)"),
    ("bool_simplify", "(and ?0 (=> ?0 ?1))", "(and ?0 ?1)"),
    ("bool_simplify", "(and (=> ?0 ?1) ?0)", "(and ?0 ?1)"),
    ("comp_simplify", "(< ?7 ?7)", "false"),
    ("comp_simplify", "(<= ?7 ?7)", "true"),
    ("comp_simplify", "(< ?7 ?8)", "(not (<= ?8 ?7))"),
    ("comp_simplify", "(>= ?7 ?8)", "(<= ?8 ?7)"),
    ("comp_simplify", "(> ?7 ?8)", "(not (<= ?7 ?8))"),
    ("minus_simplify", "(- ?7 ?7)", "?9"),
    ("minus_simplify", "(- ?7 ?9)", "?7"),
    ("minus_simplify", "(- ?9 ?7)", "(- ?7)"),
    ("minus_simplify", "(- (- ?7))", "?7"),
    ("unary_minus_simplify", "(- (- ?7))", "?7"),
];
const SIBS: &[&str] = &[
    "ite_simplify", "eq_simplify", "and_simplify", "or_simplify", "not_simplify", "implies_simplify", "equiv_simplify",
    "bool_simplify", "qnt_simplify", "div_simplify", "prod_simplify", "minus_simplify", "unary_minus_simplify",
    "sum_simplify", "comp_simplify", "ac_simp", "aci_simp",
];
fn world3() -> World {
    let mut w = world();
    let mut d = (*w.d).clone();
    for v in ["bx", "by", "bz"] {
        for n in [1usize, 4, 70] {
            d.fun(&format!("{v}{n}"), &[], St::Bv(n));
        }
    }
    w.d = Rc::new(d);
    w
}
/// an opaque Boolean (no connective at the top), distinct from the others
fn ob(r: &mut Rng, w: &World, seen: &mut Vec<Sx>) -> Sx {
    loop {
        let t = match r.below(6) {
            0 => app("P", &[w.t(r, &w.u, 1)]),
            1 => app("R", &[w.t(r, &w.u, 1), w.t(r, &w.u, 1)]),
            2 => app("N", &[w.t(r, &St::Int, 1)]),
            _ => a(*r.pick(&["p", "q", "r", "s", "t", "|p 1|"])),
        };
        if !seen.contains(&t) {
            seen.push(t.clone());
            return t;
        }
    }
}
fn ot(r: &mut Rng, w: &World, s: &St, seen: &mut Vec<Sx>) -> Sx {
    for _ in 0..50 {
        let t = match s {
            St::Bool => return ob(r, w, seen),
            St::Int => {
                if r.coin() {
                    app("n", &[w.t(r, s, 1)])
                } else {
                    r.pick(&w.d.consts(s)).clone()
                }
            }
            St::Real => {
                if r.coin() {
                    app("e", &[w.t(r, s, 1)])
                } else {
                    r.pick(&w.d.consts(s)).clone()
                }
            }
            _ => {
                if r.coin() {
                    r.pick(&w.d.consts(s)).clone()
                } else {
                    w.t(r, s, 2)
                }
            }
        };
        if !seen.contains(&t) && !t.is_op("ite") {
            seen.push(t.clone());
            return t;
        }
    }
    a("a")
}
fn schema(r: &mut Rng, w: &World) -> Option<Case> {
    let (rule, lhs, rhs) = *r.pick(TPL);
    let mut seen = vec![];
    let mut mv: Vec<Sx> = (0..3).map(|_| ob(r, w, &mut seen)).collect();
    let s = loop {
        let s = w.sort(r);
        // with Boolean branches several patterns overlap
        if s != St::Bool {
            break s;
        }
    };
    if s == w.w {
        mv.extend([a("k"), a("l"), parse("(h c)")]);
    } else {
        for _ in 0..3 {
            mv.push(ot(r, w, &s, &mut seen));
        }
    }
    mv.push(tt());
    let ns = if r.coin() { St::Int } else { St::Real };
    mv.push(ot(r, w, &ns, &mut seen));
    mv.push(ot(r, w, &ns, &mut seen));
    mv.push(a(if ns == St::Int { "0" } else { "0.0" }));
    let m: Vec<&Sx> = mv.iter().collect();
    let (x, y) = (f(lhs, &m), f(rhs, &m));
    let c = if r.chance(1, 4) { eq(&y, &x) } else { eq(&x, &y) };
    // a flipped comparison or equality would first be simplified the other way around
    let c = if matches!(rule, "comp_simplify" | "equiv_simplify" | "bool_simplify" | "implies_simplify") { eq(&x, &y) } else { c };
    Some(Case::new(&w.d, "schema", rule, vec![], vec![c], vec![]))
}
/// the same patterns with arbitrary fillings: only soundness is demanded
fn wild(r: &mut Rng, w: &World) -> Option<Case> {
    let (rule, lhs, rhs) = *r.pick(TPL);
    let s = w.sort(r);
    let mut mv: Vec<Sx> = (0..3).map(|_| w.bs(r)).collect();
    for _ in 0..3 {
        mv.push(w.t(r, &s, 1));
    }
    mv.push(tt());
    let ns = if r.coin() { St::Int } else { St::Real };
    for _ in 0..2 {
        mv.push(w.t(r, &ns, 1));
    }
    mv.push(a(if ns == St::Int { "0" } else { "0.0" }));
    let m: Vec<&Sx> = mv.iter().collect();
    Some(Case::new(&w.d, "wild", rule, vec![], vec![eq(&f(lhs, &m), &f(rhs, &m))], vec![]))
}
fn strip(t: &Sx) -> (bool, Sx) {
    let mut p = true;
    let mut t = t.clone();
    while t.is_op("not") {
        p = !p;
        t = t.args()[0].clone();
    }
    (p, t)
}
fn and_or(r: &mut Rng, w: &World) -> Option<Case> {
    let and = r.coin();
    let (op, rule) = if and { ("and", "and_simplify") } else { ("or", "or_simplify") };
    let (skip, short) = if and { (tt(), ff()) } else { (ff(), tt()) };
    let n = 2 + r.below(6);
    let mut seen = vec![];
    let mut v: Vec<Sx> = vec![];
    let clash = r.chance(1, 4);
    for _ in 0..n {
        v.push(match r.below(8) {
            0 => skip.clone(),
            1 | 2 if !v.is_empty() => r.pick(&v).clone(),
            3 if clash && r.coin() => short.clone(),
            4 if clash && !v.is_empty() => not(&r.pick(&v).clone()),
            5 => not(&ob(r, w, &mut seen)),
            6 => not(&not(&ob(r, w, &mut seen))),
            _ => ob(r, w, &mut seen),
        });
    }
    let mut res: Vec<Sx> = vec![];
    for x in &v {
        if *x != skip && !res.contains(x) {
            res.push(x.clone());
        }
    }
    let cl = res.iter().any(|x| {
        *x == short || {
            let (p, t) = strip(x);
            res.iter().any(|y| strip(y) == (!p, t.clone()))
        }
    });
    let rhs = if cl {
        short
    } else if res.is_empty() {
        skip.clone()
    } else if res.len() == 1 {
        res[0].clone()
    } else {
        app(op, &res)
    };
    // intermediate result: only the units removed
    let only: Vec<Sx> = v.iter().filter(|x| **x != skip).cloned().collect();
    let rhs = if r.chance(1, 6) && only.len() > 1 { app(op, &only) } else { rhs };
    let mut lhs = app(op, &v);
    if r.chance(1, 8) {
        lhs = app(op, &[lhs]);
    }
    Some(Case::new(&w.d, "nary", rule, vec![], vec![eq(&lhs, &rhs)], vec![]))
}
fn cst(r: &mut Rng, s: &St, lo: i64, hi: i64) -> (Sx, Q) {
    let q = if *s == St::Int || r.coin() {
        Q::int(r.range(lo, hi) as i128)
    } else {
        Q::new(r.range(2 * lo, 2 * hi) as i128, *r.pick(&[2i128, 4])).unwrap()
    };
    (super::c04::num(r, q, s), q)
}
fn sum_prod(r: &mut Rng, w: &World) -> Option<Case> {
    let s = if r.coin() { St::Int } else { St::Real };
    let sum = r.coin();
    let (op, rule) = if sum { ("+", "sum_simplify") } else { ("*", "prod_simplify") };
    let n = 2 + r.below(5);
    let mut tot = Q::int(if sum { 0 } else { 1 });
    let mut rest: Vec<Sx> = vec![];
    let mut v = vec![];
    let mut seen = vec![];
    for _ in 0..n {
        if r.coin() {
            let (t, q) = if !sum && r.chance(1, 8) {
                (a(if s == St::Int { "0" } else { "0.0" }), Q::int(0))
            } else if r.chance(1, 6) {
                let k = if sum { 0 } else { 1 };
                (a(&if s == St::Int { format!("{k}") } else { format!("{k}.0") }), Q::int(k))
            } else {
                cst(r, &s, -4, 5)
            };
            tot = if sum { tot.add(q)? } else { tot.mul(q)? };
            v.push(t);
        } else {
            let t = if r.chance(1, 4) && !rest.is_empty() { r.pick(&rest).clone() } else { ot(r, w, &s, &mut seen) };
            rest.push(t.clone());
            v.push(t);
        }
    }
    if tot.n.abs() > 1 << 40 || tot.d > 1 << 40 {
        return None;
    }
    let zero = !sum && tot.n == 0;
    let id = Q::int(if sum { 0 } else { 1 });
    let c = super::c04::num(r, tot, &s);
    let rhs = if zero {
        c
    } else {
        let mut u = rest.clone();
        if tot != id || u.is_empty() {
            u.insert(0, c);
        }
        if u.len() == 1 {
            u.pop()?
        } else {
            app(op, &u)
        }
    };
    let lhs = app(op, &v);
    Some(Case::new(&w.d, "const", rule, vec![], vec![if r.chance(1, 4) { eq(&rhs, &lhs) } else { eq(&lhs, &rhs) }], vec![]))
}
/// constant with an explicit value that is not written as a quotient
fn plain(q: Q, s: &St) -> Option<Sx> {
    let n = q.n.abs();
    let t = if *s == St::Int {
        if !q.is_int() {
            return None;
        }
        int(n)
    } else {
        if 1000 % q.d != 0 {
            return None;
        }
        let m = n * (1000 / q.d);
        a(&format!("{}.{:03}", m / 1000, m % 1000))
    };
    Some(if q.n < 0 { app("-", &[t]) } else { t })
}
fn minus_div_comp(r: &mut Rng, w: &World) -> Option<Case> {
    let s = if r.coin() { St::Int } else { St::Real };
    let rq = |r: &mut Rng| {
        if s == St::Int || r.coin() {
            Q::int(r.range(-9, 9) as i128)
        } else {
            Q::new(r.range(-9, 9) as i128, *r.pick(&[2i128, 4, 5])).unwrap()
        }
    };
    let (x, y) = (rq(r), rq(r));
    let (sx, sy) = (plain(x, &s)?, plain(y, &s)?);
    match r.below(5) {
        0 => {
            // (- 0 t) is specified to become (- t), also for a number t
            if x.n == 0 && y.n < 0 {
                return None;
            }
            let lhs = app("-", &[sx, sy]);
            let rhs = plain(x.sub(y)?, &s)?;
            Some(Case::new(&w.d, "const", "minus_simplify", vec![], vec![if r.coin() { eq(&lhs, &rhs) } else { eq(&rhs, &lhs) }], vec![]))
        }
        1 => {
            let o = x.cmp(y)?;
            let (op, b) = if r.coin() { ("<", o.is_lt()) } else { ("<=", o.is_le()) };
            let (cx, cy) = (super::c04::num(r, x, &s), super::c04::num(r, y, &s));
            Some(Case::new(&w.d, "const", "comp_simplify", vec![], vec![eq(&app(op, &[cx, cy]), &if b { tt() } else { ff() })], vec![]))
        }
        2 => {
            let o = x == y;
            if o {
                return None;
            }
            Some(Case::new(&w.d, "const", "eq_simplify", vec![], vec![eq(&eq(&sx, &sy), &ff())], vec![]))
        }
        3 if s == St::Int => {
            if y.n == 0 {
                return None;
            }
            let lhs = app("div", &[sx.clone(), sy]);
            let rhs = plain(Q::int(x.n.div_euclid(y.n)), &s)?;
            Some(Case::new(&w.d, "const", "div_simplify", vec![], vec![eq(&lhs, &rhs)], vec![]))
        }
        3 => {
            if y.n == 0 {
                return None;
            }
            let lhs = app("/", &[sx, sy]);
            let q = x.mul(Q::new(y.d, y.n)?)?;
            let rhs = plain(q, &s).unwrap_or_else(|| super::c04::num(r, q, &s));
            Some(Case::new(&w.d, "const", "div_simplify", vec![], vec![eq(&lhs, &rhs)], vec![]))
        }
        _ => {
            let t = ot(r, w, &s, &mut vec![]);
            let (op, one) = if s == St::Int { ("div", "1") } else { ("/", "1.0") };
            Some(Case::new(&w.d, "one", "div_simplify", vec![], vec![eq(&app(op, &[t.clone(), a(one)]), &t)], vec![]))
        }
    }
}
fn ac_norm(t: &Sx) -> Sx {
    let Some((h, args)) = t.op() else { return t.clone() };
    if matches!(h, "forall" | "exists") {
        return l(vec![a(h), args[0].clone(), ac_norm(&args[1])]);
    }
    let args: Vec<Sx> = args.iter().map(ac_norm).collect();
    if h == "and" || h == "or" {
        let mut v: Vec<Sx> = vec![];
        for x in args {
            let xs = if x.is_op(h) { x.args().to_vec() } else { vec![x] };
            for y in xs {
                if !v.contains(&y) {
                    v.push(y);
                }
            }
        }
        return if v.len() == 1 { v.pop().unwrap() } else { app(h, &v) };
    }
    app(h, &args)
}
fn ac_simp(r: &mut Rng, w: &World) -> Option<Case> {
    fn deep(r: &mut Rng, w: &World, d: usize, at: &[Sx]) -> Sx {
        if d == 0 || r.chance(1, 5) {
            return if r.chance(1, 6) { w.b(r, 2) } else { r.pick(at).clone() };
        }
        match r.below(8) {
            0 => not(&deep(r, w, d - 1, at)),
            1 => app("=>", &[deep(r, w, d - 1, at), deep(r, w, d - 1, at)]),
            2 => l(vec![a("forall"), parse("((Q U))"), deep(r, w, d - 1, at)]),
            _ => {
                let n = 2 + r.below(3);
                let v: Vec<Sx> = (0..n).map(|_| deep(r, w, d - 1, at)).collect();
                app(*r.pick(&["and", "or"]), &v)
            }
        }
    }
    let mut seen = vec![];
    let at: Vec<Sx> = (0..3).map(|_| ob(r, w, &mut seen)).collect();
    let d = 2 + r.below(3);
    let t = deep(r, w, d, &at);
    if t.size() > 200 || t.to_string().contains("let") {
        return None;
    }
    let n = ac_norm(&t);
    Some(Case::new(&w.d, "norm", "ac_simp", vec![], vec![eq(&t, &n)], vec![]))
}
fn aci_simp(r: &mut Rng, w: &World) -> Option<Case> {
    let bv = *r.pick(&[1usize, 4, 70]);
    let ops = ["and", "or", "+", "*", "bvadd", "bvor", "bvmul", "bvand", "bvxor", "concat"];
    let op = *r.pick(&ops);
    let s = match op {
        "and" | "or" => St::Bool,
        "+" | "*" => {
            if r.coin() {
                St::Int
            } else {
                St::Real
            }
        }
        _ => St::Bv(if op == "concat" { 4 } else { bv }),
    };
    let bits = |c: char| a(&format!("#b{}", c.to_string().repeat(bv)));
    let id: Option<Sx> = match (op, &s) {
        ("and", _) => Some(tt()),
        ("or", _) => Some(ff()),
        ("+", St::Int) => Some(a("0")),
        ("+", _) => Some(a("0.0")),
        ("*", St::Int) => Some(a("1")),
        ("*", _) => Some(a("1.0")),
        ("bvadd" | "bvor" | "bvxor", _) => Some(bits('0')),
        ("bvand", _) => Some(bits('1')),
        ("bvmul", _) => Some(f(&format!("(_ bv1 {})", bv), &[])),
        _ => None,
    };
    let idem = matches!(op, "and" | "or" | "bvand" | "bvor");
    let mut seen = vec![];
    let at: Vec<Sx> = match &s {
        St::Bool => (0..3).map(|_| ob(r, w, &mut seen)).collect(),
        St::Bv(n) => ["bx", "by", "bz"].iter().map(|v| a(&format!("{v}{n}"))).collect(),
        _ => (0..3).map(|_| ot(r, w, &s, &mut seen)).collect(),
    };
    fn deep(r: &mut Rng, op: &str, d: usize, at: &[Sx], id: &Option<Sx>, out: &mut Vec<Sx>) -> Sx {
        if d == 0 || r.chance(1, 3) {
            if let (Some(i), true) = (id, r.chance(1, 5)) {
                return i.clone();
            }
            let x = r.pick(at).clone();
            out.push(x.clone());
            return x;
        }
        let n = 2 + r.below(2);
        let v: Vec<Sx> = (0..n).map(|_| deep(r, op, d - 1, at, id, out)).collect();
        app(op, &v)
    }
    let mut fl = vec![];
    let d = 1 + r.below(3);
    let lhs = deep(r, op, d, &at, &id, &mut fl);
    if !lhs.is_op(op) {
        return None;
    }
    if idem {
        let mut u: Vec<Sx> = vec![];
        for x in fl {
            if !u.contains(&x) {
                u.push(x);
            }
        }
        fl = u;
    }
    if op != "concat" {
        r.shuffle(&mut fl);
    }
    let rhs = match fl.len() {
        0 => id?,
        1 => fl.pop()?,
        _ => app(op, &fl),
    };
    Some(Case::new(&w.d, "norm", "aci_simp", vec![], vec![eq(&lhs, &rhs)], vec![]))
}
fn qnt(r: &mut Rng, w: &World) -> Option<Case> {
    let q = *r.pick(&["forall", "exists"]);
    let b = if r.coin() { tt() } else { ff() };
    let bs = parse(*r.pick(&["((X U))", "((X Bool) (Y Int))", "((x Real))"]));
    Some(Case::new(&w.d, "const", "qnt_simplify", vec![], vec![eq(&l(vec![a(q), bs, b.clone()]), &b)], vec![]))
}
/// Accepted quotients of a term by itself, whatever its value (recorded finding).
pub fn class(c: &Case) -> Option<&'static str> {
    if c.rule == "div_simplify" && c.concl.len() == 1 && c.concl[0].is_op("=") {
        let t = &c.concl[0].args()[0];
        if (t.is_op("div") || t.is_op("/")) && t.args().len() == 2 && t.args()[0] == t.args()[1] {
            return Some("div-self");
        }
    }
    None
}
pub fn run(c: &mut Ctx) {
    let w = world3();
    if c.worker == 0 {
        for t in ["(div x x)", "(/ u u)"] {
            let one = if t.contains('x') { "1" } else { "1.0" };
            let case = Case::new(&w.d, "known", "div_simplify", vec![], vec![eq(&parse(t), &a(one))], vec![]);
            if case.run().accepted() && case.countermodel(&mut c.rng, 60).is_some() {
                c.rep.known.insert(
                    "unsound:div_simplify:self".into(),
                    "div_simplify accepts (= (div x x) 1) and (= (/ u u) 1.0) although the divisor may be zero".into(),
                );
            }
        }
    }
    let n = c.iters(5500);
    let k = Knobs { mutants: 6, tries: 30 };
    for _ in 0..n {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let (case, must) = match r.below(16) {
            0..=4 => (schema(r, &w), true),
            5 => (wild(r, &w), false),
            6..=7 => (and_or(r, &w), true),
            8..=9 => (sum_prod(r, &w), true),
            10..=11 => (minus_div_comp(r, &w), true),
            12 => (ac_simp(r, &w), true),
            13 | 14 => (aci_simp(r, &w), true),
            _ => (qnt(r, &w), true),
        };
        if let Some(case) = case {
            drive(&case, r, &mut c.rep, &k, SIBS, class, must);
        }
    }
}
