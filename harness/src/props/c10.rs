//! Cutting planes: every 0-1 solution of the premises satisfies the conclusion.
use super::Ctx;
use crate::engine::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

const SIBS: &[&str] = &["cp_addition", "cp_multiplication", "cp_division", "cp_saturation", "cp_literal", "cp_normalize"];
fn decls() -> Decls {
    let mut d = Decls::new();
    for n in ["x", "~x", "y", "z", "w"] {
        d.fun(n, &[], St::Int);
    }
    d.fun("b", &[], St::Bv(2));
    d.fun("g", &[St::Int], St::Int);
    d
}
fn num(n: i128) -> Sx {
    a(&n.to_string())
}
type Lit = (Sx, bool);
/// coefficient, literal; in order
type Con = (Vec<(i128, Lit)>, i128);
fn atom(r: &mut Rng) -> Sx {
    match r.below(12) {
        0 => f("((_ @int_of ?0) b)", &[&num(r.below(2) as i128)]),
        1 => app("g", &[a(*r.pick(&["x", "y"]))]),
        2 | 3 => a("~x"),
        _ => a(*r.pick(&["x", "x", "y", "y", "z", "w"])),
    }
}
fn ls(l: &Lit) -> Sx {
    if l.1 {
        app("-", &[num(1), l.0.clone()])
    } else {
        l.0.clone()
    }
}
fn coeff(r: &mut Rng) -> i128 {
    match r.below(8) {
        0 => 1 + r.below(30) as i128,
        1 if r.chance(1, 4) => (1i128 << 64) + r.below(5) as i128,
        _ => 1 + r.below(5) as i128,
    }
}
/// a canonical constraint: every variable at most once, positive coefficients
fn con(r: &mut Rng, n: usize) -> Con {
    let mut v: Vec<(i128, Lit)> = vec![];
    for _ in 0..n {
        let t = atom(r);
        if v.iter().all(|x| x.1 .0 != t) {
            v.push((coeff(r), (t, r.chance(1, 3))));
        }
    }
    let tot: i128 = v.iter().map(|x| x.0).sum();
    let k = match r.below(4) {
        0 => r.below(3) as i128,
        1 => tot.min(1 + r.below(6) as i128),
        2 => tot / 2,
        _ => r.below((tot.min(20) + 1) as usize) as i128,
    };
    (v, k)
}
/// deliberately irregular: repeated, opposite, negative, zero
fn weird(r: &mut Rng, n: usize) -> Con {
    let mut v: Vec<(i128, Lit)> = vec![];
    for _ in 0..n {
        let c = match r.below(6) {
            0 => 0,
            1 | 2 => -(coeff(r) % 7),
            _ => coeff(r),
        };
        v.push((c, (atom(r), r.chance(1, 3))));
    }
    (v, r.range(-8, 8) as i128)
}
fn sum(r: &mut Rng, v: &[(i128, Lit)], shuffle: bool) -> Sx {
    let mut t: Vec<Sx> = v.iter().map(|(c, l)| app("*", &[num(*c), ls(l)])).collect();
    if t.is_empty() && r.chance(1, 3) {
        // a constant that is not zero is not a sum of literals
        return num(r.range(-3, 3) as i128);
    }
    if shuffle && r.coin() {
        r.shuffle(&mut t);
    }
    match t.len() {
        0 => num(0),
        1 => t[0].clone(),
        _ => app("+", &t),
    }
}
fn csx(r: &mut Rng, c: &Con, shuffle: bool) -> Sx {
    app(">=", &[sum(r, &c.0, shuffle), num(c.1)])
}
fn ceil(n: i128, d: i128) -> i128 {
    (n + d - 1).div_euclid(d)
}
/// merge, cancelling opposite literals
fn merge(a: &Con, b: &Con) -> Con {
    let mut v: Vec<(i128, Lit)> = vec![];
    for (c, l) in a.0.iter().chain(&b.0) {
        match v.iter_mut().find(|x| x.1 == *l) {
            Some(x) => x.0 += c,
            None => v.push((*c, l.clone())),
        }
    }
    let mut k = a.1 + b.1;
    let n = v.len();
    for i in 0..n {
        if v[i].1 .1 {
            continue;
        }
        if let Some(j) = (0..n).find(|&j| v[j].1 .1 && v[j].1 .0 == v[i].1 .0) {
            let m = v[i].0.min(v[j].0);
            v[i].0 -= m;
            v[j].0 -= m;
            k -= m;
        }
    }
    (v, k)
}
fn prune(r: &mut Rng, c: Con, all: bool) -> Con {
    (c.0.into_iter().filter(|x| x.0 != 0 || !all && r.coin()).collect(), c.1)
}
fn instance(r: &mut Rng, d: &Rc<Decls>) -> (Case, bool) {
    let bad = r.chance(1, 3);
    let n = if r.chance(1, 12) { 0 } else { 1 + r.below(4) };
    // constraints without literals: what they mean depends on the constant that is printed
    let bad = bad || n == 0;
    let mk = |r: &mut Rng, n| if bad { weird(r, n) } else { con(r, n) };
    match r.below(6) {
        0 => {
            let (p, q) = (mk(r, n), mk(r, 1 + n));
            let c = prune(r, merge(&p, &q), bad);
            let (ps, qs, cs) = (csx(r, &p, false), csx(r, &q, false), csx(r, &c, true));
            (Case::new(d, "cp", "cp_addition", vec![vec![ps], vec![qs]], vec![cs], vec![]), !bad && !c.0.is_empty())
        }
        1 => {
            let p = mk(r, n);
            let k = if bad { r.range(-3, 3) as i128 } else { 1 + r.below(20) as i128 };
            let c = (p.0.iter().map(|x| (x.0 * k, x.1.clone())).collect(), p.1 * k);
            let (ps, cs) = (csx(r, &p, false), csx(r, &c, true));
            (Case::new(d, "cp", "cp_multiplication", vec![vec![ps]], vec![cs], vec![num(k)]), !bad)
        }
        2 => {
            let mut p = mk(r, n);
            let k = 1 + r.below(7) as i128;
            if r.coin() {
                for x in p.0.iter_mut() {
                    if r.coin() {
                        x.0 = x.0 / k * k;
                    }
                }
            }
            p.0.retain(|x| x.0 != 0);
            let mut c: Con = (p.0.iter().map(|x| (ceil(x.0, k), x.1.clone())).collect(), ceil(p.1, k));
            if bad && r.coin() {
                // rounding towards zero, as the checker does it
                c = (p.0.iter().map(|x| ((x.0 + k - 1) / k, x.1.clone())).collect(), (p.1 + k - 1) / k);
            }
            let (ps, cs) = (csx(r, &p, false), csx(r, &c, true));
            let mut prem = vec![ps];
            let mut must = !bad && !p.0.is_empty();
            if r.chance(1, 10) {
                prem.push(app(">=", &[atom(r), num(1)]));
                must = false;
            }
            (Case::new(d, "cp", "cp_division", vec![prem], vec![cs], vec![num(k)]), must)
        }
        3 => {
            let p = mk(r, n);
            let c = (p.0.iter().map(|x| (x.0.min(p.1), x.1.clone())).collect(), p.1);
            let (ps, cs) = (csx(r, &p, false), csx(r, &c, true));
            let mut prem = vec![ps];
            let mut must = !bad;
            if r.chance(1, 10) {
                prem.push(app(">=", &[atom(r), num(1)]));
                must = false;
            }
            (Case::new(d, "cp", "cp_saturation", vec![prem], vec![cs], vec![]), must)
        }
        4 => {
            let l = ls(&(atom(r), r.coin()));
            let k = if r.chance(1, 6) { r.range(-2, 2) as i128 } else { 1 };
            let t = if r.coin() || k != 1 { app("*", &[num(k), l.clone()]) } else { l.clone() };
            (Case::new(d, "cp", "cp_literal", vec![], vec![app(">=", &[t, num(0)])], vec![l]), k == 1)
        }
        _ => normalize(r, d),
    }
}
/// (term, monomials in order, constant)
fn tree(r: &mut Rng, depth: usize) -> (Sx, Vec<(i128, Lit)>, i128) {
    if depth == 0 || r.chance(1, 4) {
        return match r.below(8) {
            0 => {
                let k = r.range(-5, 5) as i128;
                (num(k), vec![], k)
            }
            1 => {
                let (p, q) = (r.range(-3, 3) as i128, r.range(0, 3) as i128);
                (app("*", &[num(p), num(q)]), vec![], p * q)
            }
            2 | 3 => {
                let t = atom(r);
                (t.clone(), vec![(1, (t, false))], 0)
            }
            4 => {
                let t = atom(r);
                (app("-", &[num(1), t.clone()]), vec![(-1, (t, false))], 1)
            }
            5 => {
                let t = app("*", &[atom(r), atom(r)]);
                (t.clone(), vec![(1, (t, false))], 0)
            }
            _ => {
                let c = r.range(-4, 4) as i128;
                let l = (atom(r), r.chance(1, 3));
                let mut v = vec![num(c), ls(&l)];
                if r.chance(1, 4) {
                    v.reverse();
                }
                (app("*", &v), vec![(c, l)], 0)
            }
        };
    }
    match r.below(5) {
        0 | 1 => {
            let n = 2 + r.below(2);
            let mut v = vec![];
            let mut m = vec![];
            let mut k = 0;
            for _ in 0..n {
                let (t, x, c) = tree(r, depth - 1);
                v.push(t);
                m.extend(x);
                k += c;
            }
            (app("+", &v), m, k)
        }
        2 => {
            let (t, x, c) = tree(r, depth - 1);
            // (- c) with a numeral is a numeral, not an application
            (app("-", &[t]), x.into_iter().map(|(c, l)| (-c, l)).collect(), -c)
        }
        _ => {
            let n = 2 + r.below(2);
            let mut v = vec![];
            let mut m = vec![];
            let mut k = 0;
            for i in 0..n {
                let (t, x, c) = tree(r, depth - 1);
                v.push(t);
                let s = if i == 0 { 1 } else { -1 };
                m.extend(x.into_iter().map(|(c, l)| (s * c, l)));
                k += s * c;
            }
            (app("-", &v), m, k)
        }
    }
}
fn push(v: &mut [(i128, Lit)], k: &mut i128) {
    for (c, l) in v {
        if *c < 0 {
            *k -= *c;
            *c = -*c;
            l.1 = !l.1;
        }
    }
}
fn norm_sx(r: &mut Rng, v: &[(i128, Lit)], k: i128) -> Sx {
    let t: Vec<Sx> = v
        .iter()
        .map(|(c, l)| if *c == 1 && r.coin() { ls(l) } else { app("*", &[num(*c), ls(l)]) })
        .collect();
    let s = if t.len() == 1 { t[0].clone() } else { app("+", &t) };
    app(">=", &[s, num(k)])
}
fn normalize(r: &mut Rng, d: &Rc<Decls>) -> (Case, bool) {
    let dep = 1 + r.below(2);
    let ((lt, lm, lk), (rt, rm, rk)) = (tree(r, dep), tree(r, dep.min(1)));
    let mut v = lm;
    v.extend(rm.into_iter().map(|(c, l)| (-c, l)));
    let mut k = rk - lk;
    let op = *r.pick(&["=", ">=", "<=", ">", "<"]);
    let neg = |v: &[(i128, Lit)]| v.iter().map(|(c, l)| (-c, l.clone())).collect::<Vec<_>>();
    let mut must = !v.is_empty();
    let rhs = if op == "=" {
        push(&mut v, &mut k);
        let (mut v2, mut k2) = (neg(&v), -k);
        push(&mut v2, &mut k2);
        app("and", &[norm_sx(r, &v, k), norm_sx(r, &v2, k2)])
    } else {
        match op {
            ">" => k += 1,
            "<" => {
                v = neg(&v);
                k = 1 - k;
            }
            "<=" => {
                v = neg(&v);
                k = -k;
            }
            _ => {}
        }
        push(&mut v, &mut k);
        if r.chance(1, 8) {
            k += r.range(-1, 1) as i128;
            must = false;
        }
        norm_sx(r, &v, k)
    };
    if v.is_empty() {
        must = false;
    }
    let t = eq(&app(op, &[lt, rt]), &rhs);
    (Case::new(d, "cp", "cp_normalize", vec![], vec![t], vec![]), must)
}
/// is this an arithmetic term rather than a 0-1 literal?
fn composite(t: &Sx) -> bool {
    let mut t = t;
    if t.is_op("-") && t.args().len() == 2 && t.args()[0] == num(1) {
        t = &t.args()[1];
    }
    match t {
        Sx::A(x) => (is_num(x.trim_start_matches('-'))) && &**x != "0" && &**x != "1",
        Sx::L(_) => matches!(t.op(), Some(("+" | "-" | "*" | "div" | "mod" | "abs", _))),
    }
}
/// the listed finding: literals that are not 0-1 terms
fn class(c: &Case) -> Option<&'static str> {
    let bad = match c.rule.as_str() {
        "cp_literal" => c.args.iter().any(composite),
        "cp_division" | "cp_saturation" => c.prems.iter().flatten().filter(|t| t.is_op(">=")).any(|t| {
            let s = &t.args()[0];
            let ts = if s.is_op("+") { s.args() } else { std::slice::from_ref(s) };
            ts.iter().filter(|m| m.is_op("*")).any(|m| m.args().last().map_or(false, composite))
        }),
        _ => false,
    };
    if bad {
        Some("literal:composite")
    } else {
        None
    }
}
fn corrupt(r: &mut Rng, c: &Case) -> Option<Case> {
    let mut m = c.clone();
    let np = m.prems.len();
    let which = r.below(np + 2);
    let slot: &mut Sx = if which < np {
        m.prems[which].first_mut()?
    } else if which == np || m.args.is_empty() {
        m.concl.first_mut()?
    } else {
        m.args.first_mut()?
    };
    let ps = slot.paths();
    let p = &ps[r.below(ps.len())];
    let new = match slot.at(p) {
        Sx::A(x) if is_num(x) => {
            let n: i128 = x.parse().ok()?;
            num(*r.pick(&[n + 1, n - 1, -n, n + 2, 0, n * 2]))
        }
        Sx::A(x) if ["x", "~x", "y", "z", "w"].contains(&&**x) => atom(r),
        Sx::A(x) if [">=", "<=", ">", "<", "="].contains(&&**x) => a(*r.pick(&[">=", "<=", ">", "<", "="])),
        Sx::L(v) if v.len() >= 3 && r.coin() => {
            let mut w = v.to_vec();
            match r.below(3) {
                0 => {
                    w.remove(1 + r.below(v.len() - 1));
                }
                1 => {
                    let x = w[1 + r.below(v.len() - 1)].clone();
                    w.push(x);
                }
                _ => {
                    let (i, j) = (1 + r.below(v.len() - 1), 1 + r.below(v.len() - 1));
                    w.swap(i, j);
                }
            }
            l(w)
        }
        t => match r.below(3) {
            0 => app("-", &[num(1), t.clone()]),
            1 => app("*", &[num(r.range(-2, 3) as i128), t.clone()]),
            _ => app("-", &[t.clone()]),
        },
    };
    *slot = slot.replace(p, &new);
    Some(m)
}
fn step(r: &mut Rng, rep: &mut Report, c: &Case, must: bool, k: &Knobs) {
    if must {
        drive(c, r, rep, k, SIBS, class, true);
    } else {
        judge(c, r, rep, k, class);
    }
    let mut cur = c.clone();
    for _ in 0..6 {
        if r.chance(2, 3) {
            cur = c.clone();
        }
        if let Some(m) = corrupt(r, &cur) {
            judge(&m, r, rep, k, class);
            cur = m;
        }
    }
}
pub fn run(c: &mut Ctx) {
    let d = Rc::new(decls());
    let n = c.iters(6000);
    let mut r = c.rng.clone();
    if c.worker == 0 {
        let mut k = Case::new(&d, "known", "cp_literal", vec![], vec![parse("(>= (- 1 5) 0)")], vec![parse("(- 1 5)")]);
        k.bits = true;
        if k.run().accepted() {
            c.rep.known.insert("unsound:literal:composite".into(), "cp_literal accepts (>= (- 1 5) 0)".into());
        }
    }
    for _ in 0..n {
        if c.late() {
            break;
        }
        let k = Knobs { mutants: if r.chance(1, 4) { 2 } else { 0 }, tries: 4 };
        let (mut x, must) = instance(&mut r, &d);
        x.bits = true;
        step(&mut r, &mut c.rep, &x, must, &k);
    }
}
