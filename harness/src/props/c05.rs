//! Equality rules: reflexivity, symmetry, transitivity, congruence.
use super::Ctx;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

const SIBS: &[&str] = &[
    "eq_reflexive", "refl", "eq_transitive", "trans", "eq_congruent", "eq_congruent_pred", "cong", "ho_cong", "symm",
    "not_symm", "eq_symmetric",
];
fn world5() -> World {
    let mut w = world();
    let mut d = (*w.d).clone();
    let u = w.u.clone();
    d.fun("f2", &[u.clone()], u.clone());
    d.fun("f3", &[u.clone()], u.clone());
    d.fun("gg", &[u.clone(), u.clone()], u.clone());
    d.fun("PP", &[u.clone()], St::Bool);
    d.fun("bv1", &[], St::Bv(4));
    d.fun("bv2", &[], St::Bv(4));
    d.fun("bv3", &[], St::Bv(4));
    w.d = Rc::new(d);
    w
}
fn oeq(r: &mut Rng, x: &Sx, y: &Sx) -> Sx {
    if r.coin() {
        eq(x, y)
    } else {
        eq(y, x)
    }
}
/// distinct terms of one sort
fn distinct(r: &mut Rng, w: &World, n: usize) -> Vec<Sx> {
    let s = w.sort(r);
    let mut v: Vec<Sx> = vec![];
    let mut k = 0;
    while v.len() < n {
        k += 1;
        let d = if k < 10 && r.chance(2, 3) { 0 } else { 1 + r.below(2) };
        let t = w.t(r, &s, d);
        if !v.contains(&t) {
            v.push(t);
        }
        if k > 200 {
            break;
        }
    }
    v
}
fn chain(r: &mut Rng, w: &World) -> Option<Case> {
    let n = match r.below(6) {
        0 => 6 + r.below(20),
        _ => 2 + r.below(4),
    };
    let v = distinct(r, w, n + 1);
    if v.len() < 3 {
        return None;
    }
    let mut e: Vec<Sx> = v.windows(2).map(|p| oeq(r, &p[0], &p[1])).collect();
    match r.below(3) {
        0 => {}
        1 => e.reverse(),
        _ => r.shuffle(&mut e),
    }
    let c = oeq(r, &v[0], v.last().unwrap());
    Some(if r.coin() {
        if r.chance(1, 12) {
            e.truncate(1);
            let c = match e[0].args() {
                [x, y] => oeq(r, x, y),
                _ => return None,
            };
            return Some(Case::new(&w.d, "single", "trans", vec![vec![e[0].clone()]], vec![c], vec![]));
        }
        Case::new(&w.d, "chain", "trans", e.into_iter().map(|x| vec![x]).collect(), vec![c], vec![])
    } else {
        let mut cl: Vec<Sx> = e.iter().map(not).collect();
        cl.push(c);
        Case::new(&w.d, "chain", "eq_transitive", vec![], cl, vec![])
    })
}
/// (head, argument sorts) of an application; `pred` when Boolean
fn head(r: &mut Rng, w: &World, pred: bool) -> (Sx, Vec<St>) {
    let u = &w.u;
    if pred {
        let n = 2 + r.below(3);
        let s = w.sort(r);
        match r.below(10) {
            0 => (a("P"), vec![u.clone()]),
            1 => (a("R"), vec![u.clone(), u.clone()]),
            2 => (a("B"), vec![St::Bool, St::Bool]),
            3 => (a("N"), vec![St::Int]),
            4 => (a(*r.pick(&["<", "<=", ">", ">="])), vec![St::Int; 2]),
            5 => (a(*r.pick(&["and", "or"])), vec![St::Bool; n]),
            6 => (a(*r.pick(&["=>", "xor"])), vec![St::Bool; 2]),
            7 => (a("not"), vec![St::Bool]),
            8 => (a("="), vec![s; 2]),
            _ => (a("distinct"), vec![s; n]),
        }
    } else {
        let n = 2 + r.below(3);
        match r.below(10) {
            0 | 1 => (a("f"), vec![u.clone()]),
            2 | 3 => (a("g"), vec![u.clone(); 2]),
            4 => (a("g3"), vec![u.clone(); 3]),
            5 => (a("m"), vec![St::Bool]),
            6 => (a("o"), vec![St::Int; 2]),
            7 => (a(*r.pick(&["+", "*", "-"])), vec![St::Int; n]),
            8 => (a("ite"), vec![St::Bool, u.clone(), u.clone()]),
            _ => (a("e"), vec![St::Real]),
        }
    }
}
fn papp(h: &Sx, args: &[Sx]) -> Sx {
    l(std::iter::once(h.clone()).chain(args.iter().cloned()).collect())
}
fn congruent(r: &mut Rng, w: &World) -> Option<Case> {
    let pred = r.coin();
    let (h, ss) = head(r, w, pred);
    let mut ps = vec![];
    let (mut xs, mut ys) = (vec![], vec![]);
    for s in &ss {
        let d = r.below(2);
        let x = w.t(r, s, d);
        let y = if r.chance(1, 5) { x.clone() } else { w.t(r, s, d) };
        ps.push(not(&oeq(r, &x, &y)));
        xs.push(x);
        ys.push(y);
    }
    let (p, q) = (papp(&h, &xs), papp(&h, &ys));
    if pred {
        if r.coin() {
            ps.push(not(&p));
            ps.push(q);
        } else {
            // the positive literal first: it must not itself be a negation
            if p.is_op("not") {
                return None;
            }
            ps.push(p);
            ps.push(not(&q));
        }
        Some(Case::new(&w.d, "pred", "eq_congruent_pred", vec![], ps, vec![]))
    } else {
        ps.push(eq(&p, &q));
        Some(Case::new(&w.d, "fun", "eq_congruent", vec![], ps, vec![]))
    }
}
fn cong(r: &mut Rng, w: &World) -> Option<Case> {
    let pred = r.coin();
    let (h, ss) = match r.below(12) {
        0 => {
            let i = r.below(4);
            let j = r.below(i + 1);
            (f(&format!("(_ extract {} {})", i, j), &[]), vec![St::Bv(4)])
        }
        1 => (f(&format!("(_ {} {})", r.pick(&["zero_extend", "sign_extend"]), r.below(4)), &[]), vec![St::Bv(4)]),
        _ => head(r, w, pred),
    };
    let mut ps = vec![];
    let (mut xs, mut ys) = (vec![], vec![]);
    for s in &ss {
        if matches!(s, St::Fun(..)) {
            let fs = ["f", "f2", "f3"];
            xs.push(a(*r.pick(&fs)));
            ys.push(a(*r.pick(&fs)));
        } else {
            let d = r.below(2);
            let x = w.t(r, s, d);
            let y = if r.chance(2, 5) { x.clone() } else { w.t(r, s, d) };
            xs.push(x);
            ys.push(y);
        }
    }
    for (x, y) in xs.iter().zip(&ys) {
        if x != y || r.chance(1, 4) {
            ps.push(vec![oeq(r, x, y)]);
        }
    }
    if ps.is_empty() {
        return None;
    }
    let mut p = papp(&h, &xs);
    let mut q = papp(&h, &ys);
    if h.atom() == Some("=") {
        if r.chance(1, 3) {
            p = eq(&xs[1], &xs[0]);
        }
        if r.chance(1, 3) {
            q = eq(&ys[1], &ys[0]);
        }
    }
    Some(Case::new(&w.d, "prem", "cong", ps, vec![eq(&p, &q)], vec![]))
}
fn ho_cong(r: &mut Rng, w: &World) -> Option<Case> {
    let (fs, n): (&[&str], usize) = match r.below(4) {
        0 => (&["g", "gg"], 2),
        1 => (&["P", "PP"], 1),
        _ => (&["f", "f2", "f3"], 1),
    };
    let (h1, h2) = (a(*r.pick(fs)), a(*r.pick(fs)));
    let mut ps = vec![];
    if h1 != h2 || r.chance(1, 4) {
        ps.push(vec![oeq(r, &h1, &h2)]);
    }
    let (mut xs, mut ys) = (vec![], vec![]);
    for _ in 0..n {
        let d = r.below(2);
        let x = w.t(r, &w.u, d);
        let y = if r.chance(2, 5) { x.clone() } else { w.t(r, &w.u, d) };
        if x != y || r.chance(1, 4) {
            ps.push(vec![oeq(r, &x, &y)]);
        }
        xs.push(x);
        ys.push(y);
    }
    if ps.is_empty() {
        return None;
    }
    Some(Case::new(&w.d, "ho", "ho_cong", ps, vec![eq(&papp(&h1, &xs), &papp(&h2, &ys))], vec![]))
}
pub fn gen(r: &mut Rng, w: &World) -> Option<Case> {
    match r.below(12) {
        0 => {
            let s = w.sort(r);
            let t = w.t(r, &s, 2);
            Some(Case::new(&w.d, "id", *r.pick(&["eq_reflexive", "refl"]), vec![], vec![eq(&t, &t)], vec![]))
        }
        1 => {
            let t = w.b(r, 3);
            let t2 = crate::alpha::rename(&t, r, &mut 0);
            Some(Case::new(&w.d, "alpha", "refl", vec![], vec![eq(&t, &t2)], vec![]))
        }
        2 => {
            let s = w.sort(r);
            let d = r.below(3);
            let (x, y) = (w.t(r, &s, d), w.t(r, &s, d));
            Some(match r.below(3) {
                0 => Case::new(&w.d, "symm", "symm", vec![vec![eq(&x, &y)]], vec![eq(&y, &x)], vec![]),
                1 => Case::new(&w.d, "symm", "not_symm", vec![vec![not(&eq(&x, &y))]], vec![not(&eq(&y, &x))], vec![]),
                _ => Case::new(&w.d, "symm", "eq_symmetric", vec![], vec![eq(&eq(&x, &y), &eq(&y, &x))], vec![]),
            })
        }
        3..=5 => chain(r, w),
        6 | 7 => congruent(r, w),
        8..=10 => cong(r, w),
        _ => ho_cong(r, w),
    }
}
/// indexed operators with different indices but equal sorts: never congruent
fn near(r: &mut Rng, w: &World) -> Option<Case> {
    let (i, j) = (r.below(4), r.below(4));
    let n = r.below(4 - i.max(j)) ;
    let (h1, h2) = match r.below(4) {
        0 => (format!("(_ extract {} {})", i + n, i), format!("(_ extract {} {})", j + n, j)),
        1 => (format!("(_ rotate_left {i})"), format!("(_ rotate_{} {j})", r.pick(&["left", "right"]))),
        2 => (format!("(_ @bit_of {i})"), format!("(_ @bit_of {j})")),
        _ => (format!("(_ zero_extend {i})"), format!("(_ sign_extend {i})")),
    };
    let (x, y) = (a(*r.pick(&["bv1", "bv2"])), a(*r.pick(&["bv2", "bv3"])));
    let c = eq(&papp(&f(&h1, &[]), &[x.clone()]), &papp(&f(&h2, &[]), &[y.clone()]));
    Some(Case::new(&w.d, "indexed", "cong", vec![vec![oeq(r, &x, &y)]], vec![c], vec![]))
}
pub fn run(c: &mut Ctx) {
    let w = world5();
    let n = c.iters(6500);
    let k = Knobs { mutants: 6, tries: 30 };
    for _ in 0..n {
        if c.late() {
            break;
        }
        if c.rng.chance(1, 25) {
            if let Some(case) = near(&mut c.rng, &w) {
                
drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, no_class, false);
            }
        }
        if let Some(case) = gen(&mut c.rng, &w) {
            drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, no_class, true);
        }
    }
}
