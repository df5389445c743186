//! Linear and polynomial arithmetic rules.
use super::Ctx;
use crate::engine::*;
use crate::eval::Q;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::collections::BTreeMap;
use std::rc::Rc;

const SIBS: &[&str] = &[
    "la_generic", "la_disequality", "la_totality", "la_tautology", "la_rw_eq", "la_mult_pos", "la_mult_neg", "poly_simp",
    "poly_simp_rel",
];
pub fn world4() -> World {
    let mut w = world();
    let mut d = (*w.d).clone();
    for n in [1usize, 2, 3, 8, 32, 64] {
        for v in ["bx", "by", "bz"] {
            d.fun(&format!("{v}{n}"), &[], St::Bv(n));
        }
    }
    w.d = Rc::new(d);
    w
}
/// rendering of a rational constant of the sort
pub fn num(r: &mut Rng, q: Q, s: &St) -> Sx {
    let n = q.n.abs();
    let t = if *s == St::Int {
        assert!(q.is_int());
        int(n)
    } else if q.is_int() {
        if r.chance(1, 6) {
            f(&format!("(/ {}.0 {}.0)", n * 2, 2), &[])
        } else {
            a(&format!("{}.0", n))
        }
    } else if q.d == 2 && r.coin() {
        a(&format!("{}.5", n / 2))
    } else if q.d == 4 && r.coin() {
        a(&format!("{}.{}", n / 4, ["0", "25", "5", "75"][(n % 4) as usize]))
    } else {
        let t = f(&format!("(/ {}.0 {}.0)", n, q.d), &[]);
        if q.n < 0 && r.coin() {
            return f(&format!("(/ (- {}.0) {}.0)", n, q.d), &[]);
        }
        t
    };
    if q.n < 0 {
        app("-", &[t])
    } else {
        t
    }
}
type Vec1 = BTreeMap<Sx, Q>;
/// renders a linear combination plus constant as a (randomly shaped) term
fn render(r: &mut Rng, v: &Vec1, k: Q, s: &St) -> Sx {
    let mut parts: Vec<(Sx, bool)> = vec![];
    for (x, c) in v {
        if c.n == 0 {
            continue;
        }
        let (c1, neg) = if c.n < 0 && r.coin() { (c.neg(), true) } else { (*c, false) };
        let t = if c1 == Q::int(1) && r.chance(4, 5) {
            x.clone()
        } else if c1 == Q::int(-1) && r.coin() {
            app("-", &[x.clone()])
        } else {
            let n = num(r, c1, s);
            if r.coin() {
                app("*", &[n, x.clone()])
            } else {
                app("*", &[x.clone(), n])
            }
        };
        parts.push((t, neg));
    }
    if k.n != 0 || parts.is_empty() {
        let (k1, neg) = if k.n < 0 && r.coin() { (k.neg(), true) } else { (k, false) };
        parts.push((num(r, k1, s), neg));
    }
    r.shuffle(&mut parts);
    // fold
    let mut acc: Option<Sx> = None;
    let mut i = 0;
    while i < parts.len() {
        let (t, neg) = parts[i].clone();
        acc = Some(match acc {
            None => {
                if neg {
                    app("-", &[t])
                } else {
                    t
                }
            }
            Some(x) => {
                if neg {
                    app("-", &[x, t])
                } else if i + 1 < parts.len() && !parts[i + 1].1 && r.coin() {
                    i += 1;
                    app("+", &[x, t, parts[i].0.clone()])
                } else if r.chance(1, 4) {
                    app("+", &[t, x])
                } else if r.chance(1, 8) {
                    app("-", &[x, app("-", &[t])])
                } else {
                    app("+", &[x, t])
                }
            }
        });
        i += 1;
    }
    acc.unwrap()
}
fn split(r: &mut Rng, v: &Vec1, d: Q) -> (Vec1, Q, Vec1, Q) {
    // L >= d  as  left + kl >= right + kr
    let (mut l, mut rt) = (Vec1::new(), Vec1::new());
    for (x, c) in v {
        match r.below(4) {
            0 => {
                rt.insert(x.clone(), c.neg());
            }
            1 => {
                let e = Q::int(r.range(-2, 2) as i128);
                l.insert(x.clone(), c.add(e).unwrap());
                rt.insert(x.clone(), e);
            }
            _ => {
                l.insert(x.clone(), *c);
            }
        }
    }
    let e = if r.coin() { Q::int(0) } else { Q::int(r.range(-4, 4) as i128) };
    (l, e, rt, d.add(e).unwrap())
}
/// op: 0 >=, 1 >, 2 =  (the constraint L op d); returns the literal that is its negation
fn literal(r: &mut Rng, v: &Vec1, d: Q, op: u8, s: &St) -> (Sx, bool) {
    let (l, kl, rt, kr) = split(r, v, d);
    let x = render(r, &l, kl, s);
    let y = render(r, &rt, kr, s);
    let (p, q) = (&x, &y);
    let flip = op == 2 && r.coin();
    let t = match op {
        2 => not(&if flip { eq(q, p) } else { eq(p, q) }),
        0 => match r.below(4) {
            0 => not(&app(">=", &[x, y])),
            1 => not(&app("<=", &[y, x])),
            2 => app("<", &[x, y]),
            _ => app(">", &[y, x]),
        },
        _ => match r.below(4) {
            0 => not(&app(">", &[x, y])),
            1 => not(&app("<", &[y, x])),
            2 => app("<=", &[x, y]),
            _ => app(">=", &[y, x]),
        },
    };
    (t, flip)
}
fn la_generic(r: &mut Rng, w: &World) -> Option<Case> {
    let s = if r.coin() { St::Int } else { St::Real };
    let int_s = s == St::Int;
    let mut atoms = w.d.consts(&s);
    if r.chance(1, 5) {
        atoms.push(w.t(r, &s, 1));
        atoms.push(if int_s { parse("(n x)") } else { parse("(to_real x)") });
        atoms.push(if int_s { parse("(* x y)") } else { parse("(e u)") });
        atoms.push(if int_s { parse("(div 7 2)") } else { parse("(/ u 0.0)") });
    }
    atoms.retain(|t| crate::lin::constant(t).is_none() && (t.atom().is_some() || !matches!(t.op().unwrap().0, "+" | "-" | "*") || t.to_string() == "(* x y)"));
    atoms.sort();
    atoms.dedup();
    r.shuffle(&mut atoms);
    atoms.truncate(1 + r.below(4));
    let n = 1 + r.below(5);
    let rc = |r: &mut Rng, int_only: bool| -> Q {
        if int_only || r.chance(2, 3) {
            Q::int(r.range(-4, 4) as i128)
        } else {
            Q::new(r.range(-7, 7) as i128, 1 + r.below(4) as i128).unwrap()
        }
    };
    let mut sum = Vec1::new();
    let mut sd = Q::int(0);
    let mut strict = false;
    let mut lits = vec![];
    let mut args = vec![];
    for _ in 0..n {
        let op = *r.pick(&[0u8, 0, 1, 1, 2]);
        let mut v = Vec1::new();
        for x in &atoms {
            if r.chance(2, 3) {
                let c = rc(r, int_s);
                if c.n != 0 {
                    v.insert(x.clone(), c);
                }
            }
        }
        let d = rc(r, int_s);
        let mut k = match r.below(6) {
            0 => Q::int(0),
            1 if !int_s => Q::new(1, 2).unwrap(),
            _ => Q::int(1 + r.below(3) as i128),
        };
        let mut shown = k;
        if op == 2 && r.coin() {
            k = k.neg();
        }
        if op == 2 {
            shown = k;
        }
        // effective bound after integer strengthening
        let eff = if int_s && op == 1 { d.add(Q::int(1)).unwrap() } else { d };
        if op == 1 && !int_s && k.n != 0 {
            strict = true;
        }
        for (x, c) in &v {
            let e = sum.entry(x.clone()).or_insert(Q::int(0));
            *e = e.add(c.mul(k)?)?;
        }
        sd = sd.add(eff.mul(k)?)?;
        let (t, flip) = literal(r, &v, d, op, &s);
        lits.push(t);
        if flip {
            shown = shown.neg();
        }
        if op != 2 && r.chance(1, 5) {
            shown = shown.neg(); // the sign of the coefficient of an inequality is irrelevant
        }
        args.push(num(r, shown, if shown.is_int() { &St::Int } else { &St::Real }));
    }
    // the last constraint cancels the sum
    sum.retain(|_, c| c.n != 0);
    for c in sum.values_mut() {
        *c = c.neg();
    }
    let op = *r.pick(&[0u8, 1, 2]);
    // need sd + d' > 0 (or = 0 with a strict one)
    let need = sd.neg();
    let slack = Q::int(r.below(3) as i128);
    let d = if int_s {
        if op == 1 {
            need.add(slack)? // d+1 > -sd
        } else {
            need.add(Q::int(1))?.add(slack)?
        }
    } else if strict || op == 1 {
        need.add(slack)?
    } else {
        need.add(Q::new(1, 2)?)?.add(slack)?
    };
    // an equality whose sum is negative is as contradictory, but only if everything is an equality
    let (t, flip) = literal(r, &sum, d, op, &s);
    lits.push(t);
    args.push(if flip { f("(- 1)", &[]) } else { int(1) });
    let mut ix: Vec<usize> = (0..lits.len()).collect();
    r.shuffle(&mut ix);
    let lits: Vec<Sx> = ix.iter().map(|&i| lits[i].clone()).collect();
    let args: Vec<Sx> = ix.iter().map(|&i| args[i].clone()).collect();
    Some(Case::new(&w.d, if int_s { "farkas-int" } else { "farkas-real" }, "la_generic", vec![], lits, args))
}
fn tautology(r: &mut Rng, w: &World) -> Option<Case> {
    let s = if r.coin() { St::Int } else { St::Real };
    if r.coin() {
        // first form
        let mut v = Vec1::new();
        for x in w.d.consts(&s) {
            if r.coin() {
                v.insert(x, Q::int(r.range(-3, 3) as i128));
            }
        }
        let op = r.below(2) as u8;
        // contradictory constraint: 0 >= d with d > 0, or 0 > d with d >= 0
        let d = Q::int(r.below(3) as i128 + if op == 0 { 1 } else { 0 });
        let k = Q::int(r.range(-4, 4) as i128);
        let x = render(r, &v, k, &s);
        let y = render(r, &v, k.add(d)?, &s);
        let t = match (op, r.below(4)) {
            (0, 0) => not(&app(">=", &[x, y])),
            (0, 1) => not(&app("<=", &[y, x])),
            (0, 2) => app("<", &[x, y]),
            (0, _) => app(">", &[y, x]),
            (_, 0) => not(&app(">", &[x, y])),
            (_, 1) => not(&app("<", &[y, x])),
            (_, 2) => app("<=", &[x, y]),
            _ => app(">=", &[y, x]),
        };
        return Some(Case::new(&w.d, "single", "la_tautology", vec![], vec![t], vec![]));
    }
    let t = w.t(r, &s, 1);
    let d1 = Q::int(r.range(-4, 4) as i128);
    let up = Q::int(r.below(3) as i128);
    let (c1, c2) = (num(r, d1, &s), num(r, d1.add(up)?, &s));
    let c3 = num(r, d1.add(up)?.add(Q::int(1))?, &s);
    if c1.is_op("/") || c2.is_op("/") || c3.is_op("/") || c1.to_string().contains('/') || c2.to_string().contains('/') || c3.to_string().contains('/') {
        return None;
    }
    let le = |x: &Sx, y: &Sx| app("<=", &[x.clone(), y.clone()]);
    let ge = |x: &Sx, y: &Sx| app(">=", &[x.clone(), y.clone()]);
    let (p, q) = match r.below(5) {
        0 => (not(&le(&t, &c1)), le(&t, &c2)),
        1 => (le(&t, &c1), not(&le(&t, &c1))),
        2 => (not(&ge(&t, &c2)), ge(&t, &c1)),
        3 => (ge(&t, &c1), not(&ge(&t, &c1))),
        _ => (not(&le(&t, &c1)), not(&ge(&t, &c3))),
    };
    Some(Case::new(&w.d, "bounds", "la_tautology", vec![], vec![app("or", &[p, q])], vec![]))
}
fn schema(r: &mut Rng, w: &World) -> Option<Case> {
    let s = if r.coin() { St::Int } else { St::Real };
    let d = r.below(3);
    let x = w.t(r, &s, d);
    let y = w.t(r, &s, d);
    let zero = if s == St::Int { a("0") } else { a("0.0") };
    Some(match r.below(5) {
        0 => Case::new(&w.d, "schema", "la_rw_eq", vec![], vec![f("(= (= ?0 ?1) (and (<= ?0 ?1) (<= ?1 ?0)))", &[&x, &y])], vec![]),
        1 => Case::new(&w.d, "schema", "la_disequality", vec![], vec![f("(or (= ?0 ?1) (not (<= ?0 ?1)) (not (<= ?1 ?0)))", &[&x, &y])], vec![]),
        2 => Case::new(&w.d, "schema", "la_totality", vec![], vec![f("(or (<= ?0 ?1) (<= ?1 ?0))", &[&x, &y])], vec![]),
        _ => {
            let m = if r.coin() {
                w.t(r, &s, 1)
            } else {
                let q = if s == St::Int { Q::int(r.range(-3, 3) as i128) } else { Q::new(r.range(-5, 5) as i128, 2)? };
                num(r, q, &s)
            };
            let pos = r.coin();
            let op = *r.pick(&["<", "<=", ">", ">=", "="]);
            let op2 = if pos {
                op
            } else {
                match op {
                    "<" => ">",
                    ">" => "<",
                    "<=" => ">=",
                    ">=" => "<=",
                    _ => "=",
                }
            };
            let cond = app(if pos { ">" } else { "<" }, &[m.clone(), zero]);
            let orig = app(op, &[x.clone(), y.clone()]);
            let sc = app(op2, &[app("*", &[m.clone(), x.clone()]), app("*", &[m.clone(), y.clone()])]);
            Case::new(
                &w.d,
                "schema",
                if pos { "la_mult_pos" } else { "la_mult_neg" },
                vec![],
                vec![app("=>", &[app("and", &[cond, orig]), sc])],
                vec![],
            )
        }
    })
}
// ---- polynomials
type Poly = BTreeMap<Vec<Sx>, Q>;
fn padd(x: &mut Poly, m: Vec<Sx>, c: Q) -> Option<()> {
    let e = x.entry(m).or_insert(Q::int(0));
    *e = e.add(c)?;
    Some(())
}
fn pmul(x: &Poly, y: &Poly) -> Option<Poly> {
    let mut o = Poly::new();
    for (m, c) in x {
        for (n, d) in y {
            let mut k = m.clone();
            k.extend(n.iter().cloned());
            k.sort();
            padd(&mut o, k, c.mul(*d)?)?;
        }
    }
    Some(o)
}
/// random polynomial expression: (term, normal form)
fn pexpr(r: &mut Rng, s: &St, atoms: &[Sx], depth: usize) -> Option<(Sx, Poly)> {
    let mut p = Poly::new();
    if depth == 0 || r.chance(1, 4) {
        if r.chance(1, 3) {
            return Some(match s {
                St::Bv(w) => {
                    let m = if *w >= 64 { u64::MAX } else { (1 << w) - 1 };
                    let v = match r.below(3) {
                        0 => m - r.below(3).min(m as usize) as u64,
                        _ => r.next() % 16 & m,
                    };
                    padd(&mut p, vec![], Q::int(v as i128))?;
                    let t = if w % 4 == 0 && r.coin() {
                        a(&format!("#x{:0w$x}", v, w = w / 4))
                    } else if r.coin() {
                        f(&format!("(_ bv{} {})", v, w), &[])
                    } else {
                        a(&format!("#b{:0w$b}", v, w = w))
                    };
                    (t, p)
                }
                _ => {
                    let q = if *s == St::Int || r.coin() {
                        Q::int(r.range(-5, 5) as i128)
                    } else {
                        Q::new(r.range(-5, 5) as i128, 1 + r.below(4) as i128)?
                    };
                    padd(&mut p, vec![], q)?;
                    (num(r, q, s), p)
                }
            });
        }
        let x = r.pick(atoms).clone();
        padd(&mut p, vec![x.clone()], Q::int(1))?;
        return Some((x, p));
    }
    let bv = matches!(s, St::Bv(_));
    let n = if r.chance(1, 3) { 3 } else { 2 };
    match r.below(if *s == St::Real { 8 } else { 7 }) {
        0..=2 => {
            let mut ts = vec![];
            for _ in 0..n {
                let (t, q) = pexpr(r, s, atoms, depth - 1)?;
                for (m, c) in q {
                    padd(&mut p, m, c)?;
                }
                ts.push(t);
            }
            Some((app(if bv { "bvadd" } else { "+" }, &ts), p))
        }
        3 | 4 => {
            let (t, mut q) = pexpr(r, s, atoms, depth - 1)?;
            let mut ts = vec![t];
            for _ in 1..n {
                let (t, o) = pexpr(r, s, atoms, depth - 1)?;
                q = pmul(&q, &o)?;
                ts.push(t);
            }
            Some((app(if bv { "bvmul" } else { "*" }, &ts), q))
        }
        5 => {
            let (x, q) = pexpr(r, s, atoms, depth - 1)?;
            let (y, o) = pexpr(r, s, atoms, depth - 1)?;
            p = q;
            for (m, c) in o {
                padd(&mut p, m, c.neg())?;
            }
            Some((app(if bv { "bvsub" } else { "-" }, &[x, y]), p))
        }
        6 => {
            let (x, q) = pexpr(r, s, atoms, depth - 1)?;
            for (m, c) in q {
                padd(&mut p, m, c.neg())?;
            }
            Some((app(if bv { "bvneg" } else { "-" }, &[x]), p))
        }
        _ => {
            let (x, q) = pexpr(r, s, atoms, depth - 1)?;
            let k = Q::new(*r.pick(&[-3i128, -2, 2, 3, 5]), *r.pick(&[1i128, 2]))?;
            let i = Q::new(k.d, k.n)?;
            for (m, c) in q {
                padd(&mut p, m, c.mul(i)?)?;
            }
            Some((app("/", &[x, num(r, k, s)]), p))
        }
    }
}
fn prender(r: &mut Rng, p: &Poly, s: &St) -> Option<Sx> {
    let bv = matches!(s, St::Bv(_));
    let mut parts = vec![];
    for (m, c) in p {
        let c = if let St::Bv(w) = s { Q::int(c.n.rem_euclid(1i128 << (*w).min(100))) } else { *c };
        if c.n == 0 {
            continue;
        }
        if c.n.abs() > 1 << 90 {
            return None;
        }
        let mut fs = m.clone();
        r.shuffle(&mut fs);
        if c != Q::int(1) || fs.is_empty() {
            let k = match s {
                St::Bv(w) => f(&format!("(_ bv{} {})", c.n, w), &[]),
                _ => num(r, c, s),
            };
            let i = r.below(fs.len() + 1);
            fs.insert(i, k);
        }
        parts.push(if fs.len() == 1 { fs.pop().unwrap() } else { app(if bv { "bvmul" } else { "*" }, &fs) });
    }
    r.shuffle(&mut parts);
    if parts.is_empty() {
        return Some(match s {
            St::Bv(w) => f(&format!("(_ bv0 {})", w), &[]),
            _ => num(r, Q::int(0), s),
        });
    }
    Some(if parts.len() == 1 { parts.pop().unwrap() } else { app(if bv { "bvadd" } else { "+" }, &parts) })
}
fn psort(r: &mut Rng) -> St {
    match r.below(6) {
        0 | 1 => St::Int,
        2 | 3 => St::Real,
        _ => St::Bv(*r.pick(&[1usize, 2, 3, 8, 32, 64])),
    }
}
fn patoms(r: &mut Rng, w: &World, s: &St) -> Vec<Sx> {
    let mut v = w.d.consts(s);
    match s {
        St::Int => {
            v.push(parse("(n x)"));
            if r.chance(1, 3) {
                v.push(parse(*r.pick(&["(div 7 2)", "(div x 2)", "(mod x 3)", "(div x 0)"])));
            }
        }
        St::Real => {
            v.push(parse("(e u)"));
            if r.chance(1, 3) {
                v.push(parse("(/ u 0.0)"));
            }
        }
        St::Bv(n) => v.push(f(&format!("(bvand bx{} by{})", n, n), &[])),
        _ => {}
    }
    r.shuffle(&mut v);
    v.truncate(1 + r.below(3));
    v
}
fn poly(r: &mut Rng, w: &World) -> Option<Case> {
    let s = psort(r);
    let at = patoms(r, w, &s);
    let d = 1 + r.below(3);
    let (t, p) = pexpr(r, &s, &at, d)?;
    let u = prender(r, &p, &s)?;
    let rule = if matches!(s, St::Bv(_)) && r.coin() { "bv_poly_simp" } else { "poly_simp" };
    let tag = match s {
        St::Int => "int",
        St::Real => "real",
        _ => "bv",
    };
    let t = if s == St::Real && r.chance(1, 8) { app("to_real", &[parse("(+ x (* 2 y))")]) } else { t };
    if t.is_op("to_real") {
        return Some(Case::new(&w.d, "to_real", rule, vec![], vec![eq(&t, &parse("(+ (to_real x) (* 2.0 (to_real y)))"))], vec![]));
    }
    Some(Case::new(&w.d, tag, rule, vec![], vec![if r.coin() { eq(&t, &u) } else { eq(&u, &t) }], vec![]))
}
fn poly_rel(r: &mut Rng, w: &World) -> Option<Case> {
    let s = psort(r);
    let at = patoms(r, w, &s);
    let d = r.below(2);
    let (x1, _) = pexpr(r, &s, &at, d)?;
    let (x2, _) = pexpr(r, &s, &at, d)?;
    if let St::Bv(n) = s {
        let m = if n >= 64 { u64::MAX } else { (1 << n) - 1 };
        let k = (r.next() & m) | 1;
        let j = (r.next() & m) | 1;
        let c = |v: u64| f(&format!("(_ bv{} {})", v & m, n), &[]);
        let (c1, c2) = (c(k.wrapping_mul(j)), c(j));
        // y = k * x
        let y1 = app("bvmul", &[c(k), x1.clone()]);
        let y2 = app("bvmul", &[c(k), x2.clone()]);
        let prem = eq(
            &app("bvmul", &[c1, app("bvsub", &[x1.clone(), x2.clone()])]),
            &app("bvmul", &[c2, app("bvsub", &[y1.clone(), y2.clone()])]),
        );
        let rule = *r.pick(&["poly_simp_rel", "bv_poly_simp_eq"]);
        return Some(Case::new(&w.d, "bv", rule, vec![vec![prem]], vec![eq(&eq(&x1, &x2), &eq(&y1, &y2))], vec![]));
    }
    let rq = |r: &mut Rng| -> Option<Q> {
        let n = *r.pick(&[-3i128, -2, -1, 1, 2, 3]);
        if s == St::Int {
            Some(Q::int(n))
        } else {
            Q::new(n, 1 + r.below(3) as i128)
        }
    };
    let op = *r.pick(&["<", "<=", ">", ">=", "="]);
    let mut k = rq(r)?;
    if op != "=" && k.n < 0 {
        k = k.neg();
    }
    let j = rq(r)?;
    let (c1, c2) = (num(r, k.mul(j)?, &s), num(r, j, &s));
    let kk = num(r, k, &s);
    let y1 = app("*", &[kk.clone(), x1.clone()]);
    let y2 = app("*", &[kk, x2.clone()]);
    let prem = eq(
        &app("*", &[c1, app("-", &[x1.clone(), x2.clone()])]),
        &app("*", &[c2, app("-", &[y1.clone(), y2.clone()])]),
    );
    Some(Case::new(&w.d, "arith", "poly_simp_rel", vec![vec![prem]], vec![eq(&app(op, &[x1, x2]), &app(op, &[y1, y2]))], vec![]))
}
pub fn gen(r: &mut Rng, w: &World) -> Option<Case> {
    match r.below(12) {
        0..=4 => la_generic(r, w),
        5 => tautology(r, w),
        6 | 7 => schema(r, w),
        8..=10 => poly(r, w),
        _ => poly_rel(r, w),
    }
}
pub fn run(c: &mut Ctx) {
    let w = world4();
    let n = c.iters(3500);
    let k = Knobs { mutants: 8, tries: 30 };
    for _ in 0..n {
        if c.late() {
            break;
        }
        if let Some(case) = gen(&mut c.rng, &w) {
            drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, no_class, true);
        }
    }
}
