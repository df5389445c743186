//! Boolean and pseudo-Boolean bit-blasting.
use super::Ctx;
use crate::engine::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

const SIBS: &[&str] = &[
    "bitblast_and", "bitblast_or", "bitblast_xor", "bitblast_var", "bitblast_ult", "bitblast_slt", "bitblast_add", "bitblast_mult",
    "bitblast_equal", "bitblast_comp", "pbblast_bveq", "pbblast_bvult", "pbblast_bvugt", "pbblast_bvuge", "pbblast_bvule",
    "pbblast_bvslt", "pbblast_bvsgt", "pbblast_bvsge", "pbblast_bvsle", "pbblast_bvxor", "pbblast_bvand", "pbblast_bvxor_ith_bit",
    "pbblast_bvand_ith_bit", "pbblast_pbbvar", "pbblast_pbbconst",
];
fn decls() -> Decls {
    let mut d = Decls::new();
    for w in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 33, 48, 63, 64, 65] {
        for n in ["x", "y", "z"] {
            d.fun(&format!("{n}{w}"), &[], St::Bv(w));
        }
    }
    for i in 0..6 {
        d.fun(&format!("p{i}"), &[], St::Bool);
    }
    for i in 0..6 {
        d.fun(&format!("k{i}"), &[], St::Int);
    }
    d.fun("z", &[], St::Int);
    d
}
fn lit(w: usize, v: u128) -> Sx {
    let mut s = String::from("#b");
    for i in (0..w).rev() {
        s.push(if v >> i & 1 == 1 { '1' } else { '0' });
    }
    a(&s)
}
fn val(r: &mut Rng, w: usize) -> u128 {
    let x = ((r.next() as u128) << 64) | r.next() as u128;
    let m = if w >= 128 { u128::MAX } else { (1 << w) - 1 };
    (match r.below(5) {
        0 => 0,
        1 => m,
        2 => 1 << r.below(w.min(127)),
        _ => x,
    }) & m
}
fn boolt(r: &mut Rng) -> Sx {
    match r.below(8) {
        0 => tt(),
        1 => ff(),
        2 => not(&a(&format!("p{}", r.below(6)))),
        3 => app("and", &[a(&format!("p{}", r.below(6))), a(&format!("p{}", r.below(6)))]),
        4 => app("xor", &[a(&format!("p{}", r.below(6))), a(&format!("p{}", r.below(6)))]),
        _ => a(&format!("p{}", r.below(6))),
    }
}
/// a bit-vector term of width w; `pb` = pseudo-Boolean world
fn bv(r: &mut Rng, w: usize, pb: Option<bool>) -> Sx {
    // pb: None = Boolean world (bbterm allowed), Some(true) = must be @pbbterm, Some(false) = must not
    if pb == Some(true) {
        let mut v = vec![];
        for _ in 0..w {
            v.push(match r.below(8) {
                0 => int(r.below(2) as i128),
                1 => f("((_ @int_of ?0) ?1)", &[&int(0), &a("y2")]),
                2 if r.chance(1, 3) => a("z"),
                _ => a(&format!("k{}", r.below(6))),
            });
        }
        return app("@pbbterm", &v);
    }
    let var = a(&format!("{}{}", r.pick(&["x", "y", "z"]), w));
    match r.below(10) {
        0 | 1 | 2 if pb.is_none() => {
            let v: Vec<Sx> = (0..w).map(|_| boolt(r)).collect();
            app("@bbterm", &v)
        }
        3 => lit(w, val(r, w)),
        4 => app("bvnot", &[var]),
        5 => app("bvadd", &[var.clone(), var]),
        _ => var,
    }
}
fn bits(t: &Sx, w: usize) -> Vec<Sx> {
    if t.is_op("@bbterm") || t.is_op("@pbbterm") {
        return t.args().to_vec();
    }
    (0..w).map(|i| f("((_ @bit_of ?0) ?1)", &[&int(i as i128), t])).collect()
}
fn ibits(t: &Sx, w: usize) -> Vec<Sx> {
    if t.is_op("@bbterm") || t.is_op("@pbbterm") {
        return t.args().to_vec();
    }
    (0..w).map(|i| f("((_ @int_of ?0) ?1)", &[&int(i as i128), t])).collect()
}
fn adder(x: &[Sx], y: &[Sx], c0: Sx) -> Vec<Sx> {
    let mut c = c0;
    let mut o = vec![];
    for i in 0..x.len() {
        let s = app("xor", &[app("xor", &[x[i].clone(), y[i].clone()]), c.clone()]);
        c = app(
            "or",
            &[
                app("and", &[x[i].clone(), y[i].clone()]),
                app("and", &[app("xor", &[x[i].clone(), y[i].clone()]), c]),
            ],
        );
        o.push(s);
    }
    o
}
fn mult(x: &[Sx], y: &[Sx]) -> Vec<Sx> {
    let n = x.len();
    let sh = |j: usize, i: usize| if j <= i { app("and", &[y[j].clone(), x[i - j].clone()]) } else { ff() };
    let mut res: Vec<Sx> = (0..n).map(|i| sh(0, i)).collect();
    for j in 1..n {
        let prev = res.clone();
        // positions j.. get an addition of the shifted row
        let mut c = ff();
        for i in j..n {
            res[i] = app("xor", &[app("xor", &[prev[i].clone(), sh(j, i)]), c.clone()]);
            c = app(
                "or",
                &[
                    app("and", &[prev[i].clone(), sh(j, i)]),
                    app("and", &[app("xor", &[prev[i].clone(), sh(j, i)]), c]),
                ],
            );
        }
    }
    res
}
fn widths(r: &mut Rng, big: bool) -> usize {
    match r.below(12) {
        0 if big => *r.pick(&[16, 31, 32, 33, 48, 63, 64, 65]),
        1 | 2 if big => *r.pick(&[5, 6, 7, 8, 9]),
        3 | 4 => 1,
        5 | 6 => 2,
        7 | 8 => 3,
        9 => 5,
        _ => 4,
    }
}
fn zipm(op: &str, x: &[Sx], y: &[Sx]) -> Vec<Sx> {
    x.iter().zip(y).map(|(p, q)| app(op, &[p.clone(), q.clone()])).collect()
}
fn lt(x: &[Sx], y: &[Sx]) -> Sx {
    let mut e = app("and", &[not(&x[0]), y[0].clone()]);
    for i in 1..x.len() {
        e = app(
            "or",
            &[
                app("and", &[eq(&x[i], &y[i]), e]),
                app("and", &[not(&x[i]), y[i].clone()]),
            ],
        );
    }
    e
}
fn boolean(r: &mut Rng, d: &Rc<Decls>) -> Case {
    let bb = |v: Vec<Sx>| app("@bbterm", &v);
    let (rule, lhs, rhs): (&str, Sx, Sx) = match r.below(18) {
        0 => {
            let w = widths(r, true);
            let v = val(r, w);
            let t = if r.coin() && w < 60 { f("(_ ?0 ?1)", &[&a(&format!("bv{v}")), &int(w as i128)]) } else { lit(w, v) };
            ("bitblast_const", t, bb((0..w).map(|i| if v >> i & 1 == 1 { tt() } else { ff() }).collect()))
        }
        1 => {
            let w = widths(r, true);
            let x = bv(r, w, None);
            ("bitblast_var", x.clone(), bb(bits(&x, w)))
        }
        k @ 2..=5 => {
            let (rule, op, bop) = match k {
                2 | 5 => ("bitblast_and", "bvand", "and"),
                3 => ("bitblast_or", "bvor", "or"),
                _ => ("bitblast_xor", "bvxor", "xor"),
            };
            let w = widths(r, true);
            let n = 2 + if r.chance(1, 3) { r.below(4) } else { 0 };
            let xs: Vec<Sx> = (0..n).map(|_| bv(r, w, None)).collect();
            let mut acc = bits(&xs[0], w);
            for x in &xs[1..] {
                acc = zipm(bop, &acc, &bits(x, w));
            }
            (rule, app(op, &xs), bb(acc))
        }
        6 => {
            let w = widths(r, true);
            let (x, y) = (bv(r, w, None), bv(r, w, None));
            let z = zipm("=", &bits(&x, w), &bits(&y, w));
            ("bitblast_xnor", app("bvxnor", &[x, y]), bb(z))
        }
        7 => {
            let w = widths(r, true);
            let x = bv(r, w, None);
            let z = bits(&x, w).iter().map(not).collect();
            ("bitblast_not", app("bvnot", &[x]), bb(z))
        }
        8 | 9 => {
            let signed = r.chance(2, 3);
            let w = widths(r, true);
            let (x, y) = (bv(r, w, None), bv(r, w, None));
            let (xs, ys) = (bits(&x, w), bits(&y, w));
            if !signed {
                ("bitblast_ult", app("bvult", &[x, y]), lt(&xs, &ys))
            } else {
                let top = app("and", &[xs[w - 1].clone(), not(&ys[w - 1])]);
                let e = if w == 1 {
                    top
                } else {
                    app("or", &[app("and", &[eq(&xs[w - 1], &ys[w - 1]), lt(&xs[..w - 1], &ys[..w - 1])]), top])
                };
                ("bitblast_slt", app("bvslt", &[x, y]), e)
            }
        }
        10 => {
            let n = 2 + if r.chance(1, 3) { r.below(2) } else { 0 };
            let w = if n == 2 { 1 + r.below(9) } else { 1 + r.below(4) };
            let xs: Vec<Sx> = (0..n).map(|_| bv(r, w, None)).collect();
            let mut acc = bits(&xs[0], w);
            for x in &xs[1..] {
                acc = adder(&acc, &bits(x, w), ff());
            }
            ("bitblast_add", app("bvadd", &xs), bb(acc))
        }
        11 => {
            let n = 2 + if r.chance(1, 4) { 1 } else { 0 };
            let w = if n == 2 { 1 + r.below(5) } else { 1 + r.below(2) };
            let xs: Vec<Sx> = (0..n).map(|_| bv(r, w, None)).collect();
            let mut acc = bits(&xs[0], w);
            for x in &xs[1..] {
                acc = mult(&acc, &bits(x, w));
            }
            ("bitblast_mult", app("bvmul", &xs), bb(acc))
        }
        12 => {
            let w = 1 + r.below(9);
            let x = bv(r, w, None);
            let nx: Vec<Sx> = bits(&x, w).iter().map(not).collect();
            ("bitblast_neg", app("bvneg", &[x]), bb(adder(&nx, &vec![ff(); w], tt())))
        }
        k @ (13 | 14) => {
            let w = widths(r, true);
            let (x, y) = (bv(r, w, None), bv(r, w, None));
            let mut z = zipm("=", &bits(&x, w), &bits(&y, w));
            let e = if z.len() == 1 { z.remove(0) } else { app("and", &z) };
            if k == 13 {
                ("bitblast_equal", eq(&x, &y), e)
            } else {
                ("bitblast_comp", app("bvcomp", &[x, y]), bb(vec![e]))
            }
        }
        15 => {
            let w = widths(r, true);
            let x = bv(r, w, None);
            let j = r.below(w);
            let i = j + r.below(w - j);
            (
                "bitblast_extract",
                f("((_ extract ?0 ?1) ?2)", &[&int(i as i128), &int(j as i128), &x]),
                bb(bits(&x, w)[j..=i].to_vec()),
            )
        }
        16 => {
            let n = 2 + r.below(3);
            let mut xs = vec![];
            let mut o = vec![];
            for _ in 0..n {
                let w = widths(r, false);
                let x = bv(r, w, None);
                let mut b = bits(&x, w);
                b.extend(o);
                o = b;
                xs.push(x);
            }
            ("bitblast_concat", app("concat", &xs), bb(o))
        }
        _ => {
            let w = widths(r, true);
            let x = bv(r, w, None);
            let k = r.below(4);
            let mut b = bits(&x, w);
            let e = if k == 0 {
                x.clone()
            } else {
                for _ in 0..k {
                    b.push(b[w - 1].clone());
                }
                bb(b)
            };
            ("bitblast_sign_extend", f("((_ sign_extend ?0) ?1)", &[&int(k as i128), &x]), e)
        }
    };
    Case::new(d, "bool", rule, vec![], vec![eq(&lhs, &rhs)], vec![])
}
/// sum of the first n bits, weighted
fn sum(r: &mut Rng, b: &[Sx]) -> Sx {
    let omit = r.coin();
    let v: Vec<Sx> = b
        .iter()
        .enumerate()
        .map(|(i, x)| {
            if i == 0 && omit {
                x.clone()
            } else {
                app("*", &[int(1i128 << i), x.clone()])
            }
        })
        .collect();
    if v.len() == 1 {
        v[0].clone()
    } else {
        app("+", &v)
    }
}
fn choice_xor(x: &Sx, y: &Sx) -> Sx {
    f("(choice ((z Int)) (and (>= (+ ?0 ?1) z) (>= (+ z ?2) ?3) (>= (+ z ?4) ?5) (>= 2 (+ z ?6 ?7))))", &[x, y, x, y, y, x, x, y])
}
fn choice_and(x: &Sx, y: &Sx) -> Sx {
    f("(choice ((z Int)) (and (>= ?0 z) (>= ?1 z) (>= (+ z 1) (+ ?2 ?3))))", &[x, y, x, y])
}
fn captured(xs: &[Sx]) -> bool {
    xs.iter().any(|x| x.atom() == Some("z"))
}
/// (case, is it a true instance)
fn pseudo(r: &mut Rng, d: &Rc<Decls>) -> (Case, bool) {
    let pb = |v: Vec<Sx>| app("@pbbterm", &v);
    let mut must = true;
    let mut args = vec![];
    let (rule, t): (&str, Sx) = match r.below(13) {
        k @ 0..=4 => {
            let w = widths(r, true);
            let p = Some(r.coin());
            let (x, y) = (bv(r, w, p), bv(r, w, p));
            let (xs, ys) = (ibits(&x, w), ibits(&y, w));
            // deliberately partial sums, now and then
            let (m, n) = if r.chance(1, 6) { (1 + r.below(w), 1 + r.below(w)) } else { (w, w) };
            must = m == w && n == w;
            let (sx, sy) = (sum(r, &xs[..m]), sum(r, &ys[..n]));
            let mk = |op: &str, c: &str, p: &Sx, q: &Sx, k: i128| {
                eq(&app(op, &[x.clone(), y.clone()]), &app(c, &[app("-", &[p.clone(), q.clone()]), int(k)]))
            };
            match k {
                0 => ("pbblast_bveq", mk("=", "=", &sx, &sy, 0)),
                1 => ("pbblast_bvult", mk("bvult", ">=", &sy, &sx, 1)),
                2 => ("pbblast_bvugt", mk("bvugt", ">=", &sx, &sy, 1)),
                3 => ("pbblast_bvuge", mk("bvuge", ">=", &sx, &sy, 0)),
                _ => ("pbblast_bvule", mk("bvule", ">=", &sy, &sx, 0)),
            }
        }
        k @ 5..=8 => {
            let w = 1 + widths(r, true).min(63);
            let p = Some(r.coin());
            let (mut x, mut y) = (bv(r, w.min(9), p), bv(r, w.min(9), p));
            let w = w.min(9);
            let (mut xs, mut ys) = (ibits(&x, w), ibits(&y, w));
            let (m, n) = if r.chance(1, 6) { (1 + r.below(w), 1 + r.below(w)) } else { (w - 1, w - 1) };
            must = m == w - 1 && n == w - 1;
            let mut ww = w;
            if r.chance(1, 10) {
                // width one: no sum can be written
                x = bv(r, 1, p);
                y = bv(r, 1, p);
                xs = ibits(&x, 1);
                ys = ibits(&y, 1);
                ww = 1;
                must = false;
            }
            let (sx, sy) = (sum(r, &xs[..m.min(ww)]), sum(r, &ys[..n.min(ww)]));
            let sg = |b: &Sx| app("*", &[int(1 << (ww - 1)), b.clone()]);
            let mk = |op: &str, p: (&Sx, &Sx), q: (&Sx, &Sx), k: i128| {
                eq(
                    &app(op, &[x.clone(), y.clone()]),
                    &app(
                        ">=",
                        &[
                            app("+", &[app("-", &[p.0.clone(), sg(p.1)]), app("-", &[sg(q.1), q.0.clone()])]),
                            int(k),
                        ],
                    ),
                )
            };
            let (px, py) = ((&sx, &xs[ww - 1]), (&sy, &ys[ww - 1]));
            match k {
                5 => ("pbblast_bvslt", mk("bvslt", py, px, 1)),
                6 => ("pbblast_bvsgt", mk("bvsgt", px, py, 1)),
                7 => ("pbblast_bvsge", mk("bvsge", px, py, 0)),
                _ => ("pbblast_bvsle", mk("bvsle", py, px, 0)),
            }
        }
        9 => {
            let w = widths(r, true);
            let p = bv(r, w, Some(false));
            ("pbblast_pbbvar", eq(&p, &pb(ibits(&p, w))))
        }
        10 => {
            let w = widths(r, true);
            let v = val(r, w);
            let mut bits: Vec<Sx> = (0..w).map(|i| int((v >> i & 1) as i128)).collect();
            if r.chance(1, 8) {
                let i = r.below(w);
                let off = *r.pick(&[1i128 << 32, 1 << 31, 256, 2, -(1 << 32), 1 << 64]);
                bits[i] = int((v >> i & 1) as i128 + off);
                must = false;
            }
            ("pbblast_pbbconst", eq(&lit(w, v), &pb(bits)))
        }
        11 => {
            let and = r.coin();
            let w = widths(r, false);
            let (px, py) = (r.coin(), r.coin());
            let (x, y) = (bv(r, w, Some(px)), bv(r, w, Some(py)));
            let (xs, ys) = (ibits(&x, w), ibits(&y, w));
            must = !captured(&xs) && !captured(&ys);
            let b = (0..w).map(|i| if and { choice_and(&xs[i], &ys[i]) } else { choice_xor(&xs[i], &ys[i]) }).collect();
            if and {
                ("pbblast_bvand", eq(&app("bvand", &[x, y]), &pb(b)))
            } else {
                ("pbblast_bvxor", eq(&app("bvxor", &[x, y]), &pb(b)))
            }
        }
        _ => {
            let and = r.coin();
            let x = ibits(&bv(r, 2, Some(true)), 2).remove(0);
            let p = r.coin();
            let y = ibits(&bv(r, 2, Some(p)), 2).remove(1);
            must = !captured(&[x.clone(), y.clone()]);
            args = vec![x.clone(), y.clone()];
            if and {
                let c = choice_and(&x, &y);
                ("pbblast_bvand_ith_bit", f("(and (>= ?0 ?1) (>= ?2 ?3) (>= (+ ?4 1) (+ ?5 ?6)))", &[&x, &c, &y, &c, &c, &x, &y]))
            } else {
                let c = choice_xor(&x, &y);
                (
                    "pbblast_bvxor_ith_bit",
                    f(
                        "(and (>= (+ ?0 ?1) ?2) (>= (+ ?3 ?4) ?5) (>= (+ ?6 ?7) ?8) (>= 2 (+ ?9 ?10 ?11)))",
                        &[&x, &y, &c, &c, &x, &y, &c, &y, &x, &c, &x, &y],
                    ),
                )
            }
        }
    };
    (Case::new(d, "pb", rule, vec![], vec![t], args), must)
}
/// single-point corruption that keeps the term well-sorted
fn corrupt(r: &mut Rng, c: &Case) -> Option<Case> {
    let mut m = c.clone();
    let t = &c.concl[0];
    let ps = t.paths();
    for _ in 0..30 {
        let p = &ps[r.below(ps.len())];
        let s = t.at(p);
        let new = match s {
            Sx::A(x) => {
                if is_num(x) {
                    let n: i128 = x.parse().ok()?;
                    let ks = [n + 1, n - 1, n * 2, n / 2, 0, 1, 1 << 32];
                    int(*r.pick(&ks))
                } else if &**x == "true" {
                    ff()
                } else if &**x == "false" {
                    tt()
                } else if ["and", "or", "xor"].contains(&&**x) {
                    a(*r.pick(&["and", "or", "xor"]))
                } else if x.starts_with("bv") || x.starts_with(">") {
                    a(*r.pick(&["bvult", "bvslt", "bvugt", "bvsgt", "bvuge", "bvule", "bvsge", "bvsle", ">=", "bvand", "bvor", "bvxor", "bvxnor"]))
                } else if x.len() > 1 && ["x", "y", "z"].contains(&&x[..1]) {
                    a(&format!("{}{}", r.pick(&["x", "y", "z"]), &x[1..]))
                } else if x.starts_with('p') || x.starts_with('k') {
                    a(&format!("{}{}", &x[..1], r.below(6)))
                } else {
                    continue;
                }
            }
            Sx::L(v) => match r.below(4) {
                0 if v.len() >= 3 => {
                    // swap two arguments
                    let mut w = v.clone();
                    let i = 1 + r.below(v.len() - 1);
                    let j = 1 + r.below(v.len() - 1);
                    w.to_vec();
                    let mut w2 = w.to_vec();
                    w2.swap(i, j);
                    w = w2.into();
                    Sx::L(w)
                }
                1 if v.len() >= 3 => {
                    let mut w = v.to_vec();
                    w.remove(1 + r.below(v.len() - 1));
                    l(w)
                }
                2 if v.len() >= 2 => {
                    let mut w = v.to_vec();
                    let i = 1 + r.below(v.len() - 1);
                    let x = w[1 + r.below(v.len() - 1)].clone();
                    if r.coin() {
                        w.insert(i, x);
                    } else {
                        w[i] = x;
                    }
                    l(w)
                }
                _ => {
                    let q = &ps[r.below(ps.len())];
                    t.at(q).clone()
                }
            },
        };
        let nt = t.replace(p, &new);
        if nt == *t {
            continue;
        }
        m.concl[0] = nt;
        return Some(m);
    }
    None
}
fn step(r: &mut Rng, rep: &mut Report, c: &Case, must: bool, k: &Knobs) {
    let ok = if must {
        drive(c, r, rep, k, SIBS, no_class, true)
    } else {
        judge(c, r, rep, k, no_class)
    };
    if ok && !must && c.rule == "pbblast_pbbconst" {
        rep.violation(
            "unsound:pbblast_pbbconst:bits",
            "pbblast_pbbconst accepted a bit that is neither 0 nor 1",
            c.text(),
        );
    }
    if ok {
        let w = c.concl[0].args().first().map(|x| x.size()).unwrap_or(0);
        rep.count(&format!("shape:{}:{}", c.rule, w.min(12)));
    }
    if c.concl[0].size() < 700 {
        for _ in 0..4 {
            if let Some(m) = corrupt(r, c) {
                judge(&m, r, rep, k, no_class);
            }
        }
    }
    // comparison rule swapped for its siblings
    if r.chance(1, 3) {
        let mut m = c.clone();
        m.rule = r.pick(SIBS).to_string();
        judge(&m, r, rep, k, no_class);
    }
}
pub fn run(c: &mut Ctx) {
    let d = Rc::new(decls());
    let n = c.iters(500);
    let mut r = c.rng.clone();
    for _ in 0..n {
        if c.late() {
            break;
        }
        let k = Knobs { mutants: if r.chance(1, 4) { 2 } else { 0 }, tries: 20 };
        if r.coin() {
            let mut x = boolean(&mut r, &d);
            x.bits = true;
            step(&mut r, &mut c.rep, &x, true, &k);
        } else {
            let (mut x, must) = pseudo(&mut r, &d);
            x.bits = true;
            step(&mut r, &mut c.rep, &x, must, &k);
        }
    }
}
