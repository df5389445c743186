//! Model search for conjunctions of linear constraints (Fourier-Motzkin); used only to guide the
//! choice of interpretations, the evaluator always decides.
use crate::eval::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Lin = (BTreeMap<Rc<str>, Q>, Q);
#[derive(Clone)]
pub struct Con {
    /// sum + k  (>= | > | =) 0
    pub c: BTreeMap<Rc<str>, Q>,
    pub k: Q,
    pub op: u8, // 0: >=  1: >  2: =
}
pub fn constant(t: &Sx) -> Option<Q> {
    match t {
        Sx::A(x) if is_num(x) => Some(Q::int(x.parse().ok()?)),
        Sx::A(x) if is_dec(x) => {
            let (i, f) = x.split_once('.')?;
            let d = 10i128.checked_pow(f.len() as u32)?;
            Q::new(i.parse::<i128>().ok()?.checked_mul(d)?.checked_add(f.parse::<i128>().ok()?)?, d)
        }
        _ => {
            let (h, a) = t.op()?;
            match (h, a.len()) {
                ("-", 1) => Some(constant(&a[0])?.neg()),
                ("/", 2) => {
                    let d = constant(&a[1])?;
                    let n = constant(&a[0])?;
                    if d.n == 0 {
                        return None;
                    }
                    n.mul(Q::new(d.d, d.n)?)
                }
                _ => None,
            }
        }
    }
}
pub fn linearize(t: &Sx, d: &Decls) -> Option<Lin> {
    fn go(t: &Sx, d: &Decls, k: Q, out: &mut Lin) -> Option<()> {
        if let Some(c) = constant(t) {
            out.1 = out.1.add(c.mul(k)?)?;
            return Some(());
        }
        if let Sx::A(x) = t {
            let (a, s) = d.get(x)?;
            if !a.is_empty() || !matches!(s, St::Int | St::Real) {
                return None;
            }
            let e = out.0.entry(x.clone()).or_insert(Q::int(0));
            *e = e.add(k)?;
            return Some(());
        }
        let (h, a) = t.op()?;
        match h {
            "+" => a.iter().try_for_each(|x| go(x, d, k, out).ok_or(())).ok(),
            "-" if a.len() == 1 => go(&a[0], d, k.neg(), out),
            "-" => {
                go(a.first()?, d, k, out)?;
                a[1..].iter().try_for_each(|x| go(x, d, k.neg(), out).ok_or(())).ok()
            }
            "to_real" => go(a.first()?, d, k, out),
            "*" => {
                let mut kk = k;
                let mut var = None;
                for x in a {
                    match constant(x) {
                        Some(c) => kk = kk.mul(c)?,
                        None if var.is_none() => var = Some(x),
                        _ => return None,
                    }
                }
                go(var?, d, kk, out)
            }
            "/" if a.len() == 2 => {
                let c = constant(&a[1])?;
                if c.n == 0 {
                    return None;
                }
                go(&a[0], d, k.mul(Q::new(c.d, c.n)?)?, out)
            }
            _ => None,
        }
    }
    let mut o = (BTreeMap::new(), Q::int(0));
    go(t, d, Q::int(1), &mut o)?;
    o.0.retain(|_, v| v.n != 0);
    Some(o)
}
/// Constraint expressing that the literal is false.
fn negated(t: &Sx, d: &Decls, r: &mut Rng) -> Option<Con> {
    let (mut neg, mut t) = (true, t);
    while t.is_op("not") {
        neg = !neg;
        t = &t.args()[0];
    }
    let (h, a) = t.op()?;
    if a.len() != 2 {
        return None;
    }
    let x = linearize(&a[0], d)?;
    let y = linearize(&a[1], d)?;
    let mut c = x.0;
    for (v, q) in y.0 {
        let e = c.entry(v).or_insert(Q::int(0));
        *e = e.sub(q)?;
    }
    c.retain(|_, v| v.n != 0);
    let mut k = x.1.sub(y.1)?;
    let mut flip = false;
    let op = match (h, neg) {
        (">=", false) => 0,
        (">", false) => 1,
        ("<", true) => 0,
        ("<=", true) => 1,
        ("<=", false) => {
            flip = true;
            0
        }
        ("<", false) => {
            flip = true;
            1
        }
        (">", true) => {
            flip = true;
            0
        }
        (">=", true) => {
            flip = true;
            1
        }
        ("=", false) => 2,
        ("=", true) => {
            flip = r.coin();
            1
        }
        _ => return None,
    };
    if flip {
        for v in c.values_mut() {
            *v = v.neg();
        }
        k = k.neg();
    }
    Some(Con { c, k, op })
}
fn solve(mut cs: Vec<Con>, d: &Decls, r: &mut Rng) -> Option<BTreeMap<Rc<str>, Q>> {
    // integral strict constraints: x > 0 -> x >= 1 when everything is an integer
    for c in cs.iter_mut() {
        if c.op == 1
            && c.k.is_int()
            && c.c.iter().all(|(v, q)| q.is_int() && d.get(v).map_or(false, |x| *x.1 == St::Int))
        {
            c.op = 0;
            c.k = c.k.sub(Q::int(1))?;
        }
    }
    let mut layers: Vec<(Rc<str>, Vec<Con>)> = vec![];
    loop {
        for c in &cs {
            if c.c.is_empty() {
                let ok = match c.op {
                    0 => c.k.n >= 0,
                    1 => c.k.n > 0,
                    _ => c.k.n == 0,
                };
                if !ok {
                    return None;
                }
            }
        }
        cs.retain(|c| !c.c.is_empty());
        let Some(v) = cs.iter().flat_map(|c| c.c.keys()).min_by_key(|v| {
            // prefer reals first so that integers are fixed first on the way back
            let real = d.get(v).map_or(true, |x| *x.1 == St::Real);
            (!real, cs.iter().filter(|c| c.c.contains_key(*v)).count())
        }) else {
            break;
        };
        let v = v.clone();
        let (with, without): (Vec<Con>, Vec<Con>) = cs.into_iter().partition(|c| c.c.contains_key(&v));
        layers.push((v.clone(), with.clone()));
        cs = without;
        let comb = |a: &Con, b: &Con| -> Option<Con> {
            // a has coefficient p, b has coefficient q of opposite sign: |q| a + |p| b
            let (p, q) = (a.c[&v], b.c[&v]);
            let (ka, kb) = if a.op == 2 && b.op != 2 {
                (q.neg().mul(if p.n > 0 { Q::int(1) } else { Q::int(-1) })?, if p.n > 0 { p } else { p.neg() })
            } else if b.op == 2 && a.op != 2 {
                (if q.n > 0 { q } else { q.neg() }, p.neg().mul(if q.n > 0 { Q::int(1) } else { Q::int(-1) })?)
            } else if a.op == 2 {
                (q, p.neg())
            } else {
                (if q.n > 0 { q } else { q.neg() }, if p.n > 0 { p } else { p.neg() })
            };
            let mut c = BTreeMap::new();
            for (x, y) in &a.c {
                c.insert(x.clone(), y.mul(ka)?);
            }
            for (x, y) in &b.c {
                let e = c.entry(x.clone()).or_insert(Q::int(0));
                *e = e.add(y.mul(kb)?)?;
            }
            c.retain(|_, z| z.n != 0);
            c.remove(&v);
            let op = match (a.op, b.op) {
                (2, o) | (o, 2) => o,
                (0, 0) => 0,
                _ => 1,
            };
            Some(Con { c, k: a.k.mul(ka)?.add(b.k.mul(kb)?)?, op })
        };
        if let Some(i) = with.iter().position(|c| c.op == 2) {
            for (j, c) in with.iter().enumerate() {
                if j != i {
                    cs.push(comb(&with[i], c)?);
                }
            }
        } else {
            for a in with.iter().filter(|c| c.c[&v].n > 0) {
                for b in with.iter().filter(|c| c.c[&v].n < 0) {
                    cs.push(comb(a, b)?);
                }
            }
        }
        if cs.len() > 600 {
            return None;
        }
    }
    let mut m: BTreeMap<Rc<str>, Q> = BTreeMap::new();
    for (v, with) in layers.iter().rev() {
        let (mut lo, mut hi, mut ex): (Option<(Q, bool)>, Option<(Q, bool)>, Option<Q>) = (None, None, None);
        for c in with {
            let mut k = c.k;
            for (x, q) in &c.c {
                if x != v {
                    k = k.add(q.mul(*m.entry(x.clone()).or_insert(Q::int(0)))?)?;
                }
            }
            let p = c.c[v];
            let b = k.neg().mul(Q::new(p.d, p.n)?)?;
            if c.op == 2 {
                ex = Some(b);
            } else if p.n > 0 {
                if lo.map_or(true, |(l, s)| l.cmp(b) == Some(std::cmp::Ordering::Less) || (l == b && !s)) {
                    lo = Some((b, c.op == 1));
                }
            } else if hi.map_or(true, |(l, s)| l.cmp(b) == Some(std::cmp::Ordering::Greater) || (l == b && !s)) {
                hi = Some((b, c.op == 1));
            }
        }
        let is_int = d.get(v).map_or(false, |x| *x.1 == St::Int);
        let val = if let Some(e) = ex {
            e
        } else {
            match (lo, hi) {
                (None, None) => Q::int(r.range(-3, 3) as i128),
                (Some((l, s)), None) => {
                    let mut z = l;
                    if is_int {
                        z = Q::int(l.neg().floor().checked_neg()?);
                    }
                    if (s && z == l) || r.chance(1, 4) {
                        z = z.add(if is_int || r.coin() { Q::int(1) } else { Q::new(1, 3)? })?;
                    }
                    z
                }
                (None, Some((h, s))) => {
                    let mut z = h;
                    if is_int {
                        z = Q::int(h.floor());
                    }
                    if (s && z == h) || r.chance(1, 4) {
                        z = z.sub(if is_int || r.coin() { Q::int(1) } else { Q::new(1, 3)? })?;
                    }
                    z
                }
                (Some((l, ls)), Some((h, hs))) => {
                    if is_int {
                        let mut z = Q::int(l.neg().floor().checked_neg()?);
                        if ls && z == l {
                            z = z.add(Q::int(1))?;
                        }
                        let top = Q::int(h.floor());
                        if r.coin() && z.n < top.n {
                            z = Q::int(z.n + r.below(((top.n - z.n) as usize).min(5)) as i128);
                        }
                        z
                    } else if l == h || (!ls && r.chance(1, 4)) {
                        l
                    } else if !hs && r.chance(1, 4) {
                        h
                    } else {
                        l.add(h)?.mul(Q::new(1, 2)?)?
                    }
                }
            }
        };
        if is_int && !val.is_int() {
            m.insert(v.clone(), Q::int(val.floor() + r.below(2) as i128));
        } else {
            m.insert(v.clone(), val);
        }
    }
    Some(m)
}
/// Candidate models of the negation of the clause.
pub fn models(c: &Case, r: &mut Rng, n: usize) -> Vec<BTreeMap<Rc<str>, Q>> {
    let mut out = vec![];
    for _ in 0..n {
        let mut cs = vec![];
        for t in &c.concl {
            match negated(t, &c.decls, r) {
                Some(k) => cs.push(k),
                None => return out,
            }
        }
        for p in &c.prems {
            if p.len() == 1 {
                if let Some(k) = negated(&not(&p[0]), &c.decls, r) {
                    cs.push(k);
                }
            }
        }
        if cs.iter().all(|c| c.c.is_empty()) {
            return out;
        }
        match solve(cs, &c.decls, r) {
            Some(m) => out.push(m),
            None => {}
        }
    }
    out
}
