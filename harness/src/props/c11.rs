//! DRUP and DRAT certificates. The generator keeps its own clause database and decides unit
//! propagation naively; accepted steps are compared with all Boolean valuations.
use super::Ctx;
use crate::engine::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

type L = (usize, bool);
type C = Vec<L>;

fn w() -> Rc<Decls> {
    let mut d = Decls::new();
    for n in ["p", "q", "r", "s", "t", "v", "|u v|", "x1", "x2"] {
        d.fun(n, &[], St::Bool);
    }
    let u = d.sort("U");
    for n in ["a", "b"] {
        d.fun(n, &[], u.clone());
    }
    d.fun("P", &[u.clone()], St::Bool);
    Rc::new(d)
}
struct G {
    at: Vec<Sx>,
    /// spelling of negations: extra double negations
    dn: bool,
}
impl G {
    fn lit(&self, r: &mut Rng, l: &L) -> Sx {
        let mut t = self.at[l.0].clone();
        if !l.1 {
            t = not(&t);
        }
        if self.dn && r.chance(1, 10) {
            t = not(&not(&t));
        }
        t
    }
    fn lits(&self, r: &mut Rng, c: &C) -> Vec<Sx> {
        let mut v: Vec<Sx> = c.iter().map(|l| self.lit(r, l)).collect();
        if !v.is_empty() && r.chance(1, 12) {
            let x = r.pick(&v).clone();
            v.push(x);
        }
        v
    }
}
/// does the clause follow by unit propagation?
fn rup(db: &[&C], goal: &C) -> bool {
    let mut env: std::collections::HashMap<usize, bool> = Default::default();
    for l in goal {
        if let Some(b) = env.insert(l.0, !l.1) {
            if b == l.1 {
                return true;
            }
        }
    }
    loop {
        let mut any = false;
        for c in db {
            if c.iter().any(|l| env.get(&l.0) == Some(&l.1)) {
                continue;
            }
            let mut un: Vec<&L> = c.iter().filter(|l| !env.contains_key(&l.0)).collect();
            un.sort();
            un.dedup();
            match un.len() {
                0 => return true,
                1 => {
                    env.insert(un[0].0, un[0].1);
                    any = true;
                }
                _ => {}
            }
        }
        if !any {
            return false;
        }
    }
}
fn rat(db: &[&C], goal: &C) -> bool {
    let Some(p) = goal.first() else { return false };
    let n = (p.0, !p.1);
    db.iter().all(|d| {
        !d.contains(&n) || {
            let mut res: C = d.iter().filter(|l| **l != n).cloned().collect();
            res.extend(goal[1..].iter().cloned());
            rup(db, &res)
        }
    })
}
/// clauses negating decision prefixes, in an order in which each follows from the earlier ones
fn dpll(db: &mut Vec<C>, prefix: &mut C, order: &[usize], out: &mut Vec<C>) -> bool {
    let c: C = prefix.iter().map(|l| (l.0, !l.1)).collect();
    let refs: Vec<&C> = db.iter().collect();
    if !rup(&refs, &c) {
        let Some((x, rest)) = order.split_first() else { return false };
        for b in [false, true] {
            prefix.push((*x, b));
            let ok = dpll(db, prefix, rest, out);
            prefix.pop();
            if !ok {
                return false;
            }
        }
    }
    db.push(c.clone());
    out.push(c);
    true
}
fn rc(r: &mut Rng, n: usize, k: usize) -> C {
    (0..k).map(|_| (r.below(n), r.coin())).collect()
}
/// (case, must be accepted)
fn instance(r: &mut Rng, d: &Rc<Decls>) -> (Case, bool) {
    let mut at: Vec<Sx> = ["p", "q", "r", "s", "t", "v", "|u v|"].iter().map(|x| a(x)).collect();
    if r.chance(1, 4) {
        at.extend(["(= a b)", "(P a)", "(and p (not q))", "(= b a)"].iter().map(|s| parse(s)));
    }
    if r.chance(1, 12) {
        at.push(tt());
        at.push(ff());
    }
    r.shuffle(&mut at);
    let drat = r.chance(2, 5);
    let ext = drat && r.coin();
    let n = if ext { 4 + r.below(3) } else { 2 + r.below(5) };
    at.truncate(n);
    // two atoms that never occur in the premises
    at.push(a("x1"));
    at.push(a("x2"));
    let g = G { at, dn: r.chance(1, 3) };
    // premises: random, hiding a solution or not; near the threshold
    let hidden: Option<Vec<bool>> = (!ext && r.chance(1, 3)).then(|| (0..n).map(|_| r.coin()).collect());
    let hard = ext || r.coin();
    let m = 1 + if ext { 5 * n } else if hard { n } else { 0 } + r.below(2 * n + 2 + n * n / 2);
    let mut db: Vec<(C, Vec<Sx>)> = vec![];
    for _ in 0..m {
        let k = match r.below(8) {
            _ if ext => 3,
            0 if hard => 3,
            1 if hard => 2,
            0 | 1 => 1,
            2..=4 => 2,
            _ => 3,
        };
        let mut c = rc(r, n, k);
        if ext {
            // distinct atoms
            let mut xs: Vec<usize> = (0..n).collect();
            r.shuffle(&mut xs);
            c = xs[..3].iter().map(|x| (*x, r.coin())).collect();
        }
        if let Some(h) = &hidden {
            if !c.iter().any(|l| h[l.0] == l.1) {
                let i = r.below(c.len());
                c[i].1 = h[c[i].0];
            }
        }
        let s = g.lits(r, &c);
        db.push((c, s));
    }
    let prems: Vec<Vec<Sx>> = db.iter().map(|x| x.1.clone()).collect();
    let honest = r.chance(3, 4);
    let mut ok = true;
    let mut used_rat = false;
    let mut args = vec![];
    let mut last: Option<Vec<Sx>> = None;
    let mut extdef = vec![];
    if ext {
        // extension: x <-> (y and z), or x <-> (y or z)
        let (y, z) = ((r.below(n), r.coin()), (r.below(n), r.coin()));
        let s = r.coin();
        let x = n + r.below(2);
        extdef = vec![
            vec![(x, s), (y.0, !y.1), (z.0, !z.1)],
            vec![(x, !s), y],
            vec![(x, !s), z],
        ];
        extdef.reverse();
    }
    let len = r.below(9);
    let mut tail: Option<Vec<C>> = None;
    for i in 0..len + 40 {
        let dbr: Vec<&C> = db.iter().map(|x| &x.0).collect();
        let c: C = if let Some(c) = extdef.pop() {
            c
        } else if let Some(c) = tail.as_mut().and_then(|t| t.pop()) {
            c
        } else if i + 1 == len && tail.is_none() {
            let mut all: Vec<C> = db.iter().map(|x| x.0.clone()).collect();
            let mut order: Vec<usize> = (0..n).collect();
            r.shuffle(&mut order);
            let mut out = vec![];
            if !dpll(&mut all, &mut vec![], &order, &mut out) {
                out.clear();
            }
            out.reverse();
            tail = Some(out);
            continue;
        } else if i >= len && hidden.is_none() {
            vec![]
        } else if i >= len {
            break;
        } else if r.chance(1, 6) && !db.is_empty() {
            let j = r.below(db.len());
            // deletion, by the printed form: all copies go
            let s = db[j].1.clone();
            args.push(app("@d", &[app("cl", &s)]));
            db.retain(|x| x.1 != s);
            continue;
        } else if r.chance(1, 2) && db.len() > 1 {
            // a resolvent, with some weakening
            let (x, y) = (r.pick(&db).0.clone(), r.pick(&db).0.clone());
            match x.iter().find(|l| y.contains(&(l.0, !l.1))).cloned() {
                Some(l) => {
                    let mut v: C = x.iter().filter(|z| **z != l).cloned().collect();
                    v.extend(y.iter().filter(|z| **z != (l.0, !l.1)).cloned());
                    v.dedup();
                    v
                }
                None => continue,
            }
        } else {
            let top = if drat { n + 2 } else { n };
            let k = r.below(4);
            let mut c = rc(r, top, k);
            // try to shorten what follows
            if rup(&dbr, &c) && !c.is_empty() && r.coin() {
                c.pop();
            }
            c
        };
        let is_rup = rup(&dbr, &c);
        let is_rat = drat && !is_rup && rat(&dbr, &c);
        if honest && !is_rup && !is_rat {
            continue;
        }
        ok &= is_rup || is_rat;
        used_rat |= is_rat;
        let s = g.lits(r, &c);
        // a repeated literal in front matters for nothing, but keep the pivot first
        args.push(app("cl", &s));
        last = Some(s.clone());
        db.push((c, s));
        if last.as_ref().unwrap().is_empty() {
            break;
        }
    }
    // conclusion: the empty clause if there, the last clause, some clause
    let conc = match r.below(8) {
        0 if !db.is_empty() => r.pick(&db).1.clone(),
        1 => vec![],
        2 => {
            let k = r.below(3);
            let c = rc(r, n, k);
            g.lits(r, &c)
        }
        _ => last.unwrap_or_default(),
    };
    let present = db.iter().any(|x| x.1 == conc);
    let must = ok && present && (!used_rat || conc.is_empty());
    let tag = match (drat, used_rat, conc.is_empty()) {
        (false, _, true) => "drup-empty",
        (false, _, false) => "drup-clause",
        (true, false, _) => "drat-rup",
        (true, true, true) => "drat-empty",
        (true, true, false) => "drat-clause",
    };
    let mut c = Case::new(d, tag, if drat { "drat" } else { "drup" }, prems, conc, args);
    if r.chance(1, 10) {
        r.shuffle(&mut c.prems);
    }
    (c, must)
}
const SIBS: &[&str] = &["drup", "drat"];

pub fn run(c: &mut Ctx) {
    let d = w();
    let k = Knobs { mutants: 5, tries: 2 };
    if c.worker == 0 {
        let cl = |s: &str| -> Vec<Sx> { parse(s).list().unwrap().to_vec() };
        // a RAT clause is no consequence
        for (ps, co, ar) in [
            (&["(p q)"][..], "(x1)", "((cl x1))"),
            (&["(p q)"], "((not p) x1)", "((cl x1 (not p)) (cl (not p) x1))"),
            (&[], "(p)", "((cl p))"),
        ] {
            let ps = ps.iter().map(|p| cl(p)).collect();
            let case = Case::new(&d, "by-hand", "drat", ps, cl(co), cl(ar));
            judge(&case, &mut c.rng, &mut c.rep, &k, no_class);
        }
    }
    for _ in 0..c.iters(9000) {
        if c.late() {
            break;
        }
        let (x, must) = instance(&mut c.rng, &d);
        if must {
            c.rep.count(&format!("must:{}", x.tag));
            drive(&x, &mut c.rng, &mut c.rep, &k, SIBS, no_class, true);
        } else {
            judge(&x, &mut c.rng, &mut c.rep, &k, no_class);
        }
    }
}
