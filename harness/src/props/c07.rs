//! Subproofs that introduce assumptions, bindings or assignments.
use super::c06::subst;
use super::c28::{decls, u, G, BN, UN};
use super::Ctx;
use crate::alpha::*;
use crate::proof::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sorts::*;
use crate::sx::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const RULES: &[&str] = &[
    "bind", "let", "onepoint", "sko_ex", "sko_forall", "subproof", "refl", "cong", "eq_reflexive", "trans", "symm", "resolution", "bind_let",
    "equiv1", "strict_refl",
];
type M = BTreeMap<String, Sx>;
pub struct Pg<'a> {
    pub r: &'a mut Rng,
    pub d: Rc<Decls>,
    pub out: Vec<Cmd>,
    pub asserts: Vec<Sx>,
    next: usize,
    fresh: usize,
    map: M,
    /// variables bound by the open anchors
    bound: Vec<String>,
    depth: usize,
    /// chance (in 24ths) of taking an unjustified decision
    pub bad: u32,
    eqs: Vec<(Sx, Sx, String)>,
    pub feat: BTreeSet<&'static str>,
}
impl<'a> Pg<'a> {
    pub fn new(r: &'a mut Rng, d: &Rc<Decls>, bad: u32) -> Pg<'a> {
        Pg {
            r,
            d: d.clone(),
            out: vec![],
            asserts: vec![],
            next: 0,
            fresh: 0,
            map: M::new(),
            bound: vec![],
            depth: 0,
            bad,
            eqs: vec![],
            feat: BTreeSet::new(),
        }
    }
    fn oops(&mut self) -> bool {
        self.bad > 0 && self.r.chance(self.bad, 24)
    }
    pub fn id(&mut self) -> String {
        self.next += 1;
        format!("s{}", self.next)
    }
    fn z(&mut self) -> String {
        self.fresh += 1;
        format!("z!{}", 1000 + self.fresh)
    }
    pub fn step(&mut self, cl: Vec<Sx>, rule: &str, prems: Vec<String>, args: Vec<Sx>) -> String {
        let id = self.id();
        self.out.push(Cmd::Step(Step { id: id.clone(), cl, rule: rule.to_string(), prems, args, dis: vec![] }));
        id
    }
    fn sub(&mut self, t: &Sx) -> Sx {
        let m = self.map.clone();
        self.sub_with(t, &m)
    }
    fn sub_with(&mut self, t: &Sx, m: &M) -> Sx {
        let mut f = BTreeSet::new();
        free_atoms(t, &mut f);
        let m: M = m.iter().filter(|(k, v)| f.contains(k.as_str()) && v.atom() != Some(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if m.is_empty() {
            return t.clone();
        }
        let mut k = self.fresh + 2000;
        let s = subst(t, &m, self.r, &mut k);
        self.fresh = k - 2000;
        s
    }
    /// Global equalities between constants, asserted and assumed.
    pub fn globals(&mut self, n: usize) {
        for _ in 0..n {
            let (x, y) = (a(*self.r.pick(UN)), a(*self.r.pick(UN)));
            let e = eq(&x, &y);
            let id = self.id();
            self.asserts.push(e.clone());
            self.out.push(Cmd::Assume(id.clone(), e));
            self.eqs.push((x, y, id));
        }
    }
    fn leaf(&mut self, t: &Sx) -> (Sx, String) {
        // a global equality as the justification
        if let Some(x) = t.atom() {
            let x = x.to_string();
            let ok = !self.bound.contains(&x);
            if ok || self.oops() {
                let c: Vec<_> = self.eqs.iter().filter(|e| e.0 == *t && (ok && !self.bound.iter().any(|b| e.1.atom() == Some(b)) || self.bad > 0)).cloned().collect();
                if !c.is_empty() && self.r.coin() {
                    self.feat.insert("global-premise");
                    let (_, y, id) = self.r.pick(&c).clone();
                    return (y, id);
                }
            }
        }
        if self.oops() {
            let rule = *self.r.pick(&["refl", "eq_reflexive"]);
            let id = self.step(vec![eq(t, t)], rule, vec![], vec![]);
            return (t.clone(), id);
        }
        let s = self.sub(t);
        let id = self.step(vec![eq(t, &s)], "refl", vec![], vec![]);
        (s, id)
    }
    fn close(&mut self, id: String, cl: Vec<Sx>, rule: &str, prems: Vec<String>, dis: Vec<String>) {
        let rule = if self.oops() && self.r.chance(1, 3) { self.r.pick(RULES).to_string() } else { rule.to_string() };
        self.out.push(Cmd::Step(Step { id, cl, rule, prems, args: vec![], dis }));
    }
    fn name(&mut self, old: &str) -> String {
        if self.bad > 0 && self.r.coin() {
            return self.r.pick(UN).to_string();
        }
        if self.r.chance(1, 4) {
            return old.to_string();
        }
        self.z()
    }
    fn extra_arg(&mut self, args: &mut Vec<AArg>) {
        if self.oops() {
            let n = self.r.pick(UN).to_string();
            let v = a(*self.r.pick(UN));
            let k = self.r.below(args.len() + 1);
            let x = if self.r.chance(1, 3) { AArg::Var(n.clone(), u()) } else { AArg::Assign(n.clone(), u(), v.clone()) };
            if let AArg::Assign(..) = x {
                self.map.insert(n, v);
            }
            args.insert(k, x);
        }
    }
    /// Emits a derivation of (= t t') in the current context; returns t' and its step.
    pub fn derive(&mut self, t: &Sx, sc: &mut Scope) -> (Sx, String) {
        let Sx::L(v) = t else { return self.leaf(t) };
        let h = v.first().and_then(|x| x.atom()).map(|s| s.to_string());
        let Some(h) = h else { return self.leaf(t) };
        if self.r.chance(1, 10) || self.depth > 5 {
            return self.leaf(t);
        }
        match h.as_str() {
            "forall" | "exists" | "choice" => {
                let bs = bindings(&v[1]).unwrap();
                let bs: Vec<(String, St)> = bs.into_iter().map(|(n, s)| (n.to_string(), sort_of_sx(&s).unwrap())).collect();
                let pts = self.points(&h, &bs, &v[2]);
                if h != "choice" && !pts.is_empty() && self.r.chance(3, 4) {
                    return self.onepoint(t, &h, &bs, &v[2], pts, sc);
                }
                if h != "choice" && bs.len() < 3 && self.depth < 2 && self.r.chance(1, 4) && t.size() < 60 {
                    return self.sko(t, &h, &bs, &v[2], sc);
                }
                self.bind(t, &h, &bs, &v[2], sc)
            }
            "let" => self.lett(t, &v[1], &v[2], sc),
            _ => {
                let mut w = vec![v[0].clone()];
                let mut prems = vec![];
                for x in &v[1..] {
                    let (y, id) = self.derive(x, sc);
                    if *x != y {
                        prems.push(id);
                    }
                    w.push(y);
                }
                let s = l(w);
                if prems.is_empty() {
                    let id = self.step(vec![eq(t, &s)], "refl", vec![], vec![]);
                    return (s, id);
                }
                let id = self.step(vec![eq(t, &s)], "cong", prems, vec![]);
                (s, id)
            }
        }
    }
    fn push(&mut self, bs: &[(String, St)], sc: &mut Scope) -> (M, usize, usize) {
        let st = (self.map.clone(), self.bound.len(), sc.len());
        for (n, s) in bs {
            self.bound.push(n.clone());
            sc.push((Rc::from(n.as_str()), s.clone()));
        }
        self.depth += 1;
        st
    }
    fn pop(&mut self, st: (M, usize, usize), sc: &mut Scope) {
        self.map = st.0;
        self.bound.truncate(st.1);
        sc.truncate(st.2);
        self.depth -= 1;
    }
    fn bind(&mut self, t: &Sx, h: &str, bs: &[(String, St)], body: &Sx, sc: &mut Scope) -> (Sx, String) {
        self.feat.insert("bind");
        let id = self.id();
        let ys: Vec<String> = bs.iter().map(|(n, _)| self.name(n)).collect();
        let st = self.push(bs, sc);
        for (y, (_, s)) in ys.iter().zip(bs) {
            self.bound.push(y.clone());
            sc.push((Rc::from(y.as_str()), s.clone()));
        }
        let same = ys.iter().zip(bs).all(|(y, b)| *y == b.0);
        let mut args: Vec<AArg> = ys.iter().zip(bs).map(|(y, b)| AArg::Var(y.clone(), b.1.clone())).collect();
        for y in &ys {
            self.map.remove(y);
        }
        if !same || self.r.coin() {
            for (y, b) in ys.iter().zip(bs) {
                let v = if self.oops() { a(*self.r.pick(UN)) } else { a(y) };
                args.push(AArg::Assign(b.0.clone(), b.1.clone(), v.clone()));
                self.map.insert(b.0.clone(), v);
            }
        }
        self.extra_arg(&mut args);
        self.out.push(Cmd::Anchor(id.clone(), args));
        let (s, _) = self.derive_last(body, sc);
        let bl = l(ys.iter().zip(bs).map(|(y, b)| l(vec![a(y), b.1.sx()])).collect());
        let res = l(vec![a(h), bl, s]);
        self.close(id.clone(), vec![eq(t, &res)], "bind", vec![], vec![]);
        self.pop(st, sc);
        (res, id)
    }
    /// derive, making sure that the equality is concluded by the last command
    fn derive_last(&mut self, t: &Sx, sc: &mut Scope) -> (Sx, String) {
        let n = self.out.len();
        let (s, id) = self.derive(t, sc);
        if self.out.len() == n || self.out.last().unwrap().id() != Some(&id) {
            // restate it: s = s by reflexivity, then transitivity (sound, and keeps the last position)
            let r1 = self.step(vec![eq(&s, &s)], "eq_reflexive", vec![], vec![]);
            let id2 = self.step(vec![eq(t, &s)], "trans", vec![id, r1], vec![]);
            return (s, id2);
        }
        (s, id)
    }
    fn lett(&mut self, t: &Sx, bl: &Sx, body: &Sx, sc: &mut Scope) -> (Sx, String) {
        self.feat.insert("let");
        let bs = bindings(bl).unwrap();
        let id = self.id();
        let inside = self.oops();
        let mut prems = vec![];
        let mut vals = vec![];
        let mut sorts = vec![];
        for (_, v) in &bs {
            sorts.push(sort_of(v, &self.d.clone(), sc).unwrap_or_else(u));
            if inside {
                vals.push(self.r.pick(&bs).1.clone());
                continue;
            }
            let (s, p) = self.derive(v, sc);
            if s != *v {
                prems.push(p);
            }
            vals.push(s);
        }
        // keep the let: the same bindings with equal values
        if self.r.chance(1, 3) {
            self.feat.insert("bind_let");
            let xb: Vec<(String, St)> = bs.iter().zip(&sorts).map(|(b, s)| (b.0.to_string(), s.clone())).collect();
            // only premises that are not about the bound variables may be used
            let st = self.push(&xb, sc);
            for b in &xb {
                self.map.remove(&b.0);
            }
            let mut args: Vec<AArg> = vec![];
            for b in &xb {
                if !self.oops() {
                    args.push(AArg::Var(b.0.clone(), b.1.clone()));
                }
            }
            self.extra_arg(&mut args);
            self.out.push(Cmd::Anchor(id.clone(), args));
            let (s, _) = self.derive_last(body, sc);
            let bl = l(bs.iter().zip(&vals).map(|(b, v)| l(vec![a(&b.0), v.clone()])).collect());
            let res = l(vec![a("let"), bl, s]);
            self.close(id.clone(), vec![eq(t, &res)], "bind_let", prems, vec![]);
            self.pop(st, sc);
            return (res, id);
        }
        let xb: Vec<(String, St)> = bs.iter().zip(&sorts).map(|(b, s)| (b.0.to_string(), s.clone())).collect();
        let st = self.push(&xb, sc);
        let mut args: Vec<AArg> = xb.iter().zip(&vals).map(|(b, v)| AArg::Assign(b.0.clone(), b.1.clone(), v.clone())).collect();
        for (b, v) in xb.iter().zip(&vals) {
            self.map.insert(b.0.clone(), v.clone());
        }
        self.extra_arg(&mut args);
        self.out.push(Cmd::Anchor(id.clone(), args));
        if inside {
            for ((_, v), s) in bs.iter().zip(&vals) {
                if v != s {
                    let p = self.step(vec![eq(v, s)], "refl", vec![], vec![]);
                    prems.push(p);
                }
            }
        }
        let (s, _) = self.derive_last(body, sc);
        self.close(id.clone(), vec![eq(t, &s)], "let", prems, vec![]);
        self.pop(st, sc);
        (s, id)
    }
    fn points(&mut self, q: &str, bs: &[(String, St)], body: &Sx) -> Vec<(usize, Sx)> {
        let mut eqs: Vec<Sx> = vec![];
        if self.bad > 0 && self.r.coin() {
            for p in body.paths() {
                eqs.push(body.at(&p).clone());
            }
        } else {
            fn neg(t: &Sx, out: &mut Vec<Sx>) {
                match t.op() {
                    Some(("=>", [p, q])) => {
                        pos(p, out);
                        neg(q, out);
                    }
                    Some(("or", v)) => v.iter().for_each(|x| neg(x, out)),
                    Some(("not", [x])) => pos(x, out),
                    _ => {}
                }
            }
            fn pos(t: &Sx, out: &mut Vec<Sx>) {
                match t.op() {
                    Some(("and", v)) => v.iter().for_each(|x| pos(x, out)),
                    Some(("not", [x])) => neg(x, out),
                    Some(("=", [_, _])) => out.push(t.clone()),
                    _ => {}
                }
            }
            if q == "exists" {
                pos(body, &mut eqs);
            } else {
                neg(body, &mut eqs);
            }
        }
        let mut v: Vec<(usize, Sx)> = vec![];
        for e in eqs {
            let Some(("=", [x, y])) = e.op() else { continue };
            for (x, y) in [(x, y), (y, x)] {
                let Some(i) = bs.iter().position(|b| x.atom() == Some(&b.0)) else { continue };
                let mut f = BTreeSet::new();
                free_atoms(y, &mut f);
                // the checker compares a point's value with the substituted one up to spelling
                let binder = y.paths().iter().any(|p| ["forall", "exists", "choice", "let"].iter().any(|b| y.at(p).is_op(b)));
                if self.bad == 0 && (binder || bs.iter().any(|b| f.contains(b.0.as_str()))) || v.iter().any(|p| p.0 == i) {
                    continue;
                }
                v.push((i, y.clone()));
            }
        }
        v
    }
    fn onepoint(&mut self, t: &Sx, h: &str, bs: &[(String, St)], body: &Sx, mut pts: Vec<(usize, Sx)>, sc: &mut Scope) -> (Sx, String) {
        self.feat.insert("onepoint");
        if pts.len() > 1 && self.r.coin() {
            let k = self.r.below(pts.len());
            pts.remove(k);
        }
        let id = self.id();
        // an outer value is substituted into the points
        let vals: Vec<Sx> = pts.iter().map(|p| p.1.clone()).collect::<Vec<_>>().iter().map(|s| self.sub(s)).collect();
        let st = self.push(bs, sc);
        let rest: Vec<(String, St)> = (0..bs.len()).filter(|i| !pts.iter().any(|p| p.0 == *i)).map(|i| bs[i].clone()).collect();
        let mut args: Vec<AArg> = rest.iter().map(|b| AArg::Var(b.0.clone(), b.1.clone())).collect();
        for b in &rest {
            self.map.remove(&b.0);
        }
        for (p, v) in pts.iter().zip(&vals) {
            args.push(AArg::Assign(bs[p.0].0.clone(), bs[p.0].1.clone(), v.clone()));
        }
        for (p, v) in pts.iter().zip(&vals) {
            self.map.insert(bs[p.0].0.clone(), v.clone());
        }
        self.extra_arg(&mut args);
        self.out.push(Cmd::Anchor(id.clone(), args));
        let (s, _) = self.derive_last(body, sc);
        let res = if rest.is_empty() { s } else { l(vec![a(h), l(rest.iter().map(|b| l(vec![a(&b.0), b.1.sx()])).collect()), s]) };
        self.close(id.clone(), vec![eq(t, &res)], "onepoint", vec![], vec![]);
        self.pop(st, sc);
        (res, id)
    }
    fn sko(&mut self, t: &Sx, h: &str, bs: &[(String, St)], body: &Sx, sc: &mut Scope) -> (Sx, String) {
        self.feat.insert("sko");
        let id = self.id();
        let mut outer = self.map.clone();
        for b in bs {
            outer.remove(&b.0);
        }
        let mut cur = self.sub_with(body, &outer);
        let st = self.push(bs, sc);
        let mut args = vec![];
        let mut vals = vec![];
        for (i, b) in bs.iter().enumerate() {
            let mut inner = cur.clone();
            if i + 1 < bs.len() {
                inner = l(vec![a(h), l(bs[i + 1..].iter().map(|b| l(vec![a(&b.0), b.1.sx()])).collect()), inner]);
            }
            if h == "forall" {
                inner = not(&inner);
            }
            let mut c = l(vec![a("choice"), l(vec![l(vec![a(&b.0), b.1.sx()])]), inner]);
            if self.oops() {
                c = a(*self.r.pick(UN));
            }
            args.push(AArg::Assign(b.0.clone(), b.1.clone(), c.clone()));
            let m = M::from([(b.0.clone(), c.clone())]);
            cur = self.sub_with(&cur, &m);
            vals.push(c);
        }
        for (b, v) in bs.iter().zip(&vals) {
            self.map.insert(b.0.clone(), v.clone());
        }
        self.extra_arg(&mut args);
        self.out.push(Cmd::Anchor(id.clone(), args));
        let (s, _) = self.derive_last(body, sc);
        self.close(id.clone(), vec![eq(t, &s)], if h == "exists" { "sko_ex" } else { "sko_forall" }, vec![], vec![]);
        self.pop(st, sc);
        (s, id)
    }
    pub fn term(&mut self, dep: usize) -> Sx {
        let letb = self.r.chance(1, 3);
        let g = G { letb, choice: self.r.chance(1, 4), nary: false, dup: false };
        let t = shaped(self.r, &g, dep, &mut vec![]);
        if self.bad > 0 && self.r.chance(2, 3) {
            return t;
        }
        let mut k = self.fresh;
        let t = rename_all(&t, self.r, &mut k);
        self.fresh = k;
        t
    }
    /// Emits a deduction subproof; returns its conclusion and its step.
    pub fn deduce(&mut self, dep: usize, sc: &mut Scope, avail: &[(Sx, String)]) -> (Vec<Sx>, String) {
        self.feat.insert("subproof");
        let id = self.id();
        let mut args = vec![];
        let st = self.push(&[], sc);
        self.extra_arg(&mut args);
        self.out.push(Cmd::Anchor(id.clone(), args));
        let n = self.r.below(3) + usize::from(dep == 0);
        let mut hyps: Vec<(Sx, String)> = vec![];
        for _ in 0..n {
            let d = 1 + self.r.below(2);
            let f = match self.r.below(3) {
                0 => app("and", &[self.term(d), self.term(1)]),
                1 => app("or", &[self.term(d), self.term(1)]),
                _ => self.term(d),
            };
            let i = self.id();
            self.out.push(Cmd::Assume(i.clone(), f.clone()));
            hyps.push((f, i));
        }
        let mut all: Vec<(Sx, String)> = avail.to_vec();
        all.extend(hyps.iter().cloned());
        let mut last: Vec<Sx> = vec![];
        let pick = self.r.below(6);
        let m = all.len();
        if dep > 0 && (pick < 2 || m == 0) {
            let (c, i) = self.deduce(dep - 1, sc, &all);
            // weaken a longer conclusion into a disjunction: keep it only when it is a single literal
            if c.len() == 1 {
                last = c;
            } else {
                let o = app("or", &c);
                // (or c1..cn) from the clause by or_neg and resolution
                let mut ps = vec![i];
                for (k, x) in c.iter().enumerate() {
                    ps.push(self.step(vec![o.clone(), not(x)], "or_neg", vec![], vec![int(k as i128)]));
                }
                self.step(vec![o.clone()], "resolution", ps, vec![]);
                last.push(o);
            }
        } else if m == 0 {
            let x = self.term(1);
            let (s, _) = self.derive_last(&x, sc);
            last.push(eq(&x, &s));
        } else {
            let (f, i) = self.r.pick(&all).clone();
            match f.op() {
                Some(("and", v)) => {
                    let k = self.r.below(v.len());
                    let x = v[k].clone();
                    self.step(vec![x.clone()], "and", vec![i], vec![int(k as i128)]);
                    last.push(x);
                }
                _ => {
                    // rewrite it
                    let (s, e) = self.derive(&f, sc);
                    if s.is_op("not") || f.is_op("not") {
                        let q = self.step(vec![not(&f), s.clone()], "equiv1", vec![e], vec![]);
                        self.step(vec![not(&f), s.clone()], "reordering", vec![q], vec![]);
                        let id2 = self.out.last().unwrap().id().unwrap().to_string();
                        let o = app("or", &[not(&f), s.clone()]);
                        let n1 = self.step(vec![o.clone(), not(&not(&f))], "or_neg", vec![], vec![int(0)]);
                        let n2 = self.step(vec![o.clone(), not(&s)], "or_neg", vec![], vec![int(1)]);
                        self.step(vec![o.clone()], "resolution", vec![id2, n1, n2], vec![]);
                        last.push(o);
                    } else {
                        let q = self.step(vec![not(&f), s.clone()], "equiv1", vec![e], vec![]);
                        self.step(vec![s.clone()], "resolution", vec![q, i], vec![]);
                        last.push(s);
                    }
                }
            }
        }
        let mut cl: Vec<Sx> = hyps.iter().map(|h| not(&h.0)).collect();
        cl.extend(last);
        let dis = hyps.iter().map(|h| h.1.clone()).collect();
        self.close(id.clone(), cl.clone(), "subproof", vec![], dis);
        self.pop(st, sc);
        (cl, id)
    }
    pub fn finish(mut self) -> Prf {
        self.out.push(Cmd::Step(Step { id: "end".into(), cl: vec![], rule: "hole".into(), ..Step::default() }));
        Prf { decls: self.d.clone(), asserts: self.asserts, cmds: self.out, extra: String::new() }
    }
}
/// terms with one-point shapes
fn shaped(r: &mut Rng, g: &G, dep: usize, sc: &mut Scope) -> Sx {
    if dep > 0 && r.chance(1, 3) {
        let m = sc.len();
        let n = 1 + r.below(2);
        let mut bs: Vec<(&str, St)> = vec![];
        for _ in 0..n {
            let nm = *r.pick(UN);
            if !bs.iter().any(|b| b.0 == nm) {
                bs.push((nm, if r.chance(1, 6) { St::Bool } else { u() }));
            }
        }
        let k = r.below(bs.len());
        let d2 = r.below(2);
        let v = g.term(r, &bs[k].1, d2, &mut sc.clone());
        for (n, s) in &bs {
            sc.push((Rc::from(*n), s.clone()));
        }
        let b = shaped(r, g, dep - 1, sc);
        sc.truncate(m);
        let e = if r.coin() { eq(&a(bs[k].0), &v) } else { eq(&v, &a(bs[k].0)) };
        // v must not be captured by the new binders: it was generated outside, so rename clashes away
        let mut f = BTreeSet::new();
        free_atoms(&v, &mut f);
        let bl = l(bs.iter().map(|b| l(vec![a(b.0), b.1.sx()])).collect());
        if bs.iter().any(|b| f.contains(b.0)) {
            return l(vec![a(if r.coin() { "forall" } else { "exists" }), bl, b]);
        }
        return match r.below(4) {
            0 | 1 => l(vec![a("exists"), bl, if r.coin() { app("and", &[e, b]) } else { app("and", &[b, e]) }]),
            2 => l(vec![a("forall"), bl, app("=>", &[e, b])]),
            _ => l(vec![a("forall"), bl, app("or", &[b, not(&e)])]),
        };
    }
    g.term(r, &St::Bool, dep, sc)
}
fn names_of(p: &Prf) -> Vec<String> {
    let mut v: Vec<String> = UN.iter().chain(&BN[..1]).map(|s| s.to_string()).collect();
    for c in &p.cmds {
        if let Cmd::Anchor(_, args) = c {
            for x in args {
                match x {
                    AArg::Var(n, _) | AArg::Assign(n, _, _) => v.push(n.clone()),
                }
            }
        }
    }
    v
}
pub fn judge(p: &Prf, r: &mut Rng, rep: &mut crate::report::Report, what: &str, tries: usize) -> Out {
    crate::watch::set(|| p.text());
    let o = p.run(&Opts::default());
    rep.evals += 1;
    rep.count(&format!("{}:{}", what, o.kind()));
    if o.accepted() {
        rep.seen(&p.proof());
        rep.sample(|| p.proof());
        let n = p.cmds.iter().filter(|c| matches!(c, Cmd::Step(s) if s.rule == "hole")).count();
        if n > 1 {
            return o;
        }
        if let Some((i, m)) = p.unsound(r, tries, &["hole"]) {
            let Cmd::Step(s) = &p.cmds[i] else { unreachable!() };
            rep.violation(
                &format!("unsound:{}", s.rule),
                format!("accepted proof concludes {} at step {} (rule {}), which has a countermodel: {}", cl_text(&s.cl), s.id, s.rule, m),
                p.text(),
            );
        }
    }
    o
}
pub fn make(r: &mut Rng, d: &Rc<Decls>, bad: u32) -> (Prf, BTreeSet<&'static str>) {
    let mut g = Pg::new(r, d, bad);
    let n = g.r.below(3);
    g.globals(n);
    let k = 1 + g.r.below(2);
    for _ in 0..k {
        if g.r.chance(1, 3) {
            let dd = g.r.below(3);
            g.deduce(dd, &mut vec![], &[]);
        } else {
            let dd = 1 + g.r.below(4);
            let t = g.term(dd);
            g.derive_last(&t, &mut vec![]);
        }
    }
    let f = g.feat.clone();
    (g.finish(), f)
}
pub fn run(c: &mut Ctx) {
    let d = Rc::new(decls());
    let n = c.iters(1500);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let (p, f) = make(r, &d, 0);
        let o = judge(&p, r, &mut c.rep, "proof", 4);
        for x in &f {
            c.rep.count(&format!("feature:{}", x));
        }
        if !o.accepted() {
            c.rep.violation("incomplete", format!("correct proof was not accepted: {:?}", o), p.text());
        }
        let nm = names_of(&p);
        let nm: Vec<&str> = nm.iter().map(|s| s.as_str()).collect();
        let don: Vec<(Sx, St)> = nm.iter().map(|x| (a(x), u())).chain([(tt(), St::Bool), (a("p"), St::Bool)]).collect();
        for _ in 0..4 {
            if let Some(q) = mutate_proof(&p, r, &nm, RULES, &don) {
                judge(&q, r, &mut c.rep, "mutant", 8);
            }
        }
        for _ in 0..6 {
            let b = 1 + r.below(8) as u32;
            let (p, _) = make(r, &d, b);
            judge(&p, r, &mut c.rep, "unjustified", 12);
            let nm = names_of(&p);
            let nm: Vec<&str> = nm.iter().map(|s| s.as_str()).collect();
            if let Some(q) = mutate_proof(&p, r, &nm, RULES, &don) {
                judge(&q, r, &mut c.rep, "mutant", 8);
            }
        }
    }
}
