//! C20: elaboration gives an equivalent proof that passes strict checking.
use super::Ctx;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use carcara::ast::*;
use carcara::elaborator::{Config, ElaborationStep, Elaborator};
use carcara::{checker, parser};
use std::io::Cursor;

pub fn pipeline(r: &mut Rng) -> (String, Option<Vec<ElaborationStep>>) {
    use ElaborationStep::*;
    if r.coin() {
        return ("default".into(), None);
    }
    let n = 1 + r.below(4);
    let v: Vec<_> = (0..n).map(|_| *r.pick(&[Polyeq, Local, Local, Uncrowd, Reordering, LiaGeneric, Hole])).collect();
    (format!("{:?}", v), Some(v))
}
pub fn check_proof(pool: &mut PrimitivePool, rules: &rare_rules::Rules, pb: &Problem, pf: &Proof, cfg: &checker::Config) -> Out {
    classify(guarded(|| checker::ProofChecker::new(pool, rules, cfg.clone()).check(pb, pf)))
}
pub fn site(p: &str) -> String {
    p.rsplit("carcara/src/").next().unwrap_or("?").to_string()
}
/// the file of a panic without the line
pub fn file(p: &str) -> String {
    site(p).split(':').next().unwrap_or("?").to_string()
}
pub fn elaborate(pb: &str, pf: &str, o: &Opts, orig: &Out, pipe: &Option<Vec<ElaborationStep>>, rot: bool, name: &str, rep: &mut Report) {
    let input = || format!("{pb}---- proof\n{pf}---- pipeline {name} rotation {rot} {}", o.rules.clone().map(|r| format!("\n---- rules\n{r}")).unwrap_or_default());
    crate::watch::set(input);
    let loaded = guarded(|| {
        parser::parse_instance(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), o.rules.clone().map(Cursor::new), o.parser.clone())
    });
    let Ok(Ok((problem, proof, rules, mut pool))) = loaded else {
        return;
    };
    rep.evals += 1;
    rep.count(if pipe.is_none() { "pipeline:default" } else { "pipeline:other" });
    macro_rules! bad {
        ($sig:expr, $what:expr) => {
            rep.violation($sig, $what, input())
        };
    }
    let cfg = Config { lia_options: None, hole_options: None, uncrowd_rotation: rot };
    let (commands, defs) = (proof.commands, proof.constant_definitions);
    let before = commands.len();
    let clause = |c: &ProofCommand| {
        let mut v: Vec<String> = c.clause().iter().map(|t| t.to_string()).collect();
        v.sort();
        v
    };
    let proved: Vec<(String, Vec<String>)> = commands.iter().filter(|c| !c.is_assume()).map(|c| (c.id().to_string(), clause(c))).collect();
    let done = guarded(|| {
        let f = ProofNodeForest::from_commands(commands);
        let mut e = Elaborator::new(&mut pool, &problem, cfg);
        let f = match pipe {
            None => e.elaborate_with_default_pipeline(f),
            Some(p) => e.elaborate(f, p.clone()),
        };
        f.into_commands()
    });
    let out = match done {
        Err(p) => {
            bad!(&format!("panic:{}", site(&p)), format!("elaboration panics: {p}"));
            return;
        }
        Ok(c) => Proof { constant_definitions: defs, commands: c },
    };
    // whatever was proved before still is
    let now: std::collections::HashSet<Vec<String>> = out.commands.iter().map(clause).collect();
    if let Some((id, cl)) = proved.iter().find(|(_, c)| !now.contains(c)) {
        let t = super::c22::print(&mut pool, &problem, &out, false).unwrap_or_default();
        bad!("lost", format!("no command concludes {cl:?}, the clause of {id}, after elaboration\n{t}"));
        return;
    }
    rep.add("conclusions kept", proved.len() as u64);
    if pipe.is_none() {
        let (mut seen, mut bad_step) = (0, None);
        crowded(&out.commands, &mut vec![], &mut seen, &mut bad_step);
        rep.add("resolution steps with pivots after uncrowding", seen);
        if let Some(id) = bad_step {
            let t = super::c22::print(&mut pool, &problem, &out, false).unwrap_or_default();
            bad!("crowded", format!("the resolution step {id} still leaves out literals that are repeated, although contracting them after each pivot gives its conclusion\n{t}"));
            return;
        }
    }
    let strict = checker::Config { elaborated: true, ..o.checker.clone() };
    let modes = [("normal", &o.checker), ("strict", &strict)];
    let good = |v: &Out| matches!((v, orig), (Out::Valid, _) | (Out::Holey, Out::Holey));
    let mut failed = false;
    for (m, c) in modes {
        if m == "strict" && pipe.is_some() {
            continue;
        }
        let v = check_proof(&mut pool, &rules, &problem, &out, c);
        if !good(&v) {
            failed = true;
            let rule = if let Out::Reject(_, r, _) = &v { r.clone() } else { String::new() };
            let t = super::c22::print(&mut pool, &problem, &out, false).unwrap_or_default();
            // the terms are equal up to the names that let binds
            let lets = matches!(&v, Out::Reject(_, r, e) if m == "strict" && r == "refl" && e.contains("(let ("));
            // a binder has two variables with the same name and different sorts
            let dup = matches!(&v, Out::Reject(_, r, e) if m == "strict" && r == "refl" && e.split_once("terms '").and_then(|(_, t)| t.strip_suffix('\'')?.split_once("' and '")).is_some_and(|(a, b)| [a, b].iter().any(|t| parse_all(t).is_some_and(|v| v.iter().any(dup_names)))));
            // a bound name of a let also occurs, with another sort, in one of the values
            let clash = matches!(&v, Out::Reject(_, r, e) if m == "strict" && r == "assume" && e.split_once("premises: ").is_some_and(|(_, t)| parse_all(t).is_some_and(|v| v.iter().any(let_clash))));
            let sig = if lets { "strict:refl:let".to_string() } else if dup { "strict:refl:dup".to_string() } else if clash { "strict:assume:let".to_string() } else { format!("{m}:{}:{rule}", v.kind()) };
            bad!(&sig, format!("was {}, after elaboration {:?} in {m} mode\n{t}", orig.kind(), v));
        }
    }
    for sharing in [false, true] {
        if failed {
            break;
        }
        let t = match super::c22::print(&mut pool, &problem, &out, sharing) {
            Ok(t) => t,
            Err(e) => {
                bad!("print", format!("the elaborated proof can not be printed: {e}"));
                continue;
            }
        };
        for (m, c) in modes {
            if m == "strict" && pipe.is_some() {
                continue;
            }
            let v = check_plain(pb, &t, &Opts { checker: c.clone(), ..o.clone() });
            if !good(&v) {
                bad!(&format!("printed:{m}:{}", v.kind()), format!("was {}, after elaboration and printing (sharing {sharing}) {:?} in {m} mode\n{t}", orig.kind(), v));
            }
        }
        if !sharing {
            let changed = t.lines().count() != before;
            rep.count(if changed { "changed" } else { "same-length" });
            if rep.distinct.insert(crate::report::hash_str(&t)) {
                rep.sample(|| t);
            }
        }
    }
}


use crate::sorts::*;
use crate::sx::*;

/// A proof made of pieces that the elaborator changes: premises up to the order of equalities and the nesting of
/// operators, congruence and transitivity with flipped, repeated and superfluous premises, instantiation and
/// reflexivity up to renaming, resolution without pivots, and subproofs, nested in each other.
struct Mix<'a> {
    r: &'a mut Rng,
    out: String,
    /// visible clauses
    facts: Vec<Vec<(String, Vec<Sx>)>>,
    names: Vec<Vec<String>>,
    k: usize,
    last: Option<(String, Vec<Sx>)>,
    g: super::c28::G,
    end: Vec<String>,
}
impl Mix<'_> {
    /// ids that may be the ones the elaborator makes up
    fn id(&mut self) -> String {
        for _ in 0..5 {
            if self.r.chance(1, 4) {
                let base = if let (true, Some((l, _))) = (self.r.coin(), &self.last) { l.clone() } else { format!("t{}", self.r.below(self.k + 2)) };
                let n = format!("{base}.t{}", 1 + self.r.below(4));
                if n.len() < 40 && !self.names.iter().flatten().any(|m| *m == n) && !self.end.contains(&n) {
                    return n;
                }
            }
        }
        loop {
            self.k += 1;
            let n = format!("t{}", self.k);
            if !self.names.iter().flatten().any(|m| *m == n) && !self.end.contains(&n) {
                return n;
            }
        }
    }
    fn add(&mut self, id: String, cl: Vec<Sx>) {
        self.names.last_mut().unwrap().push(id.clone());
        self.last = Some((id.clone(), cl.clone()));
        self.facts.last_mut().unwrap().push((id, cl));
    }
    fn cl(cl: &[Sx]) -> String {
        format!("(cl{})", cl.iter().map(|t| format!(" {t}")).collect::<String>())
    }
    fn step(&mut self, rule: &str, cl: Vec<Sx>, prems: &[String], args: &[Sx]) -> String {
        let id = self.id();
        let p = if prems.is_empty() { String::new() } else { format!(" :premises ({})", prems.join(" ")) };
        let x = if args.is_empty() { String::new() } else { format!(" :args ({})", args.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")) };
        self.out += &format!("(step {id} {} :rule {rule}{p}{x})\n", Self::cl(&cl));
        self.add(id.clone(), cl);
        id
    }
    fn given(&mut self, cl: Vec<Sx>) -> String {
        self.step("hole", cl, &[], &[])
    }
    fn fact(&mut self) -> Option<(String, Vec<Sx>)> {
        let v: Vec<_> = self.facts.iter().flatten().cloned().collect();
        if v.is_empty() {
            return None;
        }
        Some(if self.r.coin() { v[v.len() - 1 - self.r.below(v.len().min(4))].clone() } else { self.r.pick(&v).clone() })
    }
    fn term(&mut self, s: &St, d: usize) -> Sx {
        self.g.term(self.r, s, d, &mut vec![])
    }
    fn lit(&mut self) -> Sx {
        let mut t = if self.r.chance(1, 12) { a(*self.r.pick(&["true", "false"])) } else { a(*self.r.pick(super::c28::BN)) };
        while self.r.chance(2, 5) {
            t = not(&t);
        }
        t
    }
    fn variant(&mut self, t: &Sx) -> Sx {
        let t = super::c28::flip(t, self.r);
        if self.r.coin() { super::c28::nary(&t, self.r) } else { t }
    }
    fn rename(&mut self, t: &Sx) -> Sx {
        super::c06::subst(t, &Default::default(), self.r, &mut self.k)
    }
    /// an equality, in some order
    fn equal(&mut self, x: &Sx, y: &Sx) -> Sx {
        if self.r.coin() { eq(x, y) } else { eq(y, x) }
    }
    /// a random equality x = y that is or can be concluded
    fn have(&mut self, x: &Sx, y: &Sx) -> String {
        let e = self.equal(x, y);
        if let (true, Some(k)) = (self.r.coin(), self.facts.iter().flatten().find(|f| f.1 == [e.clone()])) {
            return k.0.clone();
        }
        if x == y && self.r.coin() {
            return self.step("refl", vec![e], &[], &[]);
        }
        self.given(vec![e])
    }
    fn piece(&mut self, depth: usize) {
        let u = super::c28::u();
        match self.r.below(if depth == 0 { 9 } else { 12 }) {
            0 => {
                let s = if self.r.coin() { u } else { St::Bool };
                let t = self.term(&s, 3);
                let t2 = super::c28::flip(&t, self.r);
                let t2 = if self.r.chance(1, 3) { self.rename(&t2) } else { t2 };
                self.step("refl", vec![eq(&t, &t2)], &[], &[]);
            }
            1 => {
                let n = 1 + self.r.below(4);
                let ts: Vec<Sx> = (0..=n).map(|_| self.term(&u, 1)).collect();
                let mut ps: Vec<String> = ts.windows(2).map(|w| self.have(&w[0], &w[1])).collect();
                if self.r.coin() {
                    self.r.shuffle(&mut ps);
                }
                if self.r.chance(1, 3) {
                    let x = self.term(&u, 1);
                    let y = self.term(&u, 0);
                    ps.push(self.have(&x, &y));
                }
                self.step("trans", vec![eq(&ts[0], &ts[n])], &ps, &[]);
            }
            2 => {
                let n = 2 + self.r.below(3);
                let ts: Vec<Sx> = (0..=n).map(|_| self.term(&u, 1)).collect();
                let mut c: Vec<Sx> = ts.windows(2).map(|w| not(&self.equal(&w[0], &w[1]))).collect();
                if self.r.chance(1, 4) {
                    c.push(c[0].clone());
                }
                if self.r.coin() {
                    self.r.shuffle(&mut c);
                }
                c.push(eq(&ts[0], &ts[n]));
                self.step("eq_transitive", c, &[], &[]);
            }
            3 => {
                // congruence
                let (h, n) = *self.r.pick(&[("f", 1), ("g", 2), ("R", 2), ("T", 3), ("=", 2), ("=", 2), ("=", 3), ("distinct", 3)]);
                let xs: Vec<Sx> = (0..n).map(|_| self.term(&u, 1)).collect();
                let ys: Vec<Sx> = xs.iter().map(|x| if self.r.coin() { x.clone() } else { self.term(&u, 1) }).collect();
                let mut ps = vec![];
                for (x, y) in xs.iter().zip(&ys) {
                    if x != y || self.r.chance(1, 4) {
                        ps.push(self.have(x, y));
                    }
                }
                let (mut l, mut rr) = (app(h, &xs), app(h, &ys));
                if h == "=" && n == 2 {
                    if self.r.chance(1, 3) {
                        l = eq(&xs[1], &xs[0]);
                    }
                    if self.r.chance(1, 3) {
                        rr = eq(&ys[1], &ys[0]);
                    }
                }
                self.step("cong", vec![eq(&l, &rr)], &ps, &[]);
            }
            4 => {
                let (h, n) = *self.r.pick(&[("f", 1), ("g", 2), ("R", 2), ("T", 3), ("=", 2)]);
                let pool: Vec<Sx> = (0..3).map(|_| self.term(&u, 1)).collect();
                let xs: Vec<Sx> = (0..n).map(|_| self.r.pick(&pool).clone()).collect();
                let ys: Vec<Sx> = (0..n).map(|_| self.r.pick(&pool).clone()).collect();
                let mut c = vec![];
                for (x, y) in xs.iter().zip(&ys) {
                    if x != y || self.r.coin() {
                        c.push(not(&self.equal(x, y)));
                    }
                }
                c.push(eq(&app(h, &xs), &app(h, &ys)));
                self.step("eq_congruent", c, &[], &[]);
            }
            5 => {
                let b = if self.r.coin() { "a" } else { "b" };
                let (b2, st) = if self.r.chance(1, 4) { ("p", "Bool") } else { (b, "U") };
                let mut sc = vec![(std::rc::Rc::from(b2), if st == "U" { u.clone() } else { St::Bool })];
                let t = self.g.term(self.r, &St::Bool, 3, &mut sc);
                let v = self.term(if st == "U" { &u } else { &St::Bool }, 1);
                let map = [(b2.to_string(), v.clone())].into_iter().collect();
                let e = super::c06::subst(&t, &map, self.r, &mut self.k);
                let e = super::c28::flip(&e, self.r);
                let q = l(vec![a("forall"), l(vec![l(vec![a(b2), a(st)])]), t]);
                self.step("forall_inst", vec![app("or", &[not(&q), e])], &[], &[v]);
            }
            6 | 7 => {
                // resolution without pivots, over clauses that may have been reordered or contracted
                let n = 2 + self.r.below(4);
                let mut ps: Vec<(String, Vec<Sx>)> = vec![];
                for _ in 0..n {
                    let m = 1 + self.r.below(3);
                    let mut c: Vec<Sx> = (0..m).map(|_| self.lit()).collect();
                    let mut id = self.given(c.clone());
                    if self.r.chance(1, 3) {
                        self.r.shuffle(&mut c);
                        id = self.step("reordering", c.clone(), &[id], &[]);
                    }
                    if self.r.chance(1, 3) {
                        let mut d: Vec<Sx> = vec![];
                        c.iter().for_each(|x| if !d.contains(x) { d.push(x.clone()) });
                        if d.len() != c.len() {
                            c = d;
                            id = self.step("contraction", c.clone(), &[id], &[]);
                        }
                    }
                    if self.r.chance(1, 5) {
                        c.push(self.lit());
                        id = self.step("weakening", c.clone(), &[id], &[]);
                    }
                    ps.push((id, c));
                }
                let mut cur = ps[0].1.clone();
                let mut args = vec![];
                for (_, c) in &ps[1..] {
                    let mut found = None;
                    'x: for (i, x) in cur.iter().enumerate() {
                        for (j, y) in c.iter().enumerate() {
                            if *x == not(y) {
                                found = Some((i, j, y.clone(), false));
                                break 'x;
                            }
                            if *y == not(x) {
                                found = Some((i, j, x.clone(), true));
                                break 'x;
                            }
                        }
                    }
                    let Some((i, j, piv, pol)) = found else {
                        return;
                    };
                    cur.remove(i);
                    let mut rest = c.clone();
                    rest.remove(j);
                    cur.extend(rest);
                    args.push(piv);
                    args.push(if pol { tt() } else { ff() });
                }
                let mut c = cur.clone();
                if self.r.chance(2, 3) {
                    let mut d: Vec<Sx> = vec![];
                    c.iter().for_each(|x| if !d.contains(x) { d.push(x.clone()) });
                    c = d;
                }
                if self.r.chance(1, 3) {
                    self.r.shuffle(&mut c);
                }
                let mut ids: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
                let with_args = self.r.coin();
                if !with_args && self.r.coin() {
                    self.r.shuffle(&mut ids);
                }
                let rule = if self.r.chance(1, 4) { "th_resolution" } else { "resolution" };
                self.step(rule, c, &ids, if with_args { &args } else { &[] });
            }
            8 => {
                let mut c: Vec<Sx> = (0..2 + self.r.below(3)).map(|_| self.term(&St::Bool, 1)).collect();
                let mut id = self.given(c.clone());
                for _ in 0..1 + self.r.below(3) {
                    match self.r.below(3) {
                        0 => {
                            c.push(self.term(&St::Bool, 1));
                            id = self.step("weakening", c.clone(), &[id], &[]);
                        }
                        1 => {
                            let mut d: Vec<Sx> = vec![];
                            c.iter().for_each(|x| if !d.contains(x) { d.push(x.clone()) });
                            c = d;
                            id = self.step("contraction", c.clone(), &[id], &[]);
                        }
                        _ => {
                            self.r.shuffle(&mut c);
                            id = self.step("reordering", c.clone(), &[id], &[]);
                        }
                    }
                }
            }
            9 | 10 => {
                // a subproof that discharges its assumptions
                let end = self.id();
                self.out += &format!("(anchor :step {end})\n");
                self.end.push(end.clone());
                self.facts.push(vec![]);
                self.names.push(vec![]);
                let mut hs = vec![];
                for _ in 0..self.r.below(3) {
                    let id = self.id();
                    let t = self.term(&St::Bool, 2);
                    self.out += &format!("(assume {id} {t})\n");
                    self.add(id.clone(), vec![t.clone()]);
                    hs.push((id, t));
                }
                for _ in 0..self.r.below(3) {
                    self.piece(depth - 1);
                }
                if self.r.coin() {
                    // the last command is a reordering of something
                    if let Some((id, c)) = self.fact() {
                        self.step("reordering", c, &[id], &[]);
                    }
                }
                if self.facts.last().unwrap().is_empty() || !self.out.trim_end().ends_with(')') {
                    let t = self.term(&St::Bool, 2);
                    self.given(vec![t]);
                }
                let (_, mut fin) = self.facts.last().unwrap().last().unwrap().clone();
                if fin.len() != 1 {
                    let t = if self.r.coin() { vec![self.term(&St::Bool, 2)] } else { vec![] };
                    if !t.is_empty() || self.r.coin() {
                        self.given(t.clone());
                        fin = t;
                    }
                }
                let mut c: Vec<Sx> = hs.iter().map(|(_, t)| not(&super::c28::flip(t, self.r))).collect();
                if self.r.chance(3, 4) {
                    c = hs.iter().map(|(_, t)| not(t)).collect();
                }
                match fin.len() {
                    0 => c.push(ff()),
                    _ => c.push(super::c28::flip(&fin[0], self.r)),
                }
                self.end.pop();
                self.facts.pop();
                self.names.pop();
                let d = if hs.is_empty() { String::new() } else { format!(" :discharge ({})", hs.iter().map(|h| h.0.clone()).collect::<Vec<_>>().join(" ")) };
                self.out += &format!("(step {end} {} :rule subproof{d})\n", Self::cl(&c));
                self.add(end, c);
            }
            _ => {
                // renaming under a quantifier
                let end = self.id();
                let (x, y) = (*self.r.pick(&["a", "v1"]), *self.r.pick(&["b", "v2", "a"]));
                let mut sc = vec![(std::rc::Rc::from(x), u.clone())];
                let t = self.g.term(self.r, &St::Bool, 2, &mut sc);
                if t.contains_atom(y) && x != y {
                    return;
                }
                let map = [(x.to_string(), a(y))].into_iter().collect();
                let t2 = super::c06::subst(&t, &map, self.r, &mut self.k);
                let t2 = super::c28::flip(&t2, self.r);
                self.out += &format!("(anchor :step {end} :args (({y} U) (:= ({x} U) {y})))\n");
                self.end.push(end.clone());
                self.facts.push(vec![]);
                self.names.push(vec![]);
                if self.r.chance(1, 4) {
                    self.piece(depth - 1);
                }
                let (p, q) = if self.r.coin() { (t.clone(), t2.clone()) } else { (t.clone(), t2.clone()) };
                self.step("refl", vec![eq(&p, &q)], &[], &[]);
                self.end.pop();
                self.facts.pop();
                self.names.pop();
                let k = *self.r.pick(&["forall", "exists"]);
                let qf = |n: &str, t: &Sx| l(vec![a(k), l(vec![l(vec![a(n), a("U")])]), t.clone()]);
                let c = vec![eq(&qf(x, &t), &qf(y, &t2))];
                self.out += &format!("(step {end} {} :rule bind)\n", Self::cl(&c));
                self.add(end, c);
            }
        }
    }
}
pub fn mixed(r: &mut Rng) -> (String, String) {
    let d = super::c28::decls();
    let mut pb = d.text();
    let g = super::c28::G { letb: r.chance(1, 4), choice: r.chance(1, 6), nary: r.coin(), dup: false };
    let mut m = Mix { r, out: String::new(), facts: vec![vec![]], names: vec![vec![]], k: 0, last: None, g, end: vec![] };
    for _ in 0..m.r.below(4) {
        let t = if m.r.coin() { m.term(&St::Bool, 3) } else { super::c28::arith(m.r, &St::Bool, 3) };
        let v = m.variant(&t);
        pb += &format!("(assert {t})\n");
        let id = m.id();
        m.out += &format!("(assume {id} {v})\n");
        m.add(id, vec![v]);
    }
    for _ in 0..1 + m.r.below(6) {
        m.piece(2);
    }
    let ids: Vec<String> = m.facts[0].iter().map(|f| f.0.clone()).collect();
    let out = format!("{}(step end (cl) :rule hole :premises ({}))\n", m.out, ids.join(" "));
    (pb, if ids.is_empty() { out.replace(" :premises ()", "") } else { out })
}

/// A long resolution with pivots, whose premises repeat literals that are eliminated before, between and after them.
pub fn crowd(r: &mut Rng) -> (String, String) {
    use std::collections::BTreeSet;
    let atoms = 3 + r.below(9);
    let pb: String = (0..atoms).map(|i| format!("(declare-const p{i} Bool)\n")).collect();
    let lits = |r: &mut Rng, n: usize| -> Vec<(u32, usize)> { (0..r.below(n)).map(|_| (r.below(if n > 3 { 3 } else { 2 }) as u32, r.below(atoms))).collect() };
    let show = |&(n, i): &(u32, usize)| format!("{}p{i}{}", "(not ".repeat(n as usize), ")".repeat(n as usize));
    let clause = |v: &[(u32, usize)]| format!("(cl{})", v.iter().map(|x| format!(" {}", show(x))).collect::<String>());
    let mut first = lits(r, 5);
    first.push((r.below(2) as u32, r.below(atoms)));
    let mut now: BTreeSet<_> = first.iter().cloned().collect();
    let (mut out, mut args) = (format!("(step h0 {} :rule hole)\n", clause(&first)), String::new());
    let n = 1 + r.below(12);
    let mut k = 0;
    let mut gone: Vec<(u32, usize)> = vec![];
    let again = r.chance(1, 8);
    for _ in 0..n {
        let Some(&here) = now.iter().nth(r.below(now.len().max(1))) else { break };
        let up = here.0 == 0 || r.coin();
        if !again && gone.contains(&here) {
            break;
        }
        let there = if up { (here.0 + 1, here.1) } else { (here.0 - 1, here.1) };
        let pivot = if up { here } else { there };
        // mostly literals that occur already
        let mut c: Vec<(u32, usize)> = lits(r, 4);
        let old: Vec<_> = now.iter().cloned().collect();
        for _ in 0..r.below(4) {
            c.push(*r.pick(&old));
        }
        c.retain(|x| *x != there && *x != here && (again || !gone.contains(x)));
        gone.push(here);
        c.insert(r.below(c.len() + 1), there);
        k += 1;
        out += &format!("(step h{k} {} :rule hole)\n", clause(&c));
        args += &format!(" {} {up}", show(&pivot));
        now.remove(&here);
        now.extend(c.into_iter().filter(|x| *x != there));
    }
    let mut end: Vec<_> = now.into_iter().collect();
    r.shuffle(&mut end);
    let ids = |n: usize| (0..=n).map(|i| format!("h{i}")).collect::<Vec<_>>().join(" ");
    let args = if r.chance(1, 6) { String::new() } else { format!(" :args ({})", args.trim()) };
    let rule = r.pick(&["resolution", "th_resolution"]);
    out += &format!("(step r {} :rule {rule} :premises ({}){args})\n(step end (cl) :rule hole :premises (r))\n", clause(&end), ids(k));
    (pb, out)
}

pub fn run(cx: &mut Ctx) {
    let n = cx.iters(1200);
    for _ in 0..n {
        if cx.late() {
            break;
        }
        let (pb, pf) = crowd(&mut cx.rng);
        let o = Opts::default();
        let out = check_plain(&pb, &pf, &o);
        cx.rep.count(&format!("crowd:{}", out.kind()));
        if out.accepted() {
            let rot = cx.rng.coin();
            elaborate(&pb, &pf, &o, &out, &None, rot, "default", &mut cx.rep);
        }
    }
    let n = cx.iters(6000);
    for _ in 0..n {
        if cx.late() {
            break;
        }
        let (pb, pf) = if cx.rng.chance(1, 40) { super::c29::deep(&mut cx.rng) } else { mixed(&mut cx.rng) };
        let o = Opts::default();
        let out = check_plain(&pb, &pf, &o);
        let k = if let Out::Reject(_, rule, _) = &out { format!("mixed:reject:{rule}") } else { format!("mixed:{}", out.kind()) };
        cx.rep.count(&k);
        if !out.accepted() {
            continue;
        }
        let (nm, p) = pipeline(&mut cx.rng);
        let rot = cx.rng.coin();
        elaborate(&pb, &pf, &o, &out, &p, rot, &nm, &mut cx.rep);
    }
    let mut r = Rng::new(cx.rng.next());
    cx.workloads(super::c17::ALL, 200, move |name, pb, pf, o, out, rep| {
        // the last step only ends the proof: connect it, so that changed conclusions are seen
        let joined = pf.replace("(step end (cl) :rule hole)", "(step end (cl) :rule hole :premises (t))");
        let (pf, out) = if joined != pf && pf.contains("(step t ") { (joined.as_str(), check_plain(pb, &joined, o)) } else { (pf, out.clone()) };
        if !out.accepted() {
            return;
        }
        rep.count(&format!("accepted:{name}"));
        let (n, p) = pipeline(&mut r);
        let rot = r.coin();
        elaborate(pb, pf, o, &out, &p, rot, &n, rep);
    });
}

/// Finds a resolution step with pivots whose conclusion isn't just what the premises leave when the pivots are removed
/// once, but is what is left of them as sets: then it can be split so that the repeated literals are contracted.
fn crowded(cs: &[ProofCommand], outer: &mut Vec<Vec<Vec<Rc<Term>>>>, seen: &mut u64, bad: &mut Option<String>) {
    use std::collections::BTreeSet;
    type Lit = (u32, Rc<Term>);
    let lit = |t: &Rc<Term>| -> Lit {
        let (n, t) = t.remove_all_negations();
        (n, t.clone())
    };
    outer.push(vec![]);
    for c in cs {
        if let ProofCommand::Subproof(s) = c {
            crowded(&s.commands, outer, seen, bad);
        }
        if let ProofCommand::Step(s) = c {
            let n = s.premises.len();
            if matches!(s.rule.as_str(), "resolution" | "th_resolution") && n >= 2 && s.args.len() == 2 * (n - 1) {
                *seen += 1;
                let prems: Vec<Vec<Lit>> = s.premises.iter().map(|&(d, i)| outer[d][i].iter().map(lit).collect()).collect();
                let (mut bag, mut set) = (Some(prems[0].clone()), Some(prems[0].iter().cloned().collect::<std::collections::HashSet<_>>()));
                for (i, (p, x)) in prems[1..].iter().zip(s.args.chunks(2)).enumerate() {
                    let (k, t) = lit(&x[0]);
                    let (mut here, mut there) = ((k, t.clone()), (k + 1, t));
                    if !x[1].is_bool_true() {
                        std::mem::swap(&mut here, &mut there);
                    }
                    bag = bag.and_then(|mut b| {
                        b.remove(b.iter().position(|l| *l == here)?);
                        let j = p.iter().position(|l| *l == there)?;
                        b.extend(p.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, l)| l.clone()));
                        Some(b)
                    });
                    // (a literal that comes back after it was eliminated can't be told from one that is left over)
                    set = set.and_then(|mut b| {
                        let once = p.iter().filter(|l| **l == there).count() == 1;
                        let back = prems[i + 2..].iter().flatten().any(|l| *l == here);
                        (once && !back && b.remove(&here)).then(|| {
                            b.extend(p.iter().filter(|l| **l != there).cloned());
                            b
                        })
                    });
                }
                let want: Vec<Lit> = s.clause.iter().map(lit).collect();
                let key = |v: &[Lit]| {
                    let mut v: Vec<String> = v.iter().map(|(n, t)| format!("{n} {t}")).collect();
                    v.sort();
                    v
                };
                if bag.is_none_or(|b| key(&b) != key(&want)) {
                    if let Some(s2) = set {
                        let left: BTreeSet<String> = key(&s2.into_iter().collect::<Vec<_>>()).into_iter().collect();
                        if left == key(&want).into_iter().collect() {
                            bad.get_or_insert(s.id.clone());
                        }
                    }
                }
            }
        }
        outer.last_mut().unwrap().push(c.clause().to_vec());
    }
    outer.pop();
}
fn dup_names(t: &Sx) -> bool {
    let Sx::L(v) = t else { return false };
    if (t.is_op("forall") || t.is_op("exists") || t.is_op("choice") || t.is_op("lambda")) && v.len() == 3 {
        if let Sx::L(bs) = &v[1] {
            let names: Vec<&str> = bs.iter().filter_map(|b| b.list()?.first()?.atom()).collect();
            if (1..names.len()).any(|i| names[..i].contains(&names[i])) {
                return true;
            }
        }
    }
    v.iter().any(dup_names)
}

fn let_clash(t: &Sx) -> bool {
    let Sx::L(v) = t else { return false };
    if t.is_op("let") && v.len() == 3 {
        if let Sx::L(bs) = &v[1] {
            let bs: Vec<&[Sx]> = bs.iter().filter_map(|b| b.list()).filter(|b| b.len() == 2).collect();
            let names: Vec<&str> = bs.iter().filter_map(|b| b[0].atom()).collect();
            if bs.iter().any(|b| names.iter().any(|n| b[1].contains_atom(n))) {
                return true;
            }
        }
    }
    v.iter().any(let_clash)
}
