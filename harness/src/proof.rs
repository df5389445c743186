//! Whole proofs: a small abstract syntax, rendering, scoping and mutation.
use crate::gen::mutate_term;
use crate::rng::Rng;
use crate::run::*;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum AArg {
    Var(String, St),
    Assign(String, St, Sx),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Step {
    pub id: String,
    pub cl: Vec<Sx>,
    pub rule: String,
    pub prems: Vec<String>,
    pub args: Vec<Sx>,
    pub dis: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Assume(String, Sx),
    Step(Step),
    /// opens a subproof closed by the step of this id
    Anchor(String, Vec<AArg>),
    /// verbatim text (define-fun and the like)
    Raw(String),
}
impl Cmd {
    pub fn id(&self) -> Option<&str> {
        match self {
            Cmd::Assume(i, _) => Some(i),
            Cmd::Step(s) => Some(&s.id),
            _ => None,
        }
    }
    pub fn clause(&self) -> Option<Vec<Sx>> {
        match self {
            Cmd::Assume(_, t) => Some(vec![t.clone()]),
            Cmd::Step(s) => Some(s.cl.clone()),
            _ => None,
        }
    }
}
#[derive(Clone)]
pub struct Prf {
    pub decls: Rc<Decls>,
    pub asserts: Vec<Sx>,
    pub cmds: Vec<Cmd>,
    pub extra: String,
}
pub fn cl_text(c: &[Sx]) -> String {
    let mut r = String::from("(cl");
    for x in c {
        r.push(' ');
        r.push_str(&x.to_string());
    }
    r.push(')');
    r
}
impl Prf {
    pub fn new(d: &Rc<Decls>) -> Prf {
        Prf { decls: d.clone(), asserts: vec![], cmds: vec![], extra: String::new() }
    }
    pub fn problem(&self) -> String {
        let mut s = format!("(set-logic ALL)\n{}{}", self.decls.text(), self.extra);
        for t in &self.asserts {
            s.push_str(&format!("(assert {})\n", t));
        }
        s.push_str("(check-sat)\n");
        s
    }
    pub fn proof(&self) -> String {
        let mut s = String::new();
        for c in &self.cmds {
            match c {
                Cmd::Raw(t) => {
                    s.push_str(t);
                    s.push('\n');
                }
                Cmd::Assume(i, t) => s.push_str(&format!("(assume {} {})\n", i, t)),
                Cmd::Anchor(i, args) => {
                    s.push_str(&format!("(anchor :step {}", i));
                    if !args.is_empty() {
                        s.push_str(" :args (");
                        for a in args {
                            match a {
                                AArg::Var(n, t) => s.push_str(&format!("({} {}) ", n, t.sx())),
                                AArg::Assign(n, t, v) => s.push_str(&format!("(:= ({} {}) {}) ", n, t.sx(), v)),
                            }
                        }
                        s.push(')');
                    }
                    s.push_str(")\n");
                }
                Cmd::Step(st) => {
                    s.push_str(&format!("(step {} {} :rule {}", st.id, cl_text(&st.cl), st.rule));
                    if !st.prems.is_empty() {
                        s.push_str(&format!(" :premises ({})", st.prems.join(" ")));
                    }
                    if !st.args.is_empty() {
                        s.push_str(" :args (");
                        for x in &st.args {
                            s.push_str(&format!("{} ", x));
                        }
                        s.push(')');
                    }
                    if !st.dis.is_empty() {
                        s.push_str(&format!(" :discharge ({})", st.dis.join(" ")));
                    }
                    s.push_str(")\n");
                }
            }
        }
        s
    }
    pub fn text(&self) -> String {
        format!("{}---- proof\n{}", self.problem(), self.proof())
    }
    pub fn run(&self, o: &Opts) -> Out {
        check_text(&self.problem(), &self.proof(), o)
    }
    /// depth of every command (a closing step has the depth of its subproof's inside)
    pub fn depths(&self) -> Vec<usize> {
        let mut open: Vec<&str> = vec![];
        let mut v = vec![];
        for c in &self.cmds {
            v.push(open.len());
            match c {
                Cmd::Anchor(i, _) => open.push(i),
                _ => {
                    if c.id().is_some() && c.id() == open.last().copied() {
                        open.pop();
                    }
                }
            }
        }
        v
    }
    /// indices of steps whose conclusion holds outside every subproof
    pub fn toplevel(&self) -> Vec<usize> {
        let mut open: Vec<&str> = vec![];
        let mut v = vec![];
        for (i, c) in self.cmds.iter().enumerate() {
            match c {
                Cmd::Anchor(i, _) => open.push(i),
                _ => {
                    if c.id().is_some() && c.id() == open.last().copied() {
                        open.pop();
                    }
                    if open.is_empty() && matches!(c, Cmd::Step(_)) {
                        v.push(i);
                    }
                }
            }
        }
        v
    }
    /// identifiers visible to command `at` (in scope, defined before it)
    pub fn visible(&self, at: usize) -> Vec<String> {
        let mut frames: Vec<(String, Vec<String>)> = vec![(String::new(), vec![])];
        for c in &self.cmds[..at] {
            match c {
                Cmd::Anchor(i, _) => frames.push((i.clone(), vec![])),
                _ => {
                    if let Some(i) = c.id() {
                        if frames.len() > 1 && frames.last().unwrap().0 == i {
                            frames.pop();
                        }
                        frames.last_mut().unwrap().1.push(i.to_string());
                    }
                }
            }
        }
        frames.into_iter().flat_map(|f| f.1).collect()
    }
    /// the case that states: command `i` follows from the assertions
    pub fn as_case(&self, i: usize) -> Option<Case> {
        let cl = self.cmds[i].clause()?;
        Some(Case::new(&self.decls, "proof", "proof", self.asserts.iter().map(|t| vec![t.clone()]).collect(), cl, vec![]))
    }
    /// first top-level conclusion that does not follow from the assertions
    pub fn unsound(&self, r: &mut Rng, tries: usize, holes: &[&str]) -> Option<(usize, String)> {
        for i in self.toplevel() {
            let Cmd::Step(s) = &self.cmds[i] else { continue };
            if holes.contains(&s.rule.as_str()) {
                continue;
            }
            if let Some(m) = self.as_case(i).and_then(|c| c.countermodel(r, tries)) {
                return Some((i, m));
            }
        }
        None
    }
    pub fn terms_mut(&mut self) -> Vec<&mut Sx> {
        let mut v = vec![];
        for c in &mut self.cmds {
            match c {
                Cmd::Assume(_, t) => v.push(t),
                Cmd::Step(s) => {
                    v.extend(s.cl.iter_mut());
                    v.extend(s.args.iter_mut());
                }
                Cmd::Anchor(_, a) => {
                    for x in a {
                        if let AArg::Assign(_, _, t) = x {
                            v.push(t);
                        }
                    }
                }
                Cmd::Raw(_) => {}
            }
        }
        v
    }
}
pub fn replace_all(t: &Sx, x: &Sx, y: &Sx) -> Sx {
    if t == x {
        return y.clone();
    }
    match t {
        Sx::L(v) => l(v.iter().map(|t| replace_all(t, x, y)).collect()),
        _ => t.clone(),
    }
}
/// A random edit of the proof (terms, names, anchors, premises, rules, structure).
pub fn mutate_proof(p: &Prf, r: &mut Rng, names: &[&str], rules: &[&str], don: &[(Sx, St)]) -> Option<Prf> {
    let mut q = p.clone();
    let n = q.cmds.len();
    if n == 0 {
        return None;
    }
    match r.below(14) {
        // one term edited
        0 | 1 => {
            let d = q.decls.clone();
            let mut ts = q.terms_mut();
            if ts.is_empty() {
                return None;
            }
            let k = r.below(ts.len());
            let t = mutate_term(ts[k], r, &d, don)?;
            *ts[k] = t;
        }
        // one occurrence of a name
        2 | 3 => {
            let mut ts = q.terms_mut();
            if ts.is_empty() {
                return None;
            }
            let k = r.below(ts.len());
            let ps: Vec<_> = ts[k].paths().into_iter().filter(|p| ts[k].at(p).atom().is_some_and(|x| names.contains(&x))).collect();
            if ps.is_empty() {
                return None;
            }
            let p = r.pick(&ps).clone();
            *ts[k] = ts[k].replace(&p, &a(*r.pick(names)));
        }
        // a name, in the whole proof
        4 | 5 => {
            let (x, y) = (r.pick(names).to_string(), r.pick(names).to_string());
            for t in q.terms_mut() {
                *t = replace_all(t, &a(&x), &a(&y));
            }
            for c in &mut q.cmds {
                if let Cmd::Anchor(_, args) = c {
                    for z in args {
                        match z {
                            AArg::Var(n, _) | AArg::Assign(n, _, _) if *n == x => *n = y.clone(),
                            _ => {}
                        }
                    }
                }
            }
        }
        // a subterm, in the whole proof or from some point on
        6 => {
            let mut ts = q.terms_mut();
            if ts.is_empty() {
                return None;
            }
            let k = r.below(ts.len());
            let ps = ts[k].paths();
            let q = r.pick(&ps).clone();
            let x = ts[k].at(&q).clone();
            let y = {
                let k2 = r.below(ts.len());
                let ps = ts[k2].paths();
                let q = r.pick(&ps).clone();
                ts[k2].at(&q).clone()
            };
            let from = if r.coin() { 0 } else { r.below(ts.len()) };
            for t in ts.iter_mut().skip(from) {
                **t = replace_all(t, &x, &y);
            }
        }
        // anchors
        7 | 8 => {
            let at: Vec<usize> = (0..n).filter(|i| matches!(&q.cmds[*i], Cmd::Anchor(..))).collect();
            if at.is_empty() {
                return None;
            }
            let i = *r.pick(&at);
            let dd = don.to_vec();
            if let Cmd::Anchor(_, args) = &mut q.cmds[i] {
                match r.below(6) {
                    0 if !args.is_empty() => {
                        let k = r.below(args.len());
                        args.remove(k);
                    }
                    1 | 2 if !args.is_empty() => {
                        let k = r.below(args.len());
                        if let AArg::Assign(_, s, v) = &mut args[k] {
                            let c: Vec<&(Sx, St)> = dd.iter().filter(|x| x.1 == *s).collect();
                            if c.is_empty() {
                                return None;
                            }
                            *v = r.pick(&c).0.clone();
                        } else if let AArg::Var(nm, s) = args[k].clone() {
                            let c: Vec<&(Sx, St)> = dd.iter().filter(|x| x.1 == s).collect();
                            if c.is_empty() {
                                return None;
                            }
                            args[k] = AArg::Assign(nm, s, r.pick(&c).0.clone());
                        }
                    }
                    3 if args.len() > 1 => {
                        let (x, y) = (r.below(args.len()), r.below(args.len()));
                        args.swap(x, y);
                    }
                    4 => {
                        let c = r.pick(&dd).clone();
                        let k = r.below(args.len() + 1);
                        let nm = r.pick(names).to_string();
                        args.insert(k, if r.chance(1, 3) { AArg::Var(nm, c.1) } else { AArg::Assign(nm, c.1, c.0) });
                    }
                    _ => {
                        if args.is_empty() {
                            return None;
                        }
                        let k = r.below(args.len());
                        match &mut args[k] {
                            AArg::Var(n, _) | AArg::Assign(n, _, _) => *n = r.pick(names).to_string(),
                        }
                    }
                }
            }
        }
        // the rule of a step
        9 => {
            let at: Vec<usize> = (0..n).filter(|i| matches!(&q.cmds[*i], Cmd::Step(_))).collect();
            let i = *r.pick(&at);
            if let Cmd::Step(s) = &mut q.cmds[i] {
                s.rule = r.pick(rules).to_string();
            }
        }
        // premises
        10 | 11 => {
            let at: Vec<usize> = (0..n).filter(|i| matches!(&q.cmds[*i], Cmd::Step(_))).collect();
            let i = *r.pick(&at);
            let vis = q.visible(i);
            if vis.is_empty() {
                return None;
            }
            if let Cmd::Step(s) = &mut q.cmds[i] {
                match r.below(4) {
                    0 if !s.prems.is_empty() => {
                        let k = r.below(s.prems.len());
                        s.prems.remove(k);
                    }
                    1 => s.prems.push(r.pick(&vis).clone()),
                    2 if !s.dis.is_empty() => {
                        let k = r.below(s.dis.len());
                        if r.coin() {
                            s.dis.remove(k);
                        } else {
                            s.dis[k] = r.pick(&vis).clone();
                        }
                    }
                    _ => {
                        if s.prems.is_empty() {
                            return None;
                        }
                        let k = r.below(s.prems.len());
                        s.prems[k] = r.pick(&vis).clone();
                    }
                }
            }
        }
        // literals of a clause
        12 => {
            let at: Vec<usize> = (0..n).filter(|i| matches!(&q.cmds[*i], Cmd::Step(s) if !s.cl.is_empty())).collect();
            if at.is_empty() {
                return None;
            }
            let i = *r.pick(&at);
            if let Cmd::Step(s) = &mut q.cmds[i] {
                let k = r.below(s.cl.len());
                match r.below(3) {
                    0 => {
                        s.cl.remove(k);
                    }
                    1 => {
                        let x = s.cl[k].clone();
                        s.cl.push(x);
                    }
                    _ => s.cl[k] = if s.cl[k].is_op("not") && r.coin() { s.cl[k].args()[0].clone() } else { not(&s.cl[k]) },
                }
            }
        }
        // structure
        _ => {
            let i = r.below(n);
            if r.coin() {
                q.cmds.remove(i);
            } else {
                let j = r.below(n);
                let c = q.cmds.remove(i);
                q.cmds.insert(j.min(q.cmds.len()), c);
            }
        }
    }
    if q.cmds == p.cmds {
        return None;
    }
    Some(q)
}
/// Replaces the final hole of a generated proof by a real refutation: the negation of some derived
/// top-level clause is asserted, assumed and resolved against it.
pub fn refute(p: &Prf, r: &mut Rng) -> Option<Prf> {
    let mut q = p.clone();
    let Some(Cmd::Step(s)) = q.cmds.pop() else { return None };
    if s.id != "end" {
        return None;
    }
    let c: Vec<usize> = q
        .toplevel()
        .into_iter()
        .filter(|i| {
            let Cmd::Step(s) = &q.cmds[*i] else { return false };
            !s.cl.is_empty() && s.cl.iter().enumerate().all(|(i, x)| !s.cl[..i].contains(x) && !s.cl.contains(&not(x)) && x.atom() != Some("true"))
        })
        .collect();
    if c.is_empty() {
        return None;
    }
    let i = *r.pick(&c);
    let Cmd::Step(s) = q.cmds[i].clone() else { unreachable!() };
    let mut prems = vec![s.id.clone()];
    let early = r.coin();
    for (k, x) in s.cl.iter().enumerate() {
        let nx = not(x);
        q.asserts.push(nx.clone());
        let id = format!("ng{}", k);
        let c = Cmd::Assume(id.clone(), nx);
        if early {
            q.cmds.insert(0, c);
        } else {
            q.cmds.push(c);
        }
        prems.push(id);
    }
    q.cmds.push(Cmd::Step(Step { id: "end".into(), cl: vec![], rule: "resolution".into(), prems, ..Step::default() }));
    Some(q)
}
