//! Scoping of step identifiers, subproofs, local assumptions and bound variables.
use super::c07;
use super::c28::decls;
use super::Ctx;
use crate::proof::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

fn u() -> St {
    St::U(Rc::from("U"))
}
fn anchors(p: &Prf) -> Vec<(usize, usize)> {
    let mut open: Vec<(usize, &str)> = vec![];
    let mut v = vec![];
    for (i, c) in p.cmds.iter().enumerate() {
        match c {
            Cmd::Anchor(x, _) => open.push((i, x)),
            _ => {
                if let Some(&(j, x)) = open.last() {
                    if c.id() == Some(x) {
                        open.pop();
                        v.push((j, i));
                    }
                }
            }
        }
    }
    v
}
/// a place where an extra step does not disturb anything
fn spots(p: &Prf) -> Vec<usize> {
    let an = anchors(p);
    (0..=p.cmds.len())
        .filter(|&i| {
            let dep = an.iter().filter(|a| a.0 < i && i <= a.1).count();
            if dep == 0 {
                return true;
            }
            !matches!(p.cmds[i], Cmd::Assume(..)) && !an.iter().any(|a| a.1 == i)
        })
        .collect()
}
fn step(id: &str, cl: Vec<Sx>, rule: &str, prems: Vec<String>) -> Cmd {
    Cmd::Step(Step { id: id.into(), cl, rule: rule.into(), prems, ..Step::default() })
}
fn strange(r: &mut Rng, k: usize) -> String {
    match r.below(8) {
        7 => "||".into(),
        0 => format!("|id {}|", k),
        1 => format!("|{}(|", k),
        2 => format!("t{}.t1.h2", k),
        3 => format!("@{}", k),
        4 => format!("~!{}%&", k),
        5 => format!("|;{}\n|", k),
        _ => format!("true{}", k),
    }
}
/// the definitions visible to command `at`
fn sees(p: &Prf, at: usize) -> Vec<usize> {
    let mut frames: Vec<(String, Vec<usize>)> = vec![(String::new(), vec![])];
    for (k, c) in p.cmds[..at].iter().enumerate() {
        match c {
            Cmd::Anchor(i, _) => frames.push((i.clone(), vec![])),
            _ => {
                if let Some(i) = c.id() {
                    if frames.len() > 1 && frames.last().unwrap().0 == i {
                        frames.pop();
                    }
                    frames.last_mut().unwrap().1.push(k);
                }
            }
        }
    }
    frames.into_iter().flat_map(|f| f.1).collect()
}
/// renames the identifier defined by command `i` and every reference to it
fn rename_id(p: &mut Prf, i: usize, new: &str) {
    let old = p.cmds[i].id().unwrap().to_string();
    // references: later commands that see this very definition
    let refs: Vec<usize> = (i + 1..p.cmds.len()).filter(|k| sees(p, *k).contains(&i)).collect();
    for k in refs {
        if let Cmd::Step(s) = &mut p.cmds[k] {
            for x in s.prems.iter_mut().chain(s.dis.iter_mut()) {
                if *x == old {
                    *x = new.to_string();
                }
            }
        }
    }
    let an = anchors(p);
    match &mut p.cmds[i] {
        Cmd::Assume(x, _) => *x = new.to_string(),
        Cmd::Step(s) => s.id = new.to_string(),
        _ => {}
    }
    for (a, b) in an {
        if b == i {
            if let Cmd::Anchor(x, _) = &mut p.cmds[a] {
                *x = new.to_string();
            }
        }
    }
}
/// An edit after which the proof must be rejected.
fn break_scope(p: &Prf, r: &mut Rng) -> Option<(&'static str, Prf)> {
    let mut q = p.clone();
    let n = q.cmds.len();
    let steps: Vec<usize> = (0..n).filter(|&i| matches!(q.cmds[i], Cmd::Step(_))).collect();
    let an = anchors(&q);
    let sp = spots(&q);
    let any = |q: &Prf, r: &mut Rng| -> usize {
        let c: Vec<usize> = (0..q.cmds.len()).filter(|&i| q.cmds[i].id().is_some()).collect();
        *r.pick(&c)
    };
    // adds a citation to step i: as an extra premise, or by an extra hole step right before it
    let cite = |q: &mut Prf, r: &mut Rng, i: usize, id: String| {
        if let Cmd::Step(s) = &mut q.cmds[i] {
            if r.chance(1, 3) && !s.prems.is_empty() {
                let k = r.below(s.prems.len());
                s.prems[k] = id;
            } else {
                let k = r.below(s.prems.len() + 1);
                s.prems.insert(k, id);
            }
        }
    };
    Some(match r.below(20) {
        0 => {
            let i = *r.pick(&steps);
            let x = ["nope", "s", "S1", "s1.", "|s1 |", "s01", "end2"][r.below(7)];
            cite(&mut q, r, i, x.to_string());
            ("undefined", q)
        }
        1 => {
            let i = *r.pick(&steps);
            let id = q.cmds[i].id().unwrap().to_string();
            cite(&mut q, r, i, id);
            ("self", q)
        }
        2 => {
            let i = *r.pick(&steps);
            let c: Vec<usize> = (i + 1..n).filter(|&j| q.cmds[j].id().is_some()).collect();
            if c.is_empty() {
                return None;
            }
            let id = q.cmds[*r.pick(&c)].id().unwrap().to_string();
            if q.visible(i).contains(&id) {
                return None;
            }
            cite(&mut q, r, i, id);
            ("later", q)
        }
        3 | 4 => {
            // local to a closed subproof
            if an.is_empty() {
                return None;
            }
            let (x, y) = *r.pick(&an);
            let inner: Vec<usize> = (x + 1..y).filter(|&j| q.cmds[j].id().is_some()).collect();
            let after: Vec<usize> = steps.iter().copied().filter(|&j| j > y).collect();
            if inner.is_empty() || after.is_empty() {
                return None;
            }
            let id = q.cmds[*r.pick(&inner)].id().unwrap().to_string();
            let i = *r.pick(&after);
            if q.visible(i).contains(&id) {
                return None;
            }
            cite(&mut q, r, i, id);
            ("closed", q)
        }
        5 | 6 => {
            // a name already in scope
            let i = any(&q, r);
            let vis = q.visible(i);
            if vis.is_empty() {
                return None;
            }
            let mut new = r.pick(&vis).clone();
            if !new.contains('|') && r.chance(1, 4) {
                new = format!("|{}|", new);
            }
            if r.coin() {
                rename_id(&mut q, i, &new);
            } else {
                let s = *r.pick(&sp);
                let vis = q.visible(s);
                if vis.is_empty() {
                    return None;
                }
                let new = r.pick(&vis).clone();
                q.cmds.insert(s, step(&new, vec![tt()], "true", vec![]));
            }
            ("duplicate", q)
        }
        7 => {
            // a subproof named like something in scope
            let s = *r.pick(&sp);
            let vis = q.visible(s);
            if vis.is_empty() {
                return None;
            }
            let id = r.pick(&vis).clone();
            q.cmds.insert(s, Cmd::Anchor(id.clone(), vec![]));
            q.cmds.insert(s + 1, step("k1", vec![eq(&a("a"), &a("a"))], "eq_reflexive", vec![]));
            q.cmds.insert(s + 2, step(&id, vec![eq(&a("a"), &a("a"))], "subproof", vec![]));
            ("duplicate-anchor", q)
        }
        8 => {
            // a closing step goes missing (or gets another name)
            if an.is_empty() {
                return None;
            }
            let (_, y) = *r.pick(&an);
            if r.coin() {
                q.cmds.remove(y);
            } else if let Cmd::Step(s) = &mut q.cmds[y] {
                s.id = "other".into();
            }
            ("unclosed", q)
        }
        9 => {
            let at = if r.coin() { n } else { *r.pick(&sp) };
            q.cmds.insert(at, Cmd::Anchor("open".into(), vec![]));
            if r.coin() {
                q.cmds.insert(at + 1, step("k1", vec![tt()], "true", vec![]));
            }
            ("unclosed-extra", q)
        }
        10 => {
            let at = *r.pick(&sp);
            let args = if r.coin() { vec![AArg::Var("q1".into(), u())] } else { vec![] };
            q.cmds.insert(at, Cmd::Anchor("em".into(), args));
            let rule = *r.pick(&["hole", "subproof", "bind", "let", "true"]);
            q.cmds.insert(at + 1, step("em", vec![tt()], rule, vec![]));
            ("empty", q)
        }
        11 => {
            let at = *r.pick(&sp);
            q.cmds.insert(at, Cmd::Anchor("as".into(), vec![]));
            let x = if r.coin() { Cmd::Assume("k1".into(), a("p")) } else { step("k1", vec![tt()], "true", vec![]) };
            q.cmds.insert(at + 1, x);
            q.cmds.insert(at + 2, Cmd::Assume("as".into(), a("p")));
            ("closed-by-assume", q)
        }
        12 => {
            // a local assumption is not discharged
            let c: Vec<usize> = steps.iter().copied().filter(|&i| matches!(&q.cmds[i], Cmd::Step(s) if !s.dis.is_empty())).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            if let Cmd::Step(s) = &mut q.cmds[i] {
                let k = r.below(s.dis.len());
                s.dis.remove(k);
                if r.coin() {
                    s.cl.remove(k);
                }
            }
            ("undischarged", q)
        }
        19 => {
            // something else is discharged instead: another local or an outer assumption
            let c: Vec<usize> = steps.iter().copied().filter(|&i| matches!(&q.cmds[i], Cmd::Step(s) if !s.dis.is_empty())).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let Cmd::Step(s) = q.cmds[i].clone() else { return None };
            let other: Vec<usize> = sees(&q, i).into_iter().filter(|&j| matches!(&q.cmds[j], Cmd::Assume(x, _) if !s.dis.contains(x))).collect();
            let vis = q.visible(i);
            if other.is_empty() || s.dis.iter().any(|x| !vis.contains(x)) {
                return None;
            }
            let k = r.below(s.dis.len());
            let Cmd::Assume(x, t) = q.cmds[*r.pick(&other)].clone() else { return None };
            if s.dis.iter().filter(|y| **y == s.dis[k]).count() > 1 {
                return None;
            }
            if let Cmd::Step(s) = &mut q.cmds[i] {
                s.dis[k] = x;
                s.cl[k] = not(&t);
            }
            ("discharged-other", q)
        }
        13 => {
            // an additional local assumption, in any kind of subproof
            let c: Vec<(usize, usize)> = an.iter().copied().filter(|x| !matches!(&q.cmds[x.1], Cmd::Step(s) if s.rule == "hole")).collect();
            if c.is_empty() {
                return None;
            }
            let (x, _) = *r.pick(&c);
            q.cmds.insert(x + 1, Cmd::Assume("k1".into(), a(*r.pick(&["p", "q", "true", "false"]))));
            ("extra-local-assumption", q)
        }
        14 => {
            // an assumption after a step in a subproof
            let c: Vec<usize> = steps.iter().copied().filter(|&i| an.iter().any(|x| x.0 < i && i < x.1)).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            q.cmds.insert(i + 1, Cmd::Assume("k1".into(), a("p")));
            if an.iter().any(|x| x.1 == i && !an.iter().any(|y| y.0 < i && i < y.1)) {
                return None;
            }
            ("late-assumption", q)
        }
        15 => {
            // a variable bound by a closed anchor, used after it
            let c: Vec<(usize, usize)> = an.iter().copied().filter(|x| matches!(&q.cmds[x.0], Cmd::Anchor(_, v) if !v.is_empty())).collect();
            if c.is_empty() {
                return None;
            }
            let (x, y) = *r.pick(&c);
            let Cmd::Anchor(_, args) = &q.cmds[x] else { return None };
            let (AArg::Var(nm, _) | AArg::Assign(nm, _, _)) = r.pick(args).clone();
            if q.decls.get(&nm).is_some() {
                return None;
            }
            // not bound again around the place of use
            let after: Vec<usize> = sp
                .iter()
                .copied()
                .filter(|&s| {
                    (s > y || s <= x)
                        && !an.iter().any(|b| {
                            b.0 < s && s <= b.1 && matches!(&q.cmds[b.0], Cmd::Anchor(_, v) if v.iter().any(|z| matches!(z, AArg::Var(n, _) | AArg::Assign(n, _, _) if *n == nm)))
                        })
                })
                .collect();
            if after.is_empty() {
                return None;
            }
            let s = *r.pick(&after);
            q.cmds.insert(s, step("k1", vec![eq(&a(&nm), &a(&nm))], *r.pick(&["eq_reflexive", "hole", "refl"]), vec![]));
            ("anchor-variable", q)
        }
        16 | 17 => {
            // a variable bound by a term, used outside it
            let t = r.below(9);
            let b = |h: &str, x: &str| format!("({} ((v9 U)) {})", h, x);
            let t = match t {
                0 => format!("(and {} (P v9))", b("forall", "(P v9)")),
                1 => format!("(and (P v9) {})", b("exists", "(P v9)")),
                2 => "(let ((v9 a) (w9 v9)) (P w9))".to_string(),
                3 => "(let ((w9 v9) (v9 a)) (P w9))".to_string(),
                4 => "(or (let ((v9 a)) (P v9)) (P v9))".to_string(),
                5 => "(R (choice ((v9 U)) (P v9)) v9)".to_string(),
                6 => "(forall ((x9 U)) (=> (forall ((v9 U)) (P v9)) (R x9 v9)))".to_string(),
                7 => "(let ((x9 (let ((v9 a)) v9))) (R x9 v9))".to_string(),
                _ => "(= (lambda ((v9 U)) (P v9)) (lambda ((x9 U)) (P v9)))".to_string(),
            };
            let s = *r.pick(&sp);
            match r.below(3) {
                0 => q.cmds.insert(s, step("k1", vec![parse(&t)], "hole", vec![])),
                1 => q.asserts.push(parse(&t)),
                _ => q.cmds.insert(s, step("k1", vec![eq(&parse(&t), &parse(&t))], "eq_reflexive", vec![])),
            }
            ("term-variable", q)
        }
        _ => {
            // the value of an anchor argument uses a later or the same argument
            let s = *r.pick(&sp);
            let args = if r.coin() {
                vec![AArg::Assign("x9".into(), u(), a("y9")), AArg::Var("y9".into(), u())]
            } else {
                vec![AArg::Assign("x9".into(), u(), a("x9"))]
            };
            q.cmds.insert(s, Cmd::Anchor("av".into(), args));
            q.cmds.insert(s + 1, step("k1", vec![eq(&a("a"), &a("a"))], "eq_reflexive", vec![]));
            q.cmds.insert(s + 2, step("av", vec![ff()], "hole", vec![]));
            ("anchor-value", q)
        }
    })
}
/// An edit that keeps the proof well-scoped.
fn keep_scope(p: &Prf, r: &mut Rng) -> (&'static str, Prf) {
    let mut q = p.clone();
    let mut what = "same";
    for _ in 0..1 + r.below(4) {
        let n = q.cmds.len();
        let an = anchors(&q);
        let ids: Vec<usize> = (0..n).filter(|&i| q.cmds[i].id().is_some()).collect();
        match r.below(7) {
            // strange names
            0 => {
                let i = *r.pick(&ids);
                let s = strange(r, 100 + r.clone().below(800));
                if !ids.iter().any(|&k| q.cmds[k].id() == Some(&s)) {
                    rename_id(&mut q, i, &s);
                }
            }
            // names of one subproof reused in a disjoint one, or outside after it is closed
            1 | 2 | 3 => {
                let c: Vec<(usize, usize)> = ids
                    .iter()
                    .flat_map(|&i| ids.iter().map(move |&j| (i, j)))
                    .filter(|&(i, j)| {
                        // i local to a subproof closed before j
                        i < j && an.iter().any(|x| x.0 < i && i < x.1 && x.1 < j) && q.cmds[i].id() != q.cmds[j].id()
                    })
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let (i, j) = *r.pick(&c);
                let id = q.cmds[i].id().unwrap().to_string();
                // nobody in the scope of j may have or take that name
                let mut t = q.clone();
                rename_id(&mut t, j, &id);
                if !unique(&t) {
                    continue;
                }
                q = t;
                what = "reuse";
            }
            // an inner name equal to a later outer name
            4 => {
                let c: Vec<(usize, usize)> = ids
                    .iter()
                    .flat_map(|&i| ids.iter().map(move |&j| (i, j)))
                    .filter(|&(i, j)| i < j && an.iter().any(|x| x.0 < i && i < x.1 && x.1 < j))
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let (i, j) = *r.pick(&c);
                let id = q.cmds[j].id().unwrap().to_string();
                let mut t = q.clone();
                rename_id(&mut t, i, &id);
                if unique(&t) {
                    q = t;
                    what = "reuse-later";
                }
            }
            // the same identifiers in another spelling
            5 => {
                let mut k = 0;
                for c in &mut q.cmds {
                    if let Cmd::Step(s) = c {
                        for x in s.prems.iter_mut().chain(s.dis.iter_mut()) {
                            if !x.contains('|') && r.coin() {
                                *x = format!("|{}|", x);
                                k += 1;
                            }
                        }
                    }
                }
                return (if k > 0 { "spelling" } else { what }, q);
            }
            // relative names of discharged assumptions
            _ => {
                let c: Vec<usize> = (0..n).filter(|&i| matches!(&q.cmds[i], Cmd::Step(s) if !s.dis.is_empty() && !s.id.contains('|'))).collect();
                if c.is_empty() {
                    continue;
                }
                let i = *r.pick(&c);
                let Cmd::Step(s) = q.cmds[i].clone() else { continue };
                let k = r.below(s.dis.len());
                if s.dis.iter().filter(|x| **x == s.dis[k]).count() > 1 {
                    continue;
                }
                let Some(j) = (0..i).rev().find(|&j| q.cmds[j].id() == Some(&s.dis[k])) else { continue };
                if !matches!(q.cmds[j], Cmd::Assume(..)) {
                    continue;
                }
                let new = format!("{}.h{}", s.id, k);
                if ids.iter().any(|&k| q.cmds[k].id() == Some(&new)) {
                    continue;
                }
                rename_id(&mut q, j, &new);
                if let Cmd::Step(s) = &mut q.cmds[i] {
                    s.dis[k] = format!("h{}", k);
                }
                return ("relative-discharge", q);
            }
        }
    }
    (what, q)
}
/// no identifier is defined while it is visible
fn unique(p: &Prf) -> bool {
    (0..p.cmds.len()).all(|i| p.cmds[i].id().is_none_or(|x| !p.visible(i).iter().any(|y| y == x)))
        // a step must not be taken for the end of the subproof it is in
        && {
            let mut open: Vec<&str> = vec![];
            let mut ok = true;
            for c in &p.cmds {
                if let Cmd::Anchor(x, _) = c {
                    open.push(x)
                } else if let Some(x) = c.id() {
                    if open.last() == Some(&x) {
                        open.pop();
                    } else if open.contains(&x) {
                        ok = false;
                    }
                }
            }
            ok && open.is_empty()
        }
        && anchors(p).iter().all(|&(_, y)| matches!(p.cmds[y], Cmd::Step(_)))
}
pub fn run(c: &mut Ctx) {
    let d = Rc::new(decls());
    let n = c.iters(700);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let (p, _) = c07::make(r, &d, 0);
        let p = refute(&p, r).unwrap_or(p);
        let nan = anchors(&p).len();
        for _ in 0..4 {
            let (what, q) = keep_scope(&p, r);
            if anchors(&q).len() != nan {
                c.rep.count("skipped");
                continue;
            }
            crate::watch::set(|| q.text());
            let o = q.run(&Opts::default());
            c.rep.seen(&q.proof());
            c.rep.count(&format!("keep:{}:{}", what, o.kind()));
            c.rep.sample(|| q.proof());
            if !o.accepted() {
                c.rep.violation(&format!("rejected:{}", what), format!("well-scoped proof was not accepted: {:?}", o), q.text());
            }
        }
        for _ in 0..8 {
            let base = if r.chance(1, 3) { keep_scope(&p, r).1 } else { p.clone() };
            if let Some((what, q)) = break_scope(&base, r) {
                crate::watch::set(|| q.text());
                // neither option tolerates a scoping error
                let mut o = Opts::default();
                if r.chance(1, 4) {
                    o.checker.ignore_unknown_rules = true;
                }
                let o = q.run(&o);
                c.rep.seen(&q.proof());
                c.rep.count(&format!("break:{}:{}", what, o.kind()));
                match o {
                    Out::Reject(..) | Out::ParseErr(_) => {}
                    o => c.rep.violation(&format!("accepted:{}", what), format!("proof with a scoping error ({}) was not rejected: {:?}", what, o), q.text()),
                }
            }
        }
    }
}
