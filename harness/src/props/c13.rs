//! Steps citing user-supplied rewrite rules.
use super::Ctx;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sorts::*;
use crate::sx::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
struct Param {
    name: String,
    /// None: of the polymorphic sort @T
    sort: Option<St>,
    list: bool,
}
#[derive(Clone)]
struct Rule {
    name: String,
    types: Vec<&'static str>,
    params: Vec<(Param, &'static str)>,
    args: Vec<usize>,
    prems: Vec<Sx>,
    concl: Sx,
    /// the sorts at which the polymorphic lists are used
    tys: HashMap<&'static str, St>,
}
const NAMES: &[&str] = &["x1", "y1", "xs", "ys", "zs", "p", "x", "a", "|a b|", "t_1", "@v", "f"];
const SORTS: &[St] = &[St::Bool, St::Int, St::Bool, St::Int, St::Bv(4)];

struct Tg<'a> {
    r: &'a mut Rng,
    ps: &'a [(Param, &'static str)],
    tys: &'a HashMap<&'static str, St>,
}
impl Tg<'_> {
    fn var(&mut self, s: &Option<St>, ty: &str) -> Option<Sx> {
        let v: Vec<&str> = self
            .ps
            .iter()
            .filter(|(p, t)| !p.list && p.sort == *s && (s.is_some() || *t == ty))
            .map(|(p, _)| p.name.as_str())
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(a(*self.r.pick::<&str>(&v)))
        }
    }
    /// operands of an n-ary operator over `s`, lists among them
    fn many(&mut self, s: &St, d: usize) -> Vec<Sx> {
        let n = 2 + self.r.below(3);
        let lists: Vec<String> = self
            .ps
            .iter()
            .filter(|(p, ty)| p.list && (p.sort.as_ref() == Some(s) || p.sort.is_none() && self.tys[*ty] == *s))
            .map(|(p, _)| p.name.clone())
            .collect();
        (0..n)
            .map(|_| if !lists.is_empty() && self.r.coin() { a(&self.r.pick(&lists).clone()) } else { self.term(s, d) })
            .collect()
    }
    fn term(&mut self, s: &St, d: usize) -> Sx {
        if d == 0 || self.r.chance(1, 5) {
            if self.r.chance(6, 7) {
                if let Some(v) = self.var(&Some(s.clone()), "") {
                    return v;
                }
            }
            return match s {
                St::Bool => a(*self.r.pick(&["true", "false"])),
                St::Int => a(*self.r.pick(&["0", "1", "7"])),
                St::Bv(_) => a(*self.r.pick(&["#b0000", "#b0101"])),
                _ => unreachable!(),
            };
        }
        let d = d - 1;
        match s {
            St::Bool => match self.r.below(11) {
                0..=3 => {
                    let v = self.many(s, d);
                    let op = *self.r.pick(&["and", "or", "and", "or", "xor", "distinct", "="]);
                    app(op, &v)
                }
                4 => not(&self.term(s, d)),
                5 => f("(=> ?0 ?1)", &[&self.term(s, d), &self.term(s, d)]),
                6 => {
                    if self.r.chance(1, 5) {
                        let v = self.many(&St::Bv(4), d);
                        return app(*self.r.pick(&["=", "distinct"]), &v);
                    }
                    let v = self.many(&St::Int, d);
                    app(*self.r.pick(&["<", ">=", "=", "distinct"]), &v)
                }
                7 => {
                    let ty = *self.r.pick(&["@T0", "@T1"]);
                    let (Some(x), Some(y)) = (self.var(&None, ty), self.var(&None, ty)) else {
                        return self.term(s, d);
                    };
                    eq(&x, &y)
                }
                8 => {
                    let q = *self.r.pick(&["forall", "exists"]);
                    let b = self.term(s, d);
                    parse(&format!("({q} ((bz Int)) (or {b} (< bz {})))", self.term(&St::Int, d)))
                }
                9 => f("(ite ?0 ?1 ?2)", &[&self.term(s, d), &self.term(s, d), &self.term(s, d)]),
                _ => eq(&self.term(s, d), &self.term(s, d)),
            },
            St::Bv(_) => match self.r.below(5) {
                0..=2 => {
                    let v = self.many(s, d);
                    app(*self.r.pick(&["bvadd", "bvand", "bvor", "bvxor", "bvmul"]), &v)
                }
                3 => f("(ite ?0 ?1 ?2)", &[&self.term(&St::Bool, d), &self.term(s, d), &self.term(s, d)]),
                _ => f("(bvnot ?0)", &[&self.term(s, d)]),
            },
            _ => match self.r.below(4) {
                0 | 1 => {
                    let v = self.many(s, d);
                    app(*self.r.pick(&["+", "*", "-"]), &v)
                }
                2 => f("(ite ?0 ?1 ?2)", &[&self.term(&St::Bool, d), &self.term(s, d), &self.term(s, d)]),
                _ => f("(- ?0)", &[&self.term(s, d)]),
            },
        }
    }
}
fn rule(r: &mut Rng, i: usize, w: &World) -> Rule {
    let mut tys: HashMap<&'static str, St> = HashMap::new();
    for t in ["@T0", "@T1"] {
        tys.insert(t, [St::Bool, St::Int, w.u.clone(), St::Bool][r.below(4)].clone());
    }
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    let n = 1 + r.below(4);
    let mut types = vec![];
    let mut params = vec![];
    for nm in names.iter().take(n) {
        let list = r.chance(2, 5);
        let (sort, ty) = match r.below(7) {
            0 | 1 => (None, *r.pick(&["@T0", "@T1"])),
            2 => (Some(St::Int), "Int"),
            3 => (Some(St::Bv(4)), "(_ BitVec 4)"),
            _ => (Some(St::Bool), "Bool"),
        };
        if sort.is_none() && !types.contains(&ty) {
            types.push(ty);
        }
        params.push((Param { name: nm.to_string(), sort, list }, ty));
    }
    let mut args: Vec<usize> = (0..n).collect();
    r.shuffle(&mut args);
    let np = *r.pick(&[0, 0, 1, 2]);
    let mut g = Tg { r, ps: &params, tys: &tys };
    let prems = (0..np).map(|_| g.term(&St::Bool, 2)).collect();
    let s = g.r.pick(SORTS).clone();
    let concl = if g.r.chance(1, 8) {
        g.term(&St::Bool, 3)
    } else {
        let (lhs, rhs) = (g.term(&s, 3), g.term(&s, 2));
        eq(&lhs, &rhs)
    };
    let name = match i {
        0 => "|r 0|".to_string(),
        _ => format!("rule-{i}"),
    };
    Rule { name, types, params, args, prems, concl, tys }
}
fn rule_text(r: &mut Rng, x: &Rule) -> String {
    let mut s = format!("(declare-rare-rule {} (", x.name);
    for t in &x.types {
        s.push_str(&format!("({t} Type) "));
    }
    for (p, ty) in &x.params {
        s.push_str(&format!("({} {ty}{}) ", p.name, if p.list { " :list" } else { "" }));
    }
    s.push_str(")\n");
    let mut parts = vec![format!("  :args ({})\n", x.args.iter().map(|i| x.params[*i].0.name.clone()).collect::<Vec<_>>().join(" "))];
    if !x.prems.is_empty() || r.coin() {
        parts.push(format!("  :premises ({})\n", x.prems.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(" ")));
    }
    parts.push(format!("  :conclusion {}\n", x.concl));
    if r.chance(1, 4) {
        r.shuffle(&mut parts);
    }
    s + &parts.concat() + ")\n"
}
fn is_list(t: &Sx) -> bool {
    t.atom() == Some("rare-list") || t.is_op("rare-list")
}
fn elems(t: &Sx) -> &[Sx] {
    if t.is_op("rare-list") {
        t.args()
    } else {
        &[]
    }
}
/// the template under the map, lists spliced in place
fn fill(t: &Sx, m: &HashMap<String, (Sx, bool)>) -> Vec<Sx> {
    match t {
        Sx::A(n) => match m.get(&**n) {
            Some((v, true)) if is_list(v) => elems(v).to_vec(),
            Some((v, _)) => vec![v.clone()],
            None => vec![t.clone()],
        },
        Sx::L(v) => {
            if t.op().is_some_and(|(o, _)| o == "forall" || o == "exists") {
                let body = fill(&v[2], m);
                return vec![l([vec![v[0].clone(), v[1].clone()], body].concat())];
            }
            let mut o = vec![v[0].clone()];
            for x in &v[1..] {
                o.extend(fill(x, m));
            }
            if o.len() == 1 {
                return o;
            }
            vec![l(o)]
        }
    }
}
/// flattened lists, and the values of empty and of decided unary connectives
fn norm(t: &Sx) -> Sx {
    match t {
        Sx::A(n) => match &**n {
            "or" => ff(),
            "and" => tt(),
            _ => t.clone(),
        },
        Sx::L(v) if !v.is_empty() => {
            let mut o = vec![v[0].clone()];
            for x in &v[1..] {
                if is_list(x) {
                    o.extend(elems(x).iter().map(norm));
                } else {
                    o.push(norm(x));
                }
            }
            if o.len() == 1 {
                return norm(&o[0]);
            }
            let x = l(o);
            if x.is_op("or") && x.args() == [tt()] {
                tt()
            } else if x.is_op("and") && x.args() == [ff()] {
                ff()
            } else {
                x
            }
        }
        _ => t.clone(),
    }
}
fn tame(t: &Sx) -> bool {
    match t {
        Sx::A(_) => true,
        Sx::L(v) => {
            if t.op().is_some_and(|(o, _)| ["forall", "exists", "choice", "let"].contains(&o)) {
                return tame(&v[2]);
            }
            if t.is_op("rare-list") || v.len() < 2 {
                return false;
            }
            if let Some((o, x)) = t.op() {
                let one = x.len() == 1;
                if one && (o == "or" && x[0] == tt() || o == "and" && x[0] == ff() || ["xor", "distinct", "=", "+", "*", "<", ">=", "bvadd", "bvand", "bvor", "bvxor", "bvmul"].contains(&o)) {
                    return false;
                }
            }
            v[1..].iter().all(tame)
        }
    }
}
fn has_false_atom(t: &Sx) -> bool {
    // an operator left without operands, or one atom where a list vanished
    match t {
        Sx::A(n) => ["and", "or", "xor", "distinct", "=", "+", "*", "<", ">=", "-", "bvadd", "bvand", "bvor", "bvxor", "bvmul"].contains(&&**n),
        Sx::L(v) => v[1..].iter().any(has_false_atom),
    }
}
/// what the step must conclude, from what premises; None if it is no instance of any rule
fn expected(rules: &[Rule], c: &Case) -> Option<(Vec<Sx>, Sx)> {
    let name = c.args.first()?.atom()?.strip_prefix('"')?.strip_suffix('"')?;
    let r = rules.iter().find(|r| r.name.trim_matches('|') == name)?;
    if r.args.len() + 1 != c.args.len() {
        return None;
    }
    let mut m = HashMap::new();
    for (i, v) in r.args.iter().zip(&c.args[1..]) {
        let p = &r.params[*i].0;
        if is_list(v) && !p.list {
            return None;
        }
        if let Some(s) = &p.sort {
            let es = if is_list(v) { elems(v).to_vec() } else { vec![v.clone()] };
            if es.iter().any(|e| sort_of(e, &c.decls, &mut vec![]).is_some_and(|t| t != *s)) {
                return None;
            }
        }
        m.insert(p.name.clone(), (v.clone(), p.list));
    }
    let one = |t: &Sx| {
        let v = fill(t, &m);
        if v.len() == 1 {
            Some(v[0].clone())
        } else {
            None
        }
    };
    Some((r.prems.iter().map(one).collect::<Option<Vec<_>>>()?, one(&r.concl)?))
}
fn instance(r: &mut Rng, w: &World, rules: &[Rule], text: &Rc<str>) -> Option<Case> {
    let x = r.pick(rules).clone();
    let tys = &x.tys;
    let mut args = vec![a(&format!("\"{}\"", x.name.trim_matches('|')))];
    for i in &x.args {
        let (p, ty) = &x.params[*i];
        let s = p.sort.clone().unwrap_or_else(|| tys[ty].clone());
        let t = |r: &mut Rng| {
            let d = r.below(3);
            w.t(r, &s, d)
        };
        if p.list {
            let n = *r.pick(&[0, 1, 2, 2, 3, 5]);
            let v: Vec<Sx> = (0..n).map(|_| t(r)).collect();
            args.push(if n == 0 { a("rare-list") } else { app("rare-list", &v) });
        } else {
            args.push(t(r));
        }
    }
    let mut c = Case::new(&w.d, "rare", "rare_rewrite", vec![], vec![], args);
    c.rules = Some(text.clone());
    let (ps, co) = expected(rules, &c)?;
    c.prems = ps.into_iter().map(|p| vec![p]).collect();
    c.concl = vec![co];
    Some(c)
}
/// is this step exactly an instance?
fn exact(rules: &[Rule], c: &Case) -> Result<(), String> {
    let Some((ps, co)) = expected(rules, c) else {
        return Err("no rule applies to these arguments".into());
    };
    if c.concl.len() != 1 || norm(&c.concl[0]) != norm(&co) {
        return Err(format!("the rule concludes {co}"));
    }
    if ps.len() != c.prems.len() {
        return Err(format!("the rule has {} premises", ps.len()));
    }
    for (p, q) in ps.iter().zip(&c.prems) {
        if q.len() != 1 || norm(&q[0]) != norm(p) {
            return Err(format!("the rule's premise is {p}"));
        }
    }
    Ok(())
}
fn edit_args(r: &mut Rng, c: &Case, rules: &[Rule]) -> Option<Case> {
    let mut c = c.clone();
    if c.args.len() < 2 {
        return None;
    }
    let i = 1 + r.below(c.args.len() - 1);
    match r.below(8) {
        0 => c.args[0] = a(&format!("\"{}\"", r.pick(rules).name.trim_matches('|'))),
        1 => {
            let j = 1 + r.below(c.args.len() - 1);
            if c.args[i] == c.args[j] {
                return None;
            }
            c.args.swap(i, j);
        }
        2 => {
            c.args.remove(i);
        }
        3 => {
            let x = c.args[i].clone();
            c.args.insert(i, x);
        }
        4 if !is_list(&c.args[i]) => {
            let x = c.args[i].clone();
            c.args[i] = app("rare-list", &[x]);
        }
        4 | 5 if is_list(&c.args[i]) => {
            let mut v = elems(&c.args[i]).to_vec();
            match r.below(4) {
                0 if v.len() > 1 => v.reverse(),
                1 if !v.is_empty() => {
                    v.pop();
                }
                2 if !v.is_empty() => v.push(v[0].clone()),
                _ if v.len() == 1 => {
                    c.args[i] = v[0].clone();
                    return Some(c);
                }
                _ => v.push(tt()),
            }
            c.args[i] = if v.is_empty() { a("rare-list") } else { app("rare-list", &v) };
        }
        6 if !is_list(&c.args[i]) => {
            let x = c.args[i].clone();
            c.args[i] = app("rare-list", &[x.clone(), x]);
        }
        // re-derive the step from the edited arguments
        _ => {
            c.args[i] = a("rare-list");
        }
    }
    if r.coin() {
        let (ps, co) = expected(rules, &c)?;
        c.prems = ps.into_iter().map(|p| vec![p]).collect();
        c.concl = vec![co];
    }
    Some(c)
}
/// splice lists even where the parameter is no list: what a careless checker would accept
fn careless(c: &Case, rules: &[Rule]) -> Option<Case> {
    let name = c.args.first()?.atom()?.trim_matches('"').to_string();
    let mut rs = rules.to_vec();
    let x = rs.iter_mut().find(|r| r.name.trim_matches('|') == name)?;
    for p in &mut x.params {
        p.0.list = true;
        p.0.sort = None;
    }
    let (ps, co) = expected(&rs, c)?;
    let mut c = c.clone();
    c.prems = ps.into_iter().map(|p| vec![p]).collect();
    c.concl = vec![co];
    Some(c)
}
const CLASH: &[&str] = &[
    "",
    "(define-fun x1 () Bool true)\n(define-fun xs () Bool false)\n",
    "(define-fun t_1 ((x Int)) Int (+ x 1))\n(define-fun ys () Int 0)\n",
];
pub fn run(c: &mut Ctx) {
    let w = world();
    for _ in 0..c.iters(400) {
        if c.late() {
            break;
        }
        let n = 1 + c.rng.below(4);
        let rules: Vec<Rule> = (0..n).map(|i| rule(&mut c.rng, i, &w)).collect();
        let text: String = rules.iter().map(|x| rule_text(&mut c.rng, x)).collect();
        let text: Rc<str> = text.into();
        let extra = CLASH[c.rng.below(CLASH.len())];
        for _ in 0..4 {
            let Some(mut x) = instance(&mut c.rng, &w, &rules, &text) else {
                c.rep.count("no-instance");
                continue;
            };
            x.extra_problem = extra;
            let full = |x: &Case| format!("{}---- rules\n{}", x.text(), text);
            crate::watch::set(|| full(&x));
            let opts = Opts { rules: Some(text.to_string()), parser: carcara::parser::Config { apply_function_defs: c.rng.chance(9, 10), ..Default::default() }, ..Default::default() };
            let sorted = x.prems.iter().flatten().chain(&x.concl).all(|t| sort_of(t, &w.d, &mut vec![]) == Some(St::Bool));
            let must = sorted && x.prems.iter().flatten().chain(&x.concl).chain(x.args.iter().flat_map(|t| if is_list(t) { elems(t).iter() } else { std::slice::from_ref(t).iter() })).all(|t| tame(t) && !has_false_atom(t));
            let out = x.run_with(&opts);
            c.rep.evals += 1;
            c.rep.seen(&full(&x));
            c.rep.count(&format!("instance:{}:{}", if must { "must" } else { "may" }, out.kind()));
            if must && !out.accepted() {
                c.rep.violation("incomplete:rare", format!("exact instance of a rewrite rule was not accepted: {out:?}"), full(&x));
                continue;
            }
            if out.accepted() {
                c.rep.sample(|| full(&x));
                if let Err(e) = exact(&rules, &x) {
                    c.rep.violation("inexact:rare", format!("accepted although {e}"), full(&x));
                }
            }
            let don = donors(&x, &[]);
            for k in 0..10 {
                let m = match k % 3 {
                    0 => edit_args(&mut c.rng, &x, &rules),
                    1 => edit_args(&mut c.rng, &x, &rules).and_then(|m| careless(&m, &rules)),
                    _ => mutate(&x, &mut c.rng, &Mutator { siblings: &["rare_rewrite"], pool: vec![] }, &don),
                };
                let Some(m) = m else { continue };
                crate::watch::set(|| full(&m));
                let out = m.run_with(&opts);
                c.rep.evals += 1;
                c.rep.count(&format!("mutant{}:{}", k % 3, out.kind()));
                if out.accepted() {
                    c.rep.seen(&full(&m));
                    if let Err(e) = exact(&rules, &m) {
                        c.rep.violation("inexact:rare", format!("accepted although {e}"), full(&m));
                    }
                }
            }
        }
    }
}
