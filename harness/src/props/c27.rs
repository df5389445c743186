//! C27: structural equality is pointer equality, in every view of a term pool.
use super::c25::audit;
use super::Ctx;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::typing::Tc;
use carcara::ast::pool::advanced::{ContextPool, LocalPool};
use carcara::ast::*;
use carcara::parser;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/// Structural keys of terms, computed without the pool's own equality.
#[derive(Default)]
pub struct Keys {
    ids: HashMap<String, u32>,
    memo: HashMap<*const Term, (u32, Rc<Term>)>,
    free: HashMap<u32, Arc<BTreeSet<u32>>>,
}
impl Keys {
    fn many(&mut self, ts: &[Rc<Term>]) -> String {
        ts.iter().map(|t| self.key(t).to_string()).collect::<Vec<_>>().join(",")
    }
    fn bindings(&mut self, b: &BindingList) -> String {
        b.iter().map(|(n, s)| format!("{n:?}={}", self.key(s))).collect::<Vec<_>>().join(",")
    }
    pub fn key(&mut self, t: &Rc<Term>) -> u32 {
        if let Some((k, _)) = self.memo.get(&Rc::as_ptr(t)) {
            return *k;
        }
        let s = match t.as_ref() {
            Term::Const(Constant::Integer(i)) => format!("int {i}"),
            Term::Const(Constant::Real(r)) => format!("real {}/{}", r.numer(), r.denom()),
            Term::Const(Constant::String(s)) => format!("string {s:?}"),
            Term::Const(Constant::BitVec(v, w)) => format!("bv {v} {w}"),
            Term::Var(n, s) => format!("var {n:?} {}", self.key(s)),
            Term::App(f, v) => format!("app {} {}", self.key(f), self.many(v)),
            Term::Op(o, v) => format!("op {o:?} {}", self.many(v)),
            Term::ParamOp { op, op_args, args } => format!("param {op:?} {} / {}", self.many(op_args), self.many(args)),
            Term::Binder(b, l, t) => format!("{b:?} {} {}", self.bindings(l), self.key(t)),
            Term::Let(l, t) => format!("let {} {}", self.bindings(l), self.key(t)),
            Term::Sort(s) => match s {
                Sort::Function(v) => format!("s fun {}", self.many(v)),
                Sort::Atom(n, v) => format!("s atom {n:?} {}", self.many(v)),
                Sort::Var(n) => format!("s var {n:?}"),
                Sort::Array(a, b) => format!("s array {} {}", self.key(a), self.key(b)),
                Sort::BitVec(w) => format!("s bv {w}"),
                Sort::ParamSort(v, h) => format!("s param {} {}", self.many(v), self.key(h)),
                Sort::Bool => "s Bool".into(),
                Sort::Int => "s Int".into(),
                Sort::Real => "s Real".into(),
                Sort::String => "s String".into(),
                Sort::RegLan => "s RegLan".into(),
                Sort::RareList => "s list".into(),
                Sort::Type => "s type".into(),
            },
        };
        let n = self.ids.len() as u32;
        let k = *self.ids.entry(s).or_insert(n);
        self.memo.insert(Rc::as_ptr(t), (k, t.clone()));
        k
    }
    /// keys of the variables that are free in the term
    fn free(&mut self, view: &dyn TermPool, t: &Rc<Term>) -> Arc<BTreeSet<u32>> {
        let k = self.key(t);
        if let Some(s) = self.free.get(&k) {
            return s.clone();
        }
        let mut out = BTreeSet::new();
        match t.as_ref() {
            Term::Const(_) | Term::Sort(_) => (),
            Term::Var(..) => {
                out.insert(k);
            }
            Term::App(f, v) => {
                for x in std::iter::once(f).chain(v) {
                    out.extend(self.free(view, x).iter());
                }
            }
            Term::Op(_, v) | Term::ParamOp { args: v, .. } => {
                for x in v {
                    out.extend(self.free(view, x).iter());
                }
            }
            Term::Binder(_, l, b) => {
                out.extend(self.free(view, b).iter());
                for (n, s) in l.iter() {
                    let v = format!("var {n:?} {}", self.key(s));
                    if let Some(v) = self.ids.get(&v) {
                        out.remove(v);
                    }
                }
            }
            Term::Let(l, b) => {
                out.extend(self.free(view, b).iter());
                for (n, x) in l.iter() {
                    let s = view.sort(x);
                    let v = format!("var {n:?} {}", self.key(&s));
                    if let Some(v) = self.ids.get(&v) {
                        out.remove(v);
                    }
                }
                for (_, x) in l.iter() {
                    out.extend(self.free(view, x).iter());
                }
            }
        }
        let out = Arc::new(out);
        self.free.insert(k, out.clone());
        out
    }
}
fn children(t: &Term) -> Vec<Rc<Term>> {
    match t {
        Term::Const(_) => vec![],
        Term::Var(_, s) => vec![s.clone()],
        Term::App(f, v) => std::iter::once(f).chain(v).cloned().collect(),
        Term::Op(_, v) => v.clone(),
        Term::ParamOp { op_args, args, .. } => op_args.iter().chain(args).cloned().collect(),
        Term::Binder(_, l, b) | Term::Let(l, b) => l.iter().map(|x| x.1.clone()).chain([b.clone()]).collect(),
        Term::Sort(s) => match s {
            Sort::Function(v) => v.clone(),
            Sort::Atom(_, v) => v.to_vec(),
            Sort::Array(a, b) => vec![a.clone(), b.clone()],
            Sort::ParamSort(v, h) => v.iter().chain([h]).cloned().collect(),
            _ => vec![],
        },
    }
}
/// Builds the same term in a view, from its leaves up; or one with other variable names.
fn import(view: &mut dyn TermPool, t: &Rc<Term>, suffix: &str, memo: &mut HashMap<Rc<Term>, Rc<Term>>) -> Rc<Term> {
    if let Some(r) = memo.get(t) {
        return r.clone();
    }
    let mut go = |x: &Rc<Term>| import(view, x, suffix, memo);
    let ren = |n: &str| format!("{n}{suffix}");
    let new = match t.as_ref() {
        Term::Const(c) => Term::Const(c.clone()),
        Term::Var(n, s) => Term::Var(ren(n), go(s)),
        Term::App(f, v) => {
            let f = go(f);
            Term::App(f, v.iter().map(go).collect())
        }
        Term::Op(o, v) => Term::Op(*o, v.iter().map(go).collect()),
        Term::ParamOp { op, op_args, args } => {
            let op_args = op_args.iter().map(&mut go).collect();
            Term::ParamOp { op: *op, op_args, args: args.iter().map(go).collect() }
        }
        Term::Binder(b, l, t) => {
            let l = BindingList(l.iter().map(|(n, s)| (ren(n), go(s))).collect());
            Term::Binder(*b, l, go(t))
        }
        Term::Let(l, t) => {
            let l = BindingList(l.iter().map(|(n, s)| (ren(n), go(s))).collect());
            Term::Let(l, go(t))
        }
        Term::Sort(s) => Term::Sort(match s {
            Sort::Function(v) => Sort::Function(v.iter().map(go).collect()),
            Sort::Atom(n, v) => Sort::Atom(n.clone(), v.iter().map(go).collect()),
            Sort::Array(a, b) => {
                let a = go(a);
                Sort::Array(a, go(b))
            }
            Sort::ParamSort(v, h) => {
                let v = v.iter().map(&mut go).collect();
                Sort::ParamSort(v, go(h))
            }
            s => s.clone(),
        }),
    };
    let r = view.add(new);
    memo.insert(t.clone(), r.clone());
    r
}
fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What one view of the pool returned so far.
struct View {
    name: String,
    map: HashMap<u32, Rc<Term>>,
    all: HashSet<Rc<Term>>,
    terms: Vec<Rc<Term>>,
    sorts: HashMap<Rc<Term>, Rc<Term>>,
    audited: HashSet<Rc<Term>>,
    log: Vec<String>,
}
type Fail = (&'static str, String);
impl View {
    fn new(name: &str) -> View {
        View {
            name: name.into(),
            map: HashMap::new(),
            all: HashSet::new(),
            terms: vec![],
            sorts: HashMap::new(),
            audited: HashSet::new(),
            log: vec![],
        }
    }
    /// The view returned this term: the same as whenever it returned one that is structurally equal.
    fn note(&mut self, t: &Rc<Term>, keys: &mut Keys, rep: &mut Report) -> Result<(), Fail> {
        if self.all.contains(t) {
            return Ok(());
        }
        for x in children(t) {
            self.note(&x, keys, rep)?;
        }
        let k = keys.key(t);
        rep.count("noted");
        if self.map.contains_key(&k) {
            return Err(("twice", format!("{}: two objects for {t}", self.name)));
        }
        self.map.insert(k, t.clone());
        self.all.insert(t.clone());
        if self.all.len() != self.map.len() {
            return Err(("hash", format!("{}: equality or hashing of {t} disagrees with identity", self.name)));
        }
        if !t.is_sort() {
            self.terms.push(t.clone());
        }
        Ok(())
    }
    fn sort(&mut self, pool: &mut dyn TermPool, tc: &Tc, t: &Rc<Term>, keys: &mut Keys, rep: &mut Report) -> Result<(), Fail> {
        let mut n = 0;
        if let Some(e) = audit(pool, tc, t, &mut self.audited, &mut n) {
            return Err(("sort", format!("{}: {e}", self.name)));
        }
        rep.add("sorts", n);
        let s = guarded(|| pool.sort(t)).map_err(|p| ("sort", format!("{}: sort of {t}: {p}", self.name)))?;
        if let Some(old) = self.sorts.insert(t.clone(), s.clone()) {
            if old != s {
                return Err(("sort", format!("{}: the sort of {t} changed", self.name)));
            }
        }
        let k = keys.key(&s);
        if let Some(known) = self.map.get(&k) {
            if *known != s {
                return Err(("sort", format!("{}: the sort of {t} is not the object for {s} of this view", self.name)));
            }
        } else {
            self.note(&s, keys, rep)?;
        }
        Ok(())
    }
    fn free(&mut self, pool: &mut dyn TermPool, t: &Rc<Term>, keys: &mut Keys, rep: &mut Report) -> Result<(), Fail> {
        let got = guarded(|| pool.free_vars(t)).map_err(|p| ("free", format!("{}: free variables of {t}: {p}", self.name)))?;
        rep.count("free");
        let want = keys.free(pool, t);
        let ks: BTreeSet<u32> = got.iter().map(|v| keys.key(v)).collect();
        if ks != *want || got.len() != want.len() {
            let names: Vec<String> = got.iter().map(|v| v.to_string()).collect();
            return Err(("free", format!("{}: free variables of {t}: {names:?}", self.name)));
        }
        for v in &got {
            self.note(v, keys, rep)?;
        }
        Ok(())
    }
    /// one random operation
    fn step(&mut self, pool: &mut dyn TermPool, tc: &Tc, others: &[Rc<Term>], r: &mut Rng, keys: &mut Keys, rep: &mut Report) -> Result<(), Fail> {
        let guard = |w: &str, p: String| -> Fail { ("panic", format!("{w}: {p}")) };
        let mine = |v: &View, r: &mut Rng| -> Option<Rc<Term>> { if v.terms.is_empty() { None } else { Some(r.pick(&v.terms).clone()) } };
        match r.below(12) {
            0..=3 => {
                // built from other terms, possibly those other views build, too
                let t = r.pick(others).clone();
                let suffix = *r.pick(&["", "", "'", "''"]);
                self.log.push(format!("{}: import {t}{suffix}", self.name));
                let got = guarded(|| import(pool, &t, suffix, &mut HashMap::new())).map_err(|p| guard("import", p))?;
                rep.count("import");
                self.note(&got, keys, rep)?;
                if suffix.is_empty() && keys.key(&got) != keys.key(&t) {
                    return Err(("value", format!("{}: building {t} gave {got}", self.name)));
                }
                self.sort(pool, tc, &got, keys, rep)?;
                if r.coin() {
                    self.free(pool, &got, keys, rep)?;
                }
            }
            4 => {
                // its own terms are found again
                let Some(t) = mine(self, r) else { return Ok(()) };
                self.log.push(format!("{}: rebuild {t}", self.name));
                let got = guarded(|| import(pool, &t, "", &mut HashMap::new())).map_err(|p| guard("rebuild", p))?;
                rep.count("rebuild");
                if got != t {
                    return Err(("twice", format!("{}: building {t} again gives another object", self.name)));
                }
            }
            5 | 6 => {
                let Some(t) = mine(self, r) else { return Ok(()) };
                let free: Vec<Rc<Term>> = guarded(|| pool.free_vars(&t)).map_err(|p| guard("free_vars", p))?.into_iter().collect();
                if free.is_empty() {
                    return Ok(());
                }
                let x = r.pick(&free).clone();
                let s = pool.sort(&x);
                let fit: Vec<Rc<Term>> = self.terms.iter().filter(|y| self.sorts.get(*y) == Some(&s)).cloned().collect();
                if fit.is_empty() {
                    return Ok(());
                }
                let y = r.pick(&fit).clone();
                self.log.push(format!("{}: {t} with {x} := {y}", self.name));
                let map: indexmap::IndexMap<_, _> = [(x.clone(), y.clone())].into_iter().collect();
                let mut sub = || guarded(|| Substitution::new(pool, map.clone()).map(|mut s| s.apply(pool, &t)));
                let (Ok(one), Ok(two)) = (sub().map_err(|p| guard("substitution", p))?, sub().map_err(|p| guard("substitution", p))?) else { return Ok(()) };
                rep.count("substitution");
                if one != two {
                    return Err(("twice", format!("{}: {t} with {x} := {y} gives two objects", self.name)));
                }
                self.note(&one, keys, rep)?;
                self.sort(pool, tc, &one, keys, rep)?;
                if x == y && one != t {
                    return Err(("value", format!("{}: replacing {x} by itself in {t} gave {one}", self.name)));
                }
            }
            7 => {
                // small terms over those there are
                let Some(t) = mine(self, r) else { return Ok(()) };
                let Some(u) = mine(self, r) else { return Ok(()) };
                let (Some(s), Some(v)) = (self.sorts.get(&t), self.sorts.get(&u)) else { return Ok(()) };
                let is = |x: &Rc<Term>, y: Sort| x.as_sort() == Some(&y);
                let new = if is(s, Sort::Bool) && is(v, Sort::Bool) {
                    Term::Op(*r.pick(&[Operator::And, Operator::Or, Operator::Implies, Operator::Xor, Operator::Equals]), vec![t.clone(), u.clone()])
                } else if s == v && is(s, Sort::Int) {
                    Term::Op(*r.pick(&[Operator::Add, Operator::Mult, Operator::LessThan]), vec![t.clone(), u.clone()])
                } else if s == v {
                    Term::Op(*r.pick(&[Operator::Equals, Operator::Distinct]), vec![t.clone(), u.clone()])
                } else if is(s, Sort::Bool) {
                    let n = if r.coin() { "fresh" } else { "x" };
                    Term::Binder(*r.pick(&[Binder::Forall, Binder::Exists]), BindingList(vec![(n.to_string(), v.clone())]), t.clone())
                } else {
                    Term::Let(BindingList(vec![("x".to_string(), t.clone())]), u.clone())
                };
                let one = pool.add(new.clone());
                let two = pool.add(new);
                self.log.push(format!("{}: add {one}", self.name));
                rep.count("add");
                if one != two {
                    return Err(("twice", format!("{}: adding {one} twice gives two objects", self.name)));
                }
                self.note(&one, keys, rep)?;
                self.sort(pool, tc, &one, keys, rep)?;
                self.free(pool, &one, keys, rep)?;
            }
            8 => {
                let Some(t) = mine(self, r) else { return Ok(()) };
                self.sort(pool, tc, &t, keys, rep)?;
            }
            9 => {
                let Some(t) = mine(self, r) else { return Ok(()) };
                self.free(pool, &t, keys, rep)?;
            }
            10 => {
                let b = r.coin();
                let t = if r.coin() { pool.bool_constant(b) } else if b { pool.bool_true() } else { pool.bool_false() };
                if !matches!((t.as_ref(), b), (Term::Op(Operator::True, v), true) | (Term::Op(Operator::False, v), false) if v.is_empty()) {
                    return Err(("value", format!("{}: {b} is {t}", self.name)));
                }
                self.note(&t, keys, rep)?;
            }
            _ => {
                // equality, hashing and identity agree
                let (Some(t), Some(u)) = (mine(self, r), mine(self, r)) else { return Ok(()) };
                rep.count("compared");
                let same = keys.key(&t) == keys.key(&u);
                let ptr = std::ptr::eq(Rc::as_ptr(&t), Rc::as_ptr(&u));
                if (t == u) != same || ptr != same || (t.as_ref() == u.as_ref()) != same {
                    return Err(("compare", format!("{}: {t} and {u} compare wrongly", self.name)));
                }
                let c = t.clone();
                if hash_of(&c) != hash_of(&t) || hash_of(t.as_ref()) != hash_of(&t.as_ref().clone()) || c != t {
                    return Err(("compare", format!("{}: a copy of {t} hashes or compares wrongly", self.name)));
                }
            }
        }
        Ok(())
    }
}
fn parse_in(pool: &mut PrimitivePool, pb: &str, pf: &str, o: &Opts) -> Result<(Problem, Proof), String> {
    guarded(|| {
        let mut p = parser::Parser::new(pool, o.parser.clone(), pb.as_bytes()).map_err(|e| e.to_string())?;
        let problem = p.parse_problem().map_err(|e| e.to_string())?;
        p.reset(pf.as_bytes()).map_err(|e| e.to_string())?;
        let proof = p.parse_proof().map_err(|e| e.to_string())?;
        Ok((problem, proof))
    })
    .unwrap_or_else(Err)
}
fn roots(pb: &Problem, pf: &Proof) -> Vec<Rc<Term>> {
    let mut out: Vec<Rc<Term>> = pb.premises.iter().cloned().collect();
    let mut it = pf.iter();
    while let Some(c) = it.next() {
        out.extend(c.clause().iter().cloned());
        match c {
            ProofCommand::Step(s) => out.extend(s.args.iter().cloned()),
            ProofCommand::Subproof(s) => {
                for a in &s.args {
                    if let AnchorArg::Assign(_, v) = a {
                        out.push(v.clone());
                    }
                }
            }
            _ => (),
        }
    }
    out
}
fn subterms(ts: &[Rc<Term>]) -> Vec<Rc<Term>> {
    let mut seen: indexmap::IndexSet<Rc<Term>> = Default::default();
    let mut stack = ts.to_vec();
    while let Some(t) = stack.pop() {
        if seen.insert(t.clone()) {
            stack.extend(children(&t));
        }
    }
    seen.into_iter().filter(|t| !t.is_sort()).collect()
}
fn history(cx: &mut Ctx, pb: &str, pf: &str, o: &Opts, others: &[Rc<Term>], sorts: &[Rc<Term>], r: &mut Rng) -> Result<bool, (Fail, Vec<String>)> {
    let tc = Tc { sub: true, strict: false, ..Tc::default() };
    let rep = &mut cx.rep;
    let mut keys = Keys::default();
    let mut global = PrimitivePool::new();
    let mut view = View::new("global");
    let fail = |v: &View, e: Fail| (e, v.log.clone());
    // some terms are there before anything is parsed
    for _ in 0..r.below(6) {
        view.step(&mut global, &tc, others, r, &mut keys, rep).map_err(|e| fail(&view, e))?;
    }
    let Ok((p1, f1)) = parse_in(&mut global, pb, pf, o) else { return Ok(false) };
    let one = roots(&p1, &f1);
    for t in &one {
        view.note(t, &mut keys, rep).map_err(|e| fail(&view, e))?;
    }
    for _ in 0..r.below(20) {
        view.step(&mut global, &tc, others, r, &mut keys, rep).map_err(|e| fail(&view, e))?;
    }
    // again, through a new parser
    if let Ok((p2, f2)) = parse_in(&mut global, pb, pf, o) {
        let two = roots(&p2, &f2);
        rep.count("reparsed");
        if one != two {
            let at = one.iter().zip(&two).find(|(a, b)| a != b).map(|x| x.0.to_string());
            return Err((("reparse", format!("parsing the same text again gives other objects: {at:?}")), view.log));
        }
    }
    for _ in 0..r.below(20) {
        view.step(&mut global, &tc, others, r, &mut keys, rep).map_err(|e| fail(&view, e))?;
    }
    // all sorts are known before the pool is shared
    for s in sorts {
        let s = import(&mut global, s, "", &mut HashMap::new());
        view.note(&s, &mut keys, rep).map_err(|e| fail(&view, e))?;
    }
    let global = Arc::new(global);
    let threaded = r.coin();
    let n = 1 + r.below(4);
    let shared = ContextPool::from_global(&global);
    let known = |name: String| {
        let mut v = View::new(&name);
        v.map = view.map.clone();
        v.all = view.all.clone();
        v.terms = view.terms.clone();
        v.sorts = view.sorts.clone();
        v
    };
    if !threaded {
        rep.count("history:interleaved");
        let mut pools: Vec<(Box<dyn TermPool>, View)> = vec![];
        for i in 0..1 + r.below(2) {
            pools.push((Box::new(ContextPool::from_previous(&shared)), known(format!("context{i}"))));
        }
        let nctx = pools.len();
        for i in 0..n {
            pools.push((Box::new(LocalPool::from_previous(&shared)), known(format!("local{i}"))));
        }
        let mut log = vec![];
        for _ in 0..20 + r.below(60) {
            let i = r.below(pools.len());
            let (pool, v) = &mut pools[i];
            v.step(pool.as_mut(), &tc, others, r, &mut keys, rep).map_err(|e| {
                log.append(&mut v.log);
                (e, log.clone())
            })?;
            log.append(&mut v.log);
            // what is in the shared pool is found by the next thread
            if r.chance(1, 8) {
                let t = r.pick(&pools[0].1.terms).clone();
                let got = import(&mut LocalPool::from_previous(&shared), &t, "", &mut HashMap::new());
                rep.count("found");
                if got != t {
                    return Err((("shared", format!("a new local pool has its own object for {t}, which is in the shared pool")), log));
                }
            }
            // the shared pool is one pool
            if i < nctx {
                let new: Vec<Rc<Term>> = pools[i].1.terms.iter().rev().take(20).cloned().collect();
                for j in (0..nctx).filter(|j| *j != i) {
                    for t in &new {
                        pools[j].1.note(t, &mut keys, rep).map_err(|e| (e, log.clone()))?;
                    }
                }
            }
        }
    } else {
        rep.count("history:threads");
        crate::delay::on(*r.pick(&[0, 30, 200]), r.next());
        let jobs: Vec<(bool, u64, View)> = (0..2 * n).map(|i| (i < n, r.next(), known(format!("{}{i}", if i < n { "context" } else { "local" })))).collect();
        let barrier = std::sync::Barrier::new(jobs.len());
        let out: Vec<(bool, View, Report, Option<Fail>)> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .into_iter()
                .map(|(ctx, seed, mut v)| {
                    let (shared, barrier) = (&shared, &barrier);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let tc = Tc { sub: true, strict: false, ..Tc::default() };
                            let mut r = Rng::new(seed);
                            let mut rep = Report::default();
                            let mut keys = Keys::default();
                            let mut pool: Box<dyn TermPool> = if ctx { Box::new(ContextPool::from_previous(shared)) } else { Box::new(LocalPool::from_previous(shared)) };
                            // this thread numbers the terms itself
                            v.map = v.all.iter().map(|t| (keys.key(t), t.clone())).collect();
                            barrier.wait();
                            let mut bad = None;
                            for _ in 0..30 {
                                if let Err(e) = v.step(pool.as_mut(), &tc, others, &mut r, &mut keys, &mut rep) {
                                    bad = Some(e);
                                    break;
                                }
                            }
                            (ctx, v, rep, bad)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        crate::delay::on(0, 1);
        let mut all: HashMap<u32, Rc<Term>> = HashMap::new();
        for (ctx, v, sub, bad) in out {
            let log = v.log.clone();
            rep.merge(sub);
            if let Some(e) = bad {
                return Err((e, log));
            }
            if ctx {
                for t in &v.all {
                    let k = keys.key(t);
                    let old = all.entry(k).or_insert_with(|| t.clone());
                    rep.count("shared");
                    if old != t {
                        return Err((("shared", format!("two threads have two objects of the shared pool for {t}")), log));
                    }
                }
            }
        }
    }
    Ok(true)
}
pub fn run(cx: &mut Ctx) {
    let mut others: Vec<Rc<Term>> = vec![];
    let mut sorts: Vec<Rc<Term>> = vec![];
    for i in 0..cx.iters(1500) {
        if cx.late() {
            return;
        }
        let (t, o) = super::c22::instance(cx);
        if i % 4 == 0 || others.is_empty() {
            // terms to build, from another pool
            let (u, o) = super::c22::instance(cx);
            let mut pool = PrimitivePool::new();
            let mut new = vec![];
            for (u, o) in [(&u, &o), (&t, &o)] {
                if let Ok((p, f)) = parse_in(&mut pool, &u.problem, &u.proof, o) {
                    new.extend(subterms(&roots(&p, &f)));
                }
            }
            if new.is_empty() {
                continue;
            }
            let mut all: indexmap::IndexSet<Rc<Term>> = Default::default();
            all.extend(new.iter().map(|t| pool.sort(t)));
            sorts = all.into_iter().collect();
            others = new;
        }
        let mut r = Rng::new(cx.rng.next());
        let text = format!("{}\n---- proof\n{}", t.problem, t.proof);
        crate::watch::set(|| text.clone());
        match history(cx, &t.problem, &t.proof, &o, &others, &sorts, &mut r) {
            Ok(true) => {
                cx.rep.evals += 1;
                cx.rep.seen(&text);
            }
            Ok(false) => cx.rep.count("unparsed"),
            Err(((kind, what), log)) => cx.rep.violation(&format!("pool:{kind}"), what, format!("{text}\n---- history\n{}", log.join("\n"))),
        }
    }
}
