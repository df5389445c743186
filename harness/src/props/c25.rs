//! C25: exactly the well-sorted terms are accepted, and sorts are computed correctly.
use super::Ctx;
use crate::front::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use crate::typing::*;
use carcara::ast::*;
use carcara::parser;
use std::io::Cursor;

const SORTS: &[&str] = &["Bool", "Int", "Real", "String", "RegLan", "(_ BitVec 1)", "(_ BitVec 3)", "(_ BitVec 4)", "(Array Int Bool)", "(Array Int Int)", "(Array (_ BitVec 3) Real)", "U", "(P Int U)"];

fn cfg(tc: &Tc, expand: bool, apply: bool) -> parser::Config {
    let mut c = parser::Config::new();
    c.expand_lets = expand;
    c.apply_function_defs = apply;
    c.allow_int_real_subtyping = tc.sub;
    c.strict = tc.strict;
    c
}
fn sort_of(pool: &mut dyn TermPool, t: &Rc<Term>) -> Result<Sx, String> {
    guarded(|| pool.sort(t)).map(|s| match s.as_sort() {
        Some(s) => norm(&requote(&crate::ast::sort(s))),
        None => a("?not a sort"),
    })
}
/// sorts read back from the tool have unquoted names
fn requote(s: &Sx) -> Sx {
    match s {
        Sx::A(t) if ["Bool", "Int", "Real", "String", "RegLan", "Array", "->", "_", "BitVec"].contains(&&**t) || t.starts_with(|c: char| c.is_ascii_digit()) => s.clone(),
        Sx::A(t) => a(&q(&raw(t))),
        Sx::L(v) if v.len() == 3 && v[0].atom() == Some("_") && v[1].atom() == Some("BitVec") => s.clone(),
        Sx::L(v) => l(v.iter().map(requote).collect()),
    }
}
/// Recomputes the sort of every subterm from those of its children. Returns a description of the
/// first disagreement.
pub fn audit(pool: &mut dyn TermPool, tc: &Tc, t: &Rc<Term>, seen: &mut std::collections::HashSet<Rc<Term>>, n: &mut u64) -> Option<String> {
    if !seen.insert(t.clone()) {
        return None;
    }
    let got = match sort_of(pool, t) {
        Ok(s) => s,
        Err(p) => return Some(format!("panic: {p}")),
    };
    let mut kids = |v: &[Rc<Term>], pool: &mut dyn TermPool, n: &mut u64| -> Result<Vec<Sx>, String> {
        let mut out = vec![];
        for x in v {
            if let Some(e) = audit(pool, tc, x, seen, n) {
                return Err(e);
            }
            out.push(sort_of(pool, x)?);
        }
        Ok(out)
    };
    let want = match t.as_ref() {
        Term::Const(Constant::Integer(_)) => Ty::T(a("Int")),
        Term::Const(Constant::Real(_)) => Ty::T(a("Real")),
        Term::Const(Constant::String(_)) => Ty::T(a("String")),
        Term::Const(Constant::BitVec(_, w)) => Ty::T(bv(*w)),
        Term::Var(_, s) => Ty::T(norm(&requote(&crate::ast::conv(s)))),
        Term::App(f, args) => {
            let f = match kids(std::slice::from_ref(f), pool, n) {
                Ok(v) => v[0].clone(),
                Err(e) => return Some(e),
            };
            match kids(args, pool, n) {
                Ok(v) => tc.apply(&f, &v),
                Err(e) => return Some(e),
            }
        }
        Term::Op(op, args) => match kids(args, pool, n) {
            Ok(v) if *op == Operator::BvConst => {
                let _ = v;
                Ty::Unsure
            }
            Ok(v) => tc.op(&op.to_string(), &[], &v),
            Err(e) => return Some(e),
        },
        Term::ParamOp { op: ParamOperator::ArrayConst, op_args, .. } => Ty::T(norm(&requote(&crate::ast::conv(&op_args[0])))),
        Term::ParamOp { op, op_args, args } => match kids(args, pool, n) {
            Ok(v) => tc.op(&op.to_string(), &op_args.iter().map(crate::ast::conv).collect::<Vec<_>>(), &v),
            Err(e) => return Some(e),
        },
        Term::Binder(b, bs, body) => match kids(std::slice::from_ref(body), pool, n) {
            Err(e) => return Some(e),
            Ok(v) => {
                let ps: Vec<Sx> = bs.iter().map(|x| norm(&requote(&crate::ast::conv(&x.1)))).collect();
                match b {
                    Binder::Lambda => Ty::T(fun(&ps, &v[0])),
                    Binder::Choice => Ty::T(ps[0].clone()),
                    _ if v[0] != a("Bool") => Ty::Ill("body".into()),
                    _ => Ty::T(a("Bool")),
                }
            }
        },
        Term::Let(bs, body) => {
            for b in bs.iter() {
                if let Some(e) = kids(std::slice::from_ref(&b.1), pool, n).err() {
                    return Some(e);
                }
            }
            match kids(std::slice::from_ref(body), pool, n) {
                Ok(v) => Ty::T(v[0].clone()),
                Err(e) => return Some(e),
            }
        }
        Term::Sort(_) => Ty::Unsure,
    };
    *n += 1;
    match want {
        Ty::T(w) if w == got => None,
        Ty::Unsure => None,
        Ty::T(w) => Some(format!("{} has sort {got}, not {w}", crate::ast::conv(t))),
        Ty::Ill(e) => Some(format!("{} is ill-sorted ({e})", crate::ast::conv(t))),
    }
}
fn label(t: &Sx) -> String {
    match t.op() {
        Some((h, _)) => h.to_string(),
        None => match t.list().and_then(|v| v.first()).and_then(|h| h.op()) {
            Some(("_", v)) => v.first().and_then(|x| x.atom()).unwrap_or("?").to_string(),
            Some((h, _)) => format!("({h}"),
            None => "atom".to_string(),
        },
    }
}

// ---- the table of operators ----
fn random_index(r: &mut Rng) -> Sx {
    a(*r.pick(&["0", "1", "2", "3", "4", "5", "63", "64", "2147483647", "2147483648", "4294967296", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "-1", "#b1", "1.0", "x0", "00", "1e3"]))
}
fn table(c: &mut Ctx) {
    let decls = {
        let mut s = String::from("(declare-sort U 0)\n(declare-sort P 2)\n");
        for (i, t) in SORTS.iter().enumerate() {
            s.push_str(&format!("(declare-const x{i} {t})\n(declare-const y{i} {t})\n(declare-fun f{i} ({t}) {t})\n"));
        }
        s.push_str("(declare-fun g (Int U Bool) Real)\n");
        s
    };
    for mode in 0..4 {
        let mut tc = Tc { sorts: vec![("U".into(), 0), ("P".into(), 2)], sub: mode & 1 == 1, strict: mode & 2 == 2, ..Tc::default() };
        for (i, t) in SORTS.iter().enumerate() {
            tc.funs.push((format!("x{i}"), vec![], parse(t)));
            tc.funs.push((format!("y{i}"), vec![], parse(t)));
            tc.funs.push((format!("f{i}"), vec![parse(t)], parse(t)));
        }
        tc.funs.push(("g".into(), vec![a("Int"), a("U"), a("Bool")], a("Real")));
        // operators, and functions
        let mut heads: Vec<(Sx, bool)> = PLAIN.iter().map(|h| (a(h), false)).collect();
        heads.extend((0..SORTS.len()).map(|i| (a(&format!("f{i}")), false)));
        heads.extend([(a("g"), false), (a("x0"), false), (a("nothing"), false), (a("7"), false), (a("true"), false), (a("re.all"), false), (a("\"s\""), false)]);
        heads.extend(INDEXED.iter().map(|h| (a(h), true)));
        let mut terms: Vec<Sx> = vec![];
        let ns = SORTS.len();
        for (h, indexed) in &heads {
            let mut tuples: Vec<Vec<usize>> = vec![vec![]];
            tuples.extend((0..ns).map(|i| vec![i]));
            tuples.extend((0..ns * ns).map(|i| vec![i / ns, i % ns]));
            let extra = if c.thorough { 400 } else { 40 };
            for _ in 0..extra {
                // mostly of one sort
                let n = 3 + c.rng.below(3);
                let m = c.rng.below(ns);
                let k = c.rng.below(4);
                let mut v = vec![m; n];
                for _ in 0..k {
                    let i = c.rng.below(n);
                    v[i] = c.rng.below(ns);
                }
                tuples.push(v);
            }
            for (k, t) in tuples.into_iter().enumerate() {
                if k % c.workers != c.worker {
                    continue;
                }
                let args: Vec<Sx> = t.iter().map(|i| a(&format!("{}{i}", if c.rng.coin() { "x" } else { "y" }))).collect();
                if *indexed {
                    for _ in 0..if args.len() == 1 { 40 } else { 2 } {
                        let nix = if c.rng.chance(4, 5) { if ["extract", "re.loop"].contains(&h.atom().unwrap()) { 2 } else { 1 } } else { c.rng.below(4) };
                        let mut hd = vec![a("_"), h.clone()];
                        hd.extend((0..nix).map(|_| random_index(&mut c.rng)));
                        let mut v = vec![l(hd)];
                        v.extend(args.iter().cloned());
                        terms.push(l(v));
                    }
                } else {
                    let mut v = vec![h.clone()];
                    v.extend(args);
                    terms.push(l(v));
                }
            }
        }
        for t in SORTS {
            let i = c.rng.below(ns);
            terms.push(l(vec![l(vec![a("as"), a("const"), parse(t)]), a(&format!("x{i}"))]));
        }
        for _ in 0..200 {
            let (v, w) = (random_index(&mut c.rng), random_index(&mut c.rng));
            terms.push(parse(&format!("(_ bv{v} {w})")));
        }
        let all: Vec<(Sx, Ty, String, String)> = terms
            .into_iter()
            .map(|t| {
                let ty = tc.ty(&t);
                let text = t.to_string();
                let back = match &ty {
                    Ty::T(s) => format!("(= {text} (choice ((z {s})) true))"),
                    _ => String::new(),
                };
                (t, ty, text, back)
            })
            .collect();
        let mut pool = PrimitivePool::new();
        let Ok(mut p) = parser::Parser::new(&mut pool, cfg(&tc, false, true), decls.as_bytes()) else {
            c.rep.violation("table:declarations", "refused", &decls);
            return;
        };
        if let Err(e) = p.parse_problem() {
            c.rep.violation("table:declarations", &e.to_string(), &decls);
            return;
        }
        for (t, want, text, back) in &all {
            if c.late() {
                return;
            }
            c.rep.evals += 1;
            crate::watch::set(|| text.clone());
            let got = guarded(|| {
                p.reset(text.as_bytes()).map_err(|e| e.to_string())?;
                p.parse_term().map_err(|e| e.to_string())
            });
            let lab = label(t);
            match (got, want) {
                (Err(m), _) => c.rep.violation(&format!("panic:{lab}"), &m, text),
                (_, Ty::Unsure) => c.rep.count("table:unsure"),
                (Ok(Ok(_)), Ty::Ill(e)) => c.rep.violation(&format!("accepted:{lab}"), &format!("{e} [subtyping {} strict {}]", tc.sub, tc.strict), text),
                (Ok(Err(e)), Ty::T(s)) => c.rep.violation(&format!("rejected:{lab}"), &format!("{e}; sort {s} [subtyping {} strict {}]", tc.sub, tc.strict), text),
                (Ok(Err(_)), Ty::Ill(_)) => c.rep.count("table:rejected"),
                (Ok(Ok(term)), Ty::T(s)) => {
                    c.rep.count("table:accepted");
                    c.rep.seen(&format!("op:{lab}"));
                    c.rep.distinct.insert(crate::report::hash_str(text));
                    // the sort is observed by equating the term with one of known sort
                    let back = match p.reset(back.as_bytes()).map_err(|e| e.to_string()).and_then(|_| p.parse_term().map_err(|e| e.to_string())) {
                        Ok(t) => t,
                        Err(e) => {
                            c.rep.violation(&format!("sort:{lab}"), &format!("should have sort {s}: {e}"), text);
                            continue;
                        }
                    };
                    let _ = (back, term);
                }
            }
        }
    }
}

// ---- random terms, well-sorted and not ----
fn mutate(g: &mut Fg, sig: &Sig, t: &Sx) -> Sx {
    let ps = t.paths();
    let p = g.r.pick(&ps).clone();
    let at = t.at(&p).clone();
    let new = match g.r.below(16) {
        0..=2 => {
            let s = sig.sort(g.r, 1);
            let d = g.r.below(2);
            g.term(&s, d)
        }
        3 => match at.list() {
            Some(v) if !v.is_empty() => {
                let mut v = v.to_vec();
                let i = g.r.below(v.len());
                v.remove(i);
                l(v)
            }
            _ => l(vec![at]),
        },
        4 => match at.list() {
            Some(v) if !v.is_empty() => {
                let mut v = v.to_vec();
                let i = g.r.below(v.len());
                let x = v[i].clone();
                v.insert(i, x);
                l(v)
            }
            _ => l(vec![at.clone(), at]),
        },
        5 => match at.list() {
            Some(v) if v.len() > 1 => {
                let mut v = v.to_vec();
                let (i, j) = (g.r.below(v.len()), g.r.below(v.len()));
                v.swap(i, j);
                l(v)
            }
            _ => at,
        },
        6 | 7 => match at.op() {
            Some((_, args)) => {
                let h = a(*g.r.pick(PLAIN));
                let mut v = vec![h];
                v.extend(args.iter().cloned());
                l(v)
            }
            None => a(*g.r.pick(&["true", "re.all", "undeclared", "and", "7", "1.5", "\"s\"", "#b1", "#xF", ":kw", "()"])),
        },
        8 => {
            if at.atom().is_some_and(|x| x.bytes().all(|c| c.is_ascii_digit())) {
                random_index(g.r)
            } else {
                a("undeclared")
            }
        }
        9 => {
            if sig.funs.is_empty() {
                at
            } else {
                let f = g.r.pick(&sig.funs).0.clone();
                match at.op() {
                    Some((_, args)) => {
                        let mut v = vec![sym(g.r, &f)];
                        v.extend(args.iter().cloned());
                        l(v)
                    }
                    None => sym(g.r, &f),
                }
            }
        }
        10 => {
            let s = sig.sort(g.r, 1);
            // sorts in binders and elsewhere
            if at.atom().is_some_and(|x| ["Int", "Real", "Bool", "String", "RegLan"].contains(&x)) || at.is_op("Array") || at.is_op("_") {
                s
            } else {
                at
            }
        }
        11 => {
            let i = random_index(g.r);
            let h = a(*g.r.pick(INDEXED));
            l(vec![l(vec![a("_"), h, i]), at])
        }
        12 => {
            let s = sig.sort(g.r, 1);
            let x = g.r.pick(&g.bound).clone();
            l(vec![a(*g.r.pick(&["forall", "exists", "choice", "lambda"])), l(vec![l(vec![a(&q(&x)), s])]), at])
        }
        13 => l(vec![a(*g.r.pick(&["not", "-", "bvnot", "str.len", "to_real", "select", "@bvsize"])), at]),
        14 => {
            // another subterm
            let p2 = g.r.pick(&ps).clone();
            t.at(&p2).clone()
        }
        _ => {
            let s = sig.sort(g.r, 1);
            l(vec![l(vec![a("as"), a("const"), s]), at])
        }
    };
    t.replace(&p, &new)
}

pub fn run(c: &mut Ctx) {
    table(c);
    for _ in 0..c.iters(40000) {
        if c.late() {
            return;
        }
        one(&mut c.rng, &mut c.rep);
    }
}
fn one(r: &mut Rng, rep: &mut Report) {
    let mut sig = Sig::random(r);
    let in_proof = r.coin();
    sig.named = false;
    sig.gmp = in_proof;
    sig.sub = r.chance(1, 4);
    sig.strict = r.chance(1, 4);
    if !in_proof && r.chance(1, 8) {
        // a logic of reals only
        sig.lra = true;
        sig.sub = false;
        for f in &mut sig.funs {
            for s in f.1.iter_mut().chain(std::iter::once(&mut f.2)) {
                *s = a(*r.pick(&["Bool", "Real"]));
            }
        }
    }
    let mut decls = sig.text(r);
    // defined functions are used like declared ones
    if r.chance(1, 2) {
        for k in 0..1 + r.below(2) {
            let np = r.below(3);
            let mut closed = sig.clone();
            closed.funs.clear();
            closed.gmp = false;
            let ps: Vec<(String, Sx)> = (0..np).map(|i| (format!("par_{i}"), sig.sort(r, 1))).collect();
            let s = sig.sort(r, 1);
            let body = {
                let mut g = Fg::new(r, &closed);
                g.scope = ps.clone();
                g.term(&s, 2)
            };
            let name = format!("defd_{k}");
            let head = *r.pick(&["define-fun", "define-fun-rec"]);
            let pl = l(ps.iter().map(|(n, s)| l(vec![a(n), s.clone()])).collect());
            decls.push_str(&format!("({head} {name} {pl} {s} {body})\n"));
            sig.funs.push((name, ps.into_iter().map(|p| p.1).collect(), s));
        }
    }
    let logic = if sig.lra { "(set-logic QF_LRA)\n" } else { "" };
    let ctx = if in_proof { r.below(5) } else { r.below(6) };
    let boolean = match (in_proof, ctx) {
        (false, 0 | 1) => true,
        (true, 0 | 1) => true,
        _ => false,
    };
    let s = if boolean && r.chance(5, 6) { a("Bool") } else { sig.sort(r, 2) };
    let depth = 1 + r.below(4);
    let muts = *r.pick(&[0, 0, 1, 1, 1, 2]);
    let other = sig.sort(r, 2);
    let (t, other_t) = {
        let mut g = Fg::new(r, &sig);
        let mut t = g.term(&s, depth);
        for _ in 0..muts {
            t = mutate(&mut g, &sig, &t);
        }
        let same = g.r.chance(2, 3);
        let o = if same { g.term(&s, 1) } else { g.term(&other, 1) };
        (t, o)
    };
    let mut tc = Tc::new(&sig);
    let mut ty = tc.ty(&t);
    if muts == 0 && ty != Ty::T(norm(&s)) && ty != Ty::Unsure {
        rep.violation("harness:generator", &format!("{ty:?} instead of {s}"), &t.to_string());
        return;
    }
    // where the term is used
    let need_bool = |ty: Ty| match ty {
        Ty::T(s) if s != a("Bool") => Ty::Ill("not a formula".into()),
        t => t,
    };
    let with = |ty: Ty, s: &Ty| match (ty, s) {
        (Ty::Ill(e), _) => Ty::Ill(e),
        (_, Ty::Ill(e)) => Ty::Ill(e.clone()),
        (Ty::T(x), Ty::T(y)) => {
            if x == *y {
                Ty::T(x)
            } else if sig.sub && [&x, y].iter().all(|s| matches!(s.atom(), Some("Int" | "Real"))) {
                Ty::Unsure
            } else {
                Ty::Ill("other sort".into())
            }
        }
        _ => Ty::Unsure,
    };
    let (mut pb, mut pf) = (format!("{logic}{decls}"), String::new());
    let place;
    match (in_proof, ctx) {
        (false, 0) => {
            place = "assert";
            pb.push_str(&format!("(assert {t})\n"));
            ty = need_bool(ty);
        }
        (false, 1) => {
            place = "assuming";
            pb.push_str(&format!("(check-sat-assuming ({t}))\n"));
            ty = need_bool(ty);
        }
        (false, 2 | 3) => {
            place = "eq";
            pb.push_str(&format!("(assert (= {t} {other_t}))\n"));
            ty = with(ty, &tc.ty(&other_t));
        }
        (false, _) => {
            place = if ctx == 4 { "define" } else { "define-const" };
            let ds = if r.chance(2, 3) { s.clone() } else { other.clone() };
            if ctx == 4 {
                pb.push_str(&format!("(define-fun defined () {ds} {t})\n"));
            } else {
                pb.push_str(&format!("(define-fun defined ((unused Int)) {ds} {t})\n"));
            }
            ty = with(ty, &Ty::T(norm(&ds)));
        }
        (true, 0) => {
            place = "step";
            pf = format!("(step t1 (cl {t}) :rule hole)\n");
            ty = need_bool(ty);
        }
        (true, 1) => {
            place = "assume";
            pf = format!("(assume h1 {t})\n");
            ty = need_bool(ty);
        }
        (true, 2) => {
            place = "args";
            pf = format!("(step t1 (cl) :rule resolution :args ({t}))\n");
        }
        (true, 3) if !sig.strict && r.coin() => {
            // the sort is not given
            place = "anchor:old";
            pf = format!("(anchor :step t1 :args ((:= x_1 {t})))\n(step t1.a (cl) :rule hole)\n(step t1 (cl) :rule hole)\n");
            if let Ty::T(s) = &ty {
                if s.is_op("->") {
                    ty = Ty::Unsure;
                }
            }
        }
        (true, 3) => {
            place = "anchor";
            let ds = if r.chance(2, 3) { s.clone() } else { other.clone() };
            pf = format!("(anchor :step t1 :args ((:= (x_1 {ds}) {t})))\n(step t1.a (cl (= x_1 {other_t})) :rule hole)\n(step t1 (cl) :rule hole)\n");
            let ot = tc.ty(&other_t);
            ty = match with(ty, &Ty::T(norm(&ds))) {
                Ty::T(_) => with(Ty::T(norm(&ds)), &ot),
                t => t,
            };
        }
        (true, _) => {
            place = "proof-define";
            let ds = if r.chance(2, 3) { s.clone() } else { other.clone() };
            pf = format!("(define-fun defined () {ds} {t})\n(step t1 (cl (= defined {other_t})) :rule hole)\n");
            let ot = tc.ty(&other_t);
            ty = match with(ty, &Ty::T(norm(&ds))) {
                Ty::T(_) => with(Ty::T(norm(&ds)), &ot),
                t => t,
            };
        }
    }
    if in_proof {
        pf.push_str("(step end (cl) :rule hole)\n");
    } else {
        pf.push_str("(step end (cl) :rule hole)\n");
    }
    if sig.funs.iter().any(|f| f.0 == "defined" || f.0 == "x_1") {
        return;
    }
    let (expand, apply) = (r.coin(), r.chance(3, 4));
    let conf = cfg(&tc, expand, apply);
    let mut pool = PrimitivePool::new();
    let got = guarded(|| parser::parse_instance_with_pool(Cursor::new(pb.clone()), Cursor::new(pf.clone()), None, conf, &mut pool).map_err(|e| e.to_string()));
    let input = format!("{pb}--- proof\n{pf}--- subtyping {} strict {} expand {expand} apply {apply}", sig.sub, sig.strict);
    rep.evals += 1;
    crate::watch::set(|| input.clone());
    let lab = label(&t);
    match (got, ty) {
        (Err(m), _) => rep.violation(&format!("panic:{place}"), &m, &input),
        (_, Ty::Unsure) => rep.count("unsure"),
        (Ok(Ok(_)), Ty::Ill(e)) => rep.violation(&format!("accepted:{place}:{}", e.split(':').next().unwrap()), &format!("{e}: {lab}"), &input),
        (Ok(Err(e)), Ty::T(s)) => rep.violation(&format!("rejected:{place}"), &format!("{e}; {lab} has sort {s}"), &input),
        (Ok(Err(e)), Ty::Ill(w)) => {
            rep.count(&format!("rejected:{place}"));
            rep.count(&format!("why:{}", if w.starts_with("undeclared") && w != "undeclared sort" { "undeclared symbol" } else { w.split(':').next_back().unwrap().trim() }));
            rep.distinct.insert(crate::report::hash_str(&input));
            let _ = e;
        }
        (Ok(Ok((problem, proof, _))), Ty::T(_)) => {
            rep.count(&format!("accepted:{place}"));
            rep.distinct.insert(crate::report::hash_str(&input));
            let mut ts: Vec<Rc<Term>> = problem.premises.iter().cloned().collect();
            let mut it = proof.iter();
            while let Some(cmd) = it.next() {
                match cmd {
                    ProofCommand::Assume { term, .. } => ts.push(term.clone()),
                    ProofCommand::Step(st) => {
                        ts.extend(st.clause.iter().cloned());
                        ts.extend(st.args.iter().cloned());
                    }
                    ProofCommand::Subproof(s) => ts.extend(s.args.iter().filter_map(|x| match x { AnchorArg::Assign(_, v) => Some(v.clone()), _ => None })),
                }
            }
            let mut n = 0;
            for t in ts {
                if let Some(e) = audit(&mut pool, &tc, &t, &mut Default::default(), &mut n) {
                    rep.violation("audit", &e, &input);
                    return;
                }
            }
            for _ in 0..n {
                rep.count("subterms");
            }
        }
    }
}
