//! C26: definitions, lets, names and literals mean exactly what they abbreviate.
use super::Ctx;
use crate::front::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use crate::typing::{is_op, raw, Tc, Ty};
use carcara::ast::*;
use carcara::parser;
use std::io::Cursor;

// ---- what text means: a tree without names of bound variables ----
type R<T> = std::rc::Rc<T>;
#[derive(Clone)]
enum Kind {
    /// a bound variable, by its distance from the root
    Bound(usize),
    Global(Sx),
    /// a term to be read where it was written
    /// (and whether numerals are reals there)
    Thunk(Sx, Env, bool),
    Def(Vec<String>, Sx, Env, bool),
}
struct Node {
    name: String,
    kind: Kind,
    next: Env,
}
type Env = Option<R<Node>>;
fn push(env: &Env, name: &str, kind: Kind) -> Env {
    Some(R::new(Node { name: name.to_string(), kind, next: env.clone() }))
}
fn find(env: &Env, name: &str) -> Option<Kind> {
    let mut e = env;
    while let Some(n) = e {
        if n.name == name {
            return Some(n.kind.clone());
        }
        e = &n.next;
    }
    None
}
#[derive(Clone, Default)]
struct SortDefs(Vec<(String, Vec<String>, Sx)>);
impl SortDefs {
    /// the sort that is meant, `ps` being the parameters in scope and `upto` the definitions known
    fn mean(&self, s: &Sx, ps: &[(String, Sx)], upto: usize) -> Sx {
        match s {
            Sx::A(t) => {
                let n = raw(t);
                if let Some(p) = ps.iter().find(|p| p.0 == n) {
                    return p.1.clone();
                }
                match self.0[..upto].iter().rposition(|d| d.0 == n && d.1.is_empty()) {
                    Some(i) => self.mean(&self.0[i].2, &[], i),
                    None => a(&n),
                }
            }
            Sx::L(v) => {
                if v[0].atom() == Some("_") {
                    return s.clone();
                }
                let n = raw(v[0].atom().unwrap_or(""));
                let args: Vec<Sx> = v[1..].iter().map(|x| self.mean(x, ps, upto)).collect();
                match self.0[..upto].iter().rposition(|d| d.0 == n && d.1.len() == args.len()) {
                    Some(i) => {
                        let ps: Vec<(String, Sx)> = self.0[i].1.iter().cloned().zip(args).collect();
                        self.mean(&self.0[i].2, &ps, i)
                    }
                    None => l(std::iter::once(a(&n)).chain(args).collect()),
                }
            }
        }
    }
    fn of(&self, s: &Sx) -> Sx {
        self.mean(s, &[], self.0.len())
    }
}
fn unescape(s: &str) -> Option<Vec<u32>> {
    let b: Vec<char> = s.chars().collect();
    let b = &b[1..b.len() - 1];
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            out.push('"' as u32);
            i += 2;
            continue;
        }
        if b[i] == '\\' && b.get(i + 1) == Some(&'u') {
            let hex = |v: &[char]| !v.is_empty() && v.iter().all(|c| c.is_ascii_hexdigit());
            let val = |v: &[char]| u32::from_str_radix(&v.iter().collect::<String>(), 16).unwrap();
            if b.len() >= i + 6 && hex(&b[i + 2..i + 6]) {
                out.push(val(&b[i + 2..i + 6]));
                i += 6;
                continue;
            }
            if b.get(i + 2) == Some(&'{') {
                if let Some(k) = b[i + 3..].iter().position(|c| *c == '}') {
                    let d = &b[i + 3..i + 3 + k];
                    if k <= 5 && hex(d) && val(d) <= 0x2ffff {
                        out.push(val(d));
                        i += k + 4;
                        continue;
                    }
                }
            }
        }
        out.push(b[i] as u32);
        i += 1;
    }
    Some(out)
}
fn rat(n: rug::Integer, d: rug::Integer) -> Sx {
    let r = rug::Rational::from((n, d));
    a(&format!("R:{}/{}", r.numer(), r.denom()))
}
fn int_of(s: &str) -> Option<rug::Integer> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut n = rug::Integer::new();
    for c in s.bytes() {
        n = n * 10 + (c - b'0');
    }
    Some(n)
}
fn literal(t: &str, lra: bool) -> Option<Sx> {
    if t.starts_with('"') {
        return unescape(t).map(|v| a(&format!("S:{v:?}")));
    }
    for (p, k) in [("#b", 1u32), ("#x", 4)] {
        if let Some(d) = t.strip_prefix(p) {
            let mut n = rug::Integer::new();
            for c in d.chars() {
                n = n * (1u32 << k) + c.to_digit(16)?;
            }
            return Some(a(&format!("B:{}:{n}", d.len() * k as usize)));
        }
    }
    let (neg, u) = match t.strip_prefix('-') {
        Some(u) => (true, u),
        None => (false, t),
    };
    let sg = |n: rug::Integer| if neg { -n } else { n };
    if let Some(n) = int_of(u) {
        let n = sg(n);
        return Some(if lra { rat(n, 1.into()) } else { a(&format!("I:{n}")) });
    }
    if let Some((x, y)) = u.split_once('.') {
        let (n, _) = (int_of(&format!("{x}{y}"))?, int_of(x)?);
        let mut d = rug::Integer::from(1);
        for _ in 0..y.len() {
            d *= 10;
        }
        int_of(y)?;
        return Some(rat(sg(n), d));
    }
    let (x, y) = u.split_once('/')?;
    Some(rat(sg(int_of(x)?), int_of(y)?))
}
fn var(n: &str, s: &Sx) -> Sx {
    l(vec![a("@v"), a(n), s.clone()])
}
fn bound(k: usize) -> Sx {
    a(&format!("@{k}"))
}
struct Mean<'a> {
    sorts: &'a SortDefs,
    lra: bool,
    /// nodes that may still be made
    fuel: usize,
}
impl Mean<'_> {
    fn of(&mut self, t: &Sx, env: &Env, d: usize) -> Option<Sx> {
        self.fuel = self.fuel.checked_sub(1)?;
        let v = match t {
            Sx::A(s) => return self.symbol(s, env, d),
            Sx::L(v) => v,
        };
        let all = |m: &mut Self, ts: &[Sx]| ts.iter().map(|t| m.of(t, env, d)).collect::<Option<Vec<Sx>>>();
        if let Some(h) = v[0].atom() {
            match h {
                "let" => {
                    let mut new = env.clone();
                    for b in v[1].list()? {
                        let b = b.list()?;
                        new = push(&new, &raw(b[0].atom()?), Kind::Thunk(b[1].clone(), env.clone(), self.lra));
                    }
                    return self.of(&v[2], &new, d);
                }
                "forall" | "exists" | "choice" | "lambda" => {
                    let mut new = env.clone();
                    let mut ss = vec![];
                    for (i, b) in v[1].list()?.iter().enumerate() {
                        let b = b.list()?;
                        ss.push(self.sorts.of(&b[1]));
                        new = push(&new, &raw(b[0].atom()?), Kind::Bound(d + i));
                    }
                    let n = ss.len();
                    return Some(l(vec![a(h), l(ss), self.of(&v[2], &new, d + n)?]));
                }
                "!" => return self.of(&v[1], env, d),
                "_" => {
                    let n = int_of(v[1].atom()?.strip_prefix("bv")?)?;
                    let w = int_of(v[2].atom()?)?.to_u32()?;
                    return Some(a(&format!("B:{w}:{}", n.keep_bits(w))));
                }
                h if is_op(h) => {
                    let args = all(self, &v[1..])?;
                    return Some(quotient(l(std::iter::once(a(h)).chain(args).collect())));
                }
                _ => {}
            }
            if let Some(Kind::Def(ps, body, denv, lra)) = find(env, &raw(h)) {
                if !ps.is_empty() {
                    let mut new = denv;
                    for (p, x) in ps.iter().zip(&v[1..]) {
                        new = push(&new, p, Kind::Thunk(x.clone(), env.clone(), self.lra));
                    }
                    return self.at(&body, &new, d, lra);
                }
            }
            let f = self.symbol(h, env, d)?;
            let args = all(self, &v[1..])?;
            return Some(l(vec![a("@app"), f].into_iter().chain(args).collect()));
        }
        let args = all(self, &v[1..])?;
        let h = match v[0].op() {
            Some(("_", ix)) => l(std::iter::once(a("_")).chain(ix.iter().map(|x| x.atom().and_then(int_of).map_or(x.clone(), |n| a(&format!("I:{n}"))))).collect()),
            Some(("as", c)) => l(vec![a("as"), a("const"), self.sorts.of(&c[1])]),
            _ => {
                let f = self.of(&v[0], env, d)?;
                return Some(l(vec![a("@app"), f].into_iter().chain(args).collect()));
            }
        };
        Some(l(std::iter::once(h).chain(args).collect()))
    }
    fn at(&mut self, t: &Sx, env: &Env, d: usize, lra: bool) -> Option<Sx> {
        let old = std::mem::replace(&mut self.lra, lra);
        let t = self.of(t, env, d);
        self.lra = old;
        t
    }
    fn symbol(&mut self, s: &str, env: &Env, d: usize) -> Option<Sx> {
        self.fuel = self.fuel.checked_sub(1)?;
        if !s.starts_with('|') {
            if let Some(x) = literal(s, self.lra) {
                return Some(x);
            }
        }
        let n = raw(s);
        match find(env, &n) {
            Some(Kind::Bound(k)) => Some(bound(k)),
            Some(Kind::Global(s)) => Some(var(&n, &s)),
            Some(Kind::Thunk(t, e, lra) | Kind::Def(_, t, e, lra)) => self.at(&t, &e, d, lra),
            None => Some(l(vec![a(s)])),
        }
    }
}
fn fun(ps: &[Sx], r: &Sx) -> Sx {
    crate::typing::fun(ps, r)
}

// ---- what the tool has made of it ----
#[derive(Clone)]
enum TKind {
    Bound(usize),
    Let(Rc<Term>, TEnv),
}
struct TNode {
    name: String,
    sort: Rc<Term>,
    kind: TKind,
    next: TEnv,
}
type TEnv = Option<R<TNode>>;
struct Tool<'a> {
    pool: &'a mut PrimitivePool,
    fuel: usize,
}
impl Tool<'_> {
    fn tree(&mut self, t: &Rc<Term>, env: &TEnv, d: usize) -> Option<Sx> {
        self.fuel = self.fuel.checked_sub(1)?;
        let all = |m: &mut Self, ts: &[Rc<Term>]| ts.iter().map(|t| m.tree(t, env, d)).collect::<Option<Vec<Sx>>>();
        Some(match t.as_ref() {
            Term::Const(c) => constant(c),
            Term::Var(n, s) => {
                let mut e = env;
                while let Some(x) = e {
                    // (variables are names with sorts)
                    if x.name == *n && x.sort == *s {
                        return match &x.kind {
                            TKind::Bound(k) => Some(bound(*k)),
                            TKind::Let(t, e) => self.tree(t, e, d),
                        };
                    }
                    e = &x.next;
                }
                var(n, &crate::ast::conv(s))
            }
            Term::App(f, args) => {
                let f = self.tree(f, env, d)?;
                let args = all(self, args)?;
                l(vec![a("@app"), f].into_iter().chain(args).collect())
            }
            Term::Op(op, args) => {
                let args = all(self, args)?;
                quotient(l(std::iter::once(a(&op.to_string())).chain(args).collect()))
            }
            Term::ParamOp { op, op_args, args } => {
                let h = match op {
                    ParamOperator::ArrayConst => l(vec![a("as"), a("const"), crate::ast::conv(&op_args[0])]),
                    _ => l(vec![a("_"), a(&op.to_string())].into_iter().chain(op_args.iter().map(|x| match x.as_ref() {
                        Term::Const(c) => constant(c),
                        _ => a("?"),
                    })).collect()),
                };
                let args = all(self, args)?;
                l(std::iter::once(h).chain(args).collect())
            }
            Term::Binder(b, bs, body) => {
                let mut new = env.clone();
                let mut ss = vec![];
                for (i, (n, s)) in bs.iter().enumerate() {
                    ss.push(crate::ast::conv(s));
                    new = Some(R::new(TNode { name: n.clone(), sort: s.clone(), kind: TKind::Bound(d + i), next: new }));
                }
                let h = match b {
                    Binder::Forall => "forall",
                    Binder::Exists => "exists",
                    Binder::Choice => "choice",
                    Binder::Lambda => "lambda",
                };
                let n = ss.len();
                l(vec![a(h), l(ss), self.tree(body, &new, d + n)?])
            }
            Term::Let(bs, body) => {
                let mut new = env.clone();
                for (n, v) in bs.iter() {
                    let sort = self.pool.sort(v);
                    new = Some(R::new(TNode { name: n.clone(), sort, kind: TKind::Let(v.clone(), env.clone()), next: new }));
                }
                self.tree(body, &new, d)?
            }
            Term::Sort(_) => a("?sort"),
        })
    }
}
/// a quotient of literals is a literal
fn quotient(t: Sx) -> Sx {
    if let Some(("/", [x, y])) = t.op() {
        let lit = |x: &Sx| x.atom().and_then(|s| s.strip_prefix("R:")).and_then(|s| s.split_once('/')).and_then(|(n, d)| Some(rug::Rational::from((n.parse::<rug::Integer>().ok()?, d.parse::<rug::Integer>().ok()?))));
        if let (Some(x), Some(y)) = (lit(x), lit(y)) {
            if y != 0 {
                let r = x / y;
                return a(&format!("R:{}/{}", r.numer(), r.denom()));
            }
        }
    }
    t
}
fn differ(x: &Sx, y: &Sx) -> String {
    if let (Sx::L(v), Sx::L(w)) = (x, y) {
        if v.len() == w.len() {
            if let Some((x, y)) = v.iter().zip(w.iter()).find(|(x, y)| x != y) {
                return differ(x, y);
            }
        }
    }
    format!("{y} instead of {x}")
}
fn constant(c: &Constant) -> Sx {
    match c {
        Constant::Integer(i) => a(&format!("I:{i}")),
        Constant::Real(r) => a(&format!("R:{}/{}", r.numer(), r.denom())),
        Constant::String(s) => a(&format!("S:{:?}", s.chars().map(|c| c as u32).collect::<Vec<_>>())),
        Constant::BitVec(v, w) => a(&format!("B:{w}:{v}")),
    }
}

// ---- abbreviating ----
/// sorts in a term are replaced by abbreviations now and then
fn abbreviate_sorts(r: &mut Rng, t: &Sx, ab: &[(Sx, Sx)]) -> Sx {
    match t {
        Sx::A(_) => t.clone(),
        Sx::L(v) => {
            let h = v.first().and_then(|x| x.atom());
            match h {
                Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => {
                    let bs = v[1].list().unwrap().iter().map(|b| {
                        let b = b.list().unwrap();
                        l(vec![b[0].clone(), sort_text(r, &b[1], ab)])
                    });
                    let bs = l(bs.collect());
                    l(vec![v[0].clone(), bs, abbreviate_sorts(r, &v[2], ab)])
                }
                Some("as") if v.len() == 3 => l(vec![v[0].clone(), v[1].clone(), sort_text(r, &v[2], ab)]),
                Some("_") => t.clone(),
                Some("!") => {
                    let mut w = v.clone().to_vec();
                    w[1] = abbreviate_sorts(r, &v[1], ab);
                    l(w)
                }
                _ => l(v.iter().map(|x| abbreviate_sorts(r, x, ab)).collect()),
            }
        }
    }
}
fn sort_text(r: &mut Rng, s: &Sx, ab: &[(Sx, Sx)]) -> Sx {
    if r.chance(3, 4) {
        let v: Vec<&Sx> = ab.iter().filter(|x| x.0 == *s).map(|x| &x.1).collect();
        if !v.is_empty() {
            return (*r.pick(&v)).clone();
        }
    }
    match s {
        Sx::L(v) if v[0].atom() != Some("_") => l(std::iter::once(v[0].clone()).chain(v[1..].iter().map(|x| sort_text(r, x, ab))).collect()),
        _ => s.clone(),
    }
}
/// the subterms of a term, each with the sorts of the variables it mentions
fn occurrences(t: &Sx, p: &mut Vec<usize>, tc: &mut Tc, all: bool, out: &mut Vec<(Vec<usize>, String)>) {
    let Sx::L(v) = t else { return };
    if v.is_empty() {
        return;
    }
    let h = v[0].atom();
    if !matches!(h, Some("!" | "_")) {
        let mut key = t.to_string();
        for (n, s) in &tc.scope {
            // (names of terms in proofs are abbreviations of text, in which definitions might mean something else)
            key.push_str(&if all || t.contains_atom(n) || t.contains_atom(&q(n)) || t.contains_atom(&format!("|{n}|")) { format!(" {n}:{s}") } else { String::new() });
        }
        out.push((p.clone(), key));
    }
    let mut go = |i: &[usize], t: &Sx, tc: &mut Tc, out: &mut Vec<(Vec<usize>, String)>| {
        let k = p.len();
        p.extend_from_slice(i);
        occurrences(t, p, tc, all, out);
        p.truncate(k);
    };
    match h {
        Some("let") => {
            let mut new = vec![];
            for (i, b) in v[1].list().unwrap().iter().enumerate() {
                let b = b.list().unwrap();
                go(&[1, i, 1], &b[1], tc, out);
                let Ty::T(s) = tc.clone().ty(&b[1]) else { return };
                new.push((raw(b[0].atom().unwrap()), s));
            }
            let k = tc.scope.len();
            tc.scope.extend(new);
            go(&[2], &v[2], tc, out);
            tc.scope.truncate(k);
        }
        Some("forall" | "exists" | "choice" | "lambda") => {
            let k = tc.scope.len();
            for b in v[1].list().unwrap() {
                let b = b.list().unwrap();
                tc.scope.push((raw(b[0].atom().unwrap()), crate::typing::norm(&b[1])));
            }
            go(&[2], &v[2], tc, out);
            tc.scope.truncate(k);
        }
        Some("!") => go(&[1], &v[1], tc, out),
        Some("_") => {}
        _ => {
            for (i, x) in v.iter().enumerate() {
                if i == 0 && (h.is_some() || matches!(x.op(), Some(("_" | "as", _)))) {
                    continue;
                }
                go(&[i], x, tc, out);
            }
        }
    }
}
/// Names subterms that occur several times, as solvers do. `ts` come with the variables in scope.
fn share(r: &mut Rng, sig: &Sig, hostile: bool, ts: &mut [(Sx, Vec<(String, Sx)>)]) -> usize {
    let mut n = 0;
    for _ in 0..1 + r.below(5) {
        let mut occ: Vec<(usize, Vec<usize>, String)> = vec![];
        for (i, (t, scope)) in ts.iter().enumerate() {
            let mut tc = Tc::new(sig);
            tc.scope = scope.clone();
            let mut o = vec![];
            occurrences(t, &mut vec![], &mut tc, hostile, &mut o);
            occ.extend(o.into_iter().map(|(p, k)| (i, p, k)));
        }
        let keys: Vec<&String> = occ.iter().map(|o| &o.2).collect();
        let many: Vec<&String> = keys.iter().filter(|k| !k.contains(":named") && keys.iter().filter(|x| x == k).count() > 1).cloned().collect();
        let key = if !many.is_empty() && r.chance(5, 6) {
            (*r.pick(&many)).clone()
        } else if occ.is_empty() {
            return n;
        } else {
            r.pick(&occ).2.clone()
        };
        let name = format!("@sh_{n}");
        n += 1;
        // later ones first, so that paths stay right
        let mine: Vec<(usize, Vec<usize>, String)> = occ.into_iter().filter(|o| o.2 == key).collect();
        for (k, (i, p, _)) in mine.iter().enumerate().rev() {
            let t = &ts[*i].0;
            let sub = t.at(p).clone();
            let new = if k == 0 {
                l(vec![a("!"), sub, a(":named"), a(&name)])
            } else if r.chance(4, 5) {
                a(&name)
            } else {
                continue;
            };
            ts[*i].0 = t.replace(p, &new);
        }
    }
    n
}

pub fn run(c: &mut Ctx) {
    for i in 0..c.iters(5200) {
        if c.late() {
            return;
        }
        if i % 4 == 0 {
            literals(&mut c.rng, &mut c.rep);
        }
        document(&mut c.rng, &mut c.rep);
    }
}

fn literals(r: &mut Rng, rep: &mut Report) {
    let digits = |r: &mut Rng, n: usize| (0..n).map(|_| *r.pick(&['0', '1', '9', '5', '0'])).collect::<String>();
    let num = |r: &mut Rng| {
        let n = 1 + r.below(30);
        let d = digits(r, n);
        let d = d.trim_start_matches('0').to_string();
        if d.is_empty() {
            "0".to_string()
        } else {
            d
        }
    };
    let lra = r.chance(1, 4);
    let mut bad = false;
    let t = match r.below(7) {
        0 => a(&num(r)),
        1 | 2 => {
            let n = 1 + r.below(25);
            a(&format!("{}.{}", num(r), digits(r, n)))
        }
        3 => {
            let n = 1 + r.below(140);
            a(&format!("#b{}", (0..n).map(|_| if r.coin() { '0' } else { '1' }).collect::<String>()))
        }
        4 => {
            let n = 1 + r.below(40);
            a(&format!("#x{}", (0..n).map(|_| *r.pick(&['0', '9', 'a', 'A', 'f', 'F', '1'])).collect::<String>()))
        }
        5 => l(vec![a("_"), a(&format!("bv{}", num(r))), a(&(1 + r.below(130)).to_string())]),
        _ => {
            let mut s = String::from("\"");
            for _ in 0..r.below(6) {
                s.push_str(*r.pick::<&str>(&["\\", "u", "{", "}", "\\u", "\\u{", "0041", "41", "1F600", "2ffff", "\"\"", "x", "é", "\u{2F800}", "\n", "00041", "000041", "D7FF", "e000", "\\\\", "\\u{0}", "\\u0000", "g"]));
            }
            if r.chance(1, 40) {
                s.push_str("\\u{d800}");
            }
            s.push('"');
            // surrogates are no characters here
            bad = unescape(&s).is_some_and(|v| v.iter().any(|c| char::from_u32(*c).is_none()));
            a(&s)
        }
    };
    let sorts = SortDefs::default();
    let want = Mean { sorts: &sorts, lra, fuel: 100 }.of(&t, &None, 0).unwrap();
    let text = t.to_string();
    let pb = format!("{}(assert (= {text} {text}))\n", if lra { "(set-logic QF_LRA)\n" } else { "" });
    rep.evals += 1;
    crate::watch::set(|| pb.clone());
    let mut pool = PrimitivePool::new();
    let got = guarded(|| parser::parse_instance_with_pool(Cursor::new(pb.clone()), Cursor::new(String::new()), None, parser::Config::new(), &mut pool).map_err(|e| e.to_string()));
    match got {
        Err(p) => rep.violation("panic:literal", &p, &pb),
        Ok(Err(_)) if bad => rep.count("literal:surrogate"),
        Ok(Err(e)) => rep.violation("rejected:literal", &e, &pb),
        Ok(Ok((p, _, _))) => {
            let t = p.premises.iter().next().unwrap().clone();
            let got = Tool { pool: &mut pool, fuel: 1000 }.tree(&t, &None, 0).unwrap();
            let want = l(vec![a("="), want.clone(), want]);
            if got != want {
                rep.violation("literal", &format!("{got} instead of {want}"), &pb);
            } else {
                rep.count("literals");
                rep.distinct.insert(crate::report::hash_str(&pb));
            }
        }
    }
}

fn document(r: &mut Rng, rep: &mut Report) {
    let mut sig = Sig::random(r);
    sig.named = true;
    if r.chance(1, 6) {
        sig.lra = true;
        sig.sorts.clear();
        for f in &mut sig.funs {
            for s in f.1.iter_mut().chain(std::iter::once(&mut f.2)) {
                *s = a(*r.pick(&["Bool", "Real"]));
            }
        }
    }
    let (expand, apply) = (r.chance(2, 3), r.chance(3, 4));
    // ---- sort definitions ----
    let mut sd = SortDefs::default();
    let mut ab: Vec<(Sx, Sx)> = vec![];
    let mut text = String::new();
    if sig.lra {
        text.push_str("(set-logic QF_LRA)\n");
    }
    for (n, k) in &sig.sorts {
        text.push_str(&format!("(declare-sort {} {})\n", q(n), k));
    }
    if !sig.lra {
        for k in 0..r.below(3) {
            let np = r.below(3);
            let mut ps: Vec<String> = vec![];
            for _ in 0..np {
                let p = match r.below(4) {
                    0 if !sig.sorts.is_empty() => r.pick(&sig.sorts).0.clone(),
                    1 if !sd.0.is_empty() => r.pick(&sd.0).0.clone(),
                    _ => format!("A{}", r.below(4)),
                };
                if !ps.contains(&p) {
                    ps.push(p);
                }
            }
            // inside, the parameters are sorts like others
            let mut inner = sig.clone();
            inner.sorts.retain(|s| !ps.contains(&s.0));
            for p in &ps {
                inner.sorts.push((p.clone(), 0));
                inner.sorts.push((p.clone(), 0));
            }
            let vis: Vec<(Sx, Sx)> = ab.iter().filter(|x| !ps.iter().any(|p| x.0.contains_atom(&q(p)) || x.1.contains_atom(&q(p)))).cloned().collect();
            let body = inner.sort(r, 2);
            let body = sort_text(r, &body, &vis);
            let n = format!("SD{k}");
            text.push_str(&format!("(define-sort {n} ({}) {body})\n", ps.iter().map(|p| q(p)).collect::<Vec<_>>().join(" ")));
            sd.0.push((n.clone(), ps.clone(), body));
            for _ in 0..2 {
                let args: Vec<Sx> = ps.iter().map(|_| sig.sort(r, 1)).collect();
                let args: Vec<Sx> = args.iter().map(|s| sort_text(r, s, &ab)).collect();
                let short = if args.is_empty() { a(&n) } else { l(std::iter::once(a(&n)).chain(args).collect()) };
                let long = crate::typing::norm(&requote(&sd.of(&short)));
                ab.push((long.clone(), short));
                // there is something of this sort
                if sig.funs.len() < 14 {
                    let nm = format!("sd_{}", sig.funs.len());
                    sig.funs.push((nm, vec![], long));
                }
            }
        }
    }
    let mut env: Env = None;
    for (n, ps, s) in &sig.funs {
        let ss: Vec<Sx> = ps.iter().map(|s| sd.of(s)).collect();
        let g = if ss.is_empty() { sd.of(s) } else { fun(&ss, &sd.of(s)) };
        env = push(&env, n, Kind::Global(g));
        let ps: Vec<Sx> = ps.iter().map(|s| sort_text(r, s, &ab)).collect();
        text.push_str(&format!("(declare-fun {} {} {})\n", q(n), l(ps), sort_text(r, s, &ab)));
    }
    let mut want: Vec<Sx> = vec![];
    let lra = sig.lra;
    let hostile = r.chance(1, 5);
    let sg = sig.clone();
    let mut g = Fg::new(r, &sg);
    g.hostile = hostile;
    let mean = |t: &Sx, env: &Env, lra: bool| Mean { sorts: &sd, lra, fuel: 60_000 }.of(t, env, 0);
    macro_rules! some {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => {
                    rep.count("large");
                    return;
                }
            }
        };
    }
    // names introduced inside a term, inner ones first
    let names = |t: &Sx, env: &mut Env| {
        let mut ps = t.paths();
        ps.sort_by(|x, y| x.iter().zip(y).find(|(x, y)| x != y).map_or(y.len().cmp(&x.len()), |(x, y)| x.cmp(y)));
        for p in ps {
            if let Some(("!", v)) = t.at(&p).op() {
                if v.len() == 3 && v[1].atom() == Some(":named") {
                    let e = env.clone();
                    *env = push(env, &raw(v[2].atom().unwrap()), Kind::Def(vec![], v[0].clone(), e, lra));
                }
            }
        }
    };
    // ---- definitions ----
    for k in 0..g.r.below(4) {
        let n = format!("{}{k}", g.r.pick(&["d", "-7", "let ", "p_"]));
        if sg.funs.iter().any(|f| f.0 == n) {
            continue;
        }
        let (ps, s) = params(&mut g, &sg);
        let rec = g.r.chance(1, 4) && ps.iter().all(|p| p.0 != n);
        // (named terms in bodies would be named before they are defined)
        let keep = g.scope.len();
        g.scope.extend(ps.clone());
        let global = {
            let ss: Vec<Sx> = ps.iter().map(|p| sd.of(&p.1)).collect();
            let r = sd.of(&s);
            if ss.is_empty() {
                r
            } else {
                fun(&ss, &r)
            }
        };
        if rec {
            g.define_rec(&n, &ps, &s);
            env = push(&env, &n, Kind::Global(global.clone()));
        }
        let ndefs = g.defs.len();
        let b = g.term(&s, 2);
        g.scope.truncate(keep);
        // in the body of a nullary definition terms can be named
        names(&b, &mut env);
        let b2 = abbreviate_sorts(g.r, &b, &ab);
        let _ = ndefs;
        let pt = l(ps.iter().map(|(x, s)| l(vec![a(&q(x)), sort_text(g.r, s, &ab)])).collect());
        let st = sort_text(g.r, &s, &ab);
        if rec && g.r.coin() {
            text.push_str(&format!("(define-funs-rec (({} {pt} {st})) ({b2}))\n", q(&n)));
        } else {
            text.push_str(&format!("({} {} {pt} {st} {b2})\n", if rec { "define-fun-rec" } else { "define-fun" }, q(&n)));
        }
        let pnames: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
        if rec || !apply {
            if !rec {
                g.define_rec(&n, &ps, &s);
            }
            let e0 = env.clone();
            let mut e = env.clone();
            for (i, p) in ps.iter().enumerate() {
                e = push(&e, &p.0, Kind::Bound(i));
            }
            let body = some!(Mean { sorts: &sd, lra, fuel: 60_000 }.of(&b, &e, ps.len()));
            if !rec {
                env = push(&e0, &n, Kind::Global(global.clone()));
            }
            let f = var(&n, &global);
            let ss = l(ps.iter().map(|p| sd.of(&p.1)).collect());
            want.push(if ps.is_empty() {
                l(vec![a("="), f, body])
            } else if rec {
                let ap = l(vec![a("@app"), f].into_iter().chain((0..ps.len()).map(bound)).collect());
                l(vec![a("forall"), ss, l(vec![a("="), ap, body])])
            } else {
                l(vec![a("="), f, l(vec![a("lambda"), ss, body])])
            });
        } else {
            g.define(&n, &ps, &s, &b);
            let e = env.clone();
            env = push(&env, &n, Kind::Def(pnames, b.clone(), e, lra));
        }
    }
    for _ in 0..1 + g.r.below(3) {
        let t = g.term(&a("Bool"), 4);
        names(&t, &mut env);
        want.push(some!(mean(&t, &env, lra)));
        let t = abbreviate_sorts(g.r, &t, &ab);
        let t = decorate(g.r, &t);
        text.push_str(&format!("(assert {t})\n"));
    }
    let pb = text;
    // ---- the proof ----
    let defs = std::mem::take(&mut g.defs);
    let (fresh, bnd) = (g.fresh, g.bound.clone());
    let mut psig = sig.clone();
    psig.named = false;
    psig.gmp = true;
    psig.lra = false;
    let heads = std::mem::take(&mut g.heads);
    let mut g = Fg { r, sig: &psig, scope: vec![], defs, fresh, bound: bnd, heads, hostile };
    enum Line {
        Text(String),
        /// a command with terms in it, by index
        Step(String, Vec<usize>, String, Vec<usize>),
        Assign(String, Sx, usize),
    }
    let mut alldefs: Vec<(String, Vec<Sx>, Sx)> = vec![];
    let mut lines: Vec<Line> = vec![];
    let mut ts: Vec<(Sx, Vec<(String, Sx)>)> = vec![];
    let mut pwant: Vec<(String, Sx)> = vec![];
    let mut frames: Vec<(String, usize, usize, Env, bool)> = vec![];
    let mut uid = 0;
    let n = 2 + g.r.below(8);
    // numerals of proofs are integers
    let plra = false;
    while uid < n || !frames.is_empty() {
        uid += 1;
        if uid < n && frames.len() < 3 && g.r.chance(1, 5) {
            let id = format!("s{uid}");
            let keep = g.scope.len();
            let nd = g.defs.len();
            let e = env.clone();
            lines.push(Line::Text(format!("(anchor :step {id} :args (")));
            for _ in 0..1 + g.r.below(2) {
                let x = g.r.pick(&g.bound).clone();
                let s = psig.sort(g.r, 1);
                if g.r.coin() {
                    lines.push(Line::Text(format!("({} {}) ", q(&x), sort_text(g.r, &s, &ab))));
                } else {
                    let t = g.term(&s, 2);
                    ts.push((t.clone(), g.scope.clone()));
                    pwant.push((format!("{id}:{x}"), some!(mean(&t, &env, plra))));
                    lines.push(Line::Assign(q(&x), s.clone(), ts.len() - 1));
                }
                env = push(&env, &x, Kind::Global(sd.of(&s)));
                g.scope.push((x, s));
            }
            lines.push(Line::Text("))\n".into()));
            frames.push((id, keep, nd, e, false));
            continue;
        }
        if uid < n && g.r.chance(1, 6) {
            let nm = format!("k{uid}");
            let (ps, s) = params(&mut g, &psig);
            let keep = g.scope.len();
            g.scope.extend(ps.clone());
            let b = g.term(&s, 2);
            g.scope.truncate(keep);
            let b2 = abbreviate_sorts(g.r, &b, &ab);
            let pt = l(ps.iter().map(|(x, s)| l(vec![a(&q(x)), sort_text(g.r, s, &ab)])).collect());
            lines.push(Line::Text(format!("(define-fun {nm} {pt} {} {b2})\n", sort_text(g.r, &s, &ab))));
            g.define(&nm, &ps, &s, &b);
            let e = env.clone();
            env = push(&env, &nm, Kind::Def(ps.iter().map(|p| p.0.clone()).collect(), b, e, plra));
            continue;
        }
        let close = frames.last().is_some_and(|f| f.4) && (uid >= n || g.r.chance(1, 3));
        let id = if close { frames.last().unwrap().0.clone() } else { format!("t{uid}") };
        let mut ix = vec![];
        for i in 0..g.r.below(3) {
            let t = g.term(&a("Bool"), 3);
            pwant.push((format!("{id}/{i}"), some!(mean(&t, &env, plra))));
            ts.push((t, g.scope.clone()));
            ix.push(ts.len() - 1);
        }
        let mut ax = vec![];
        for i in 0..g.r.below(2) {
            let s = psig.sort(g.r, 1);
            let t = g.term(&s, 2);
            pwant.push((format!("{id}.{i}"), some!(mean(&t, &env, plra))));
            ts.push((t, g.scope.clone()));
            ax.push(ts.len() - 1);
        }
        lines.push(Line::Step(id, ix, "resolution".into(), ax));
        if close {
            let (_, keep, nd, e, _) = frames.pop().unwrap();
            g.scope.truncate(keep);
            alldefs.extend(g.defs[nd..].iter().map(|d| (d.name.clone(), d.ps.clone(), d.sort.clone())));
            g.defs.truncate(nd);
            env = e;
        }
        if let Some(f) = frames.last_mut() {
            f.4 = true;
        }
    }
    alldefs.extend(g.defs.iter().map(|d| (d.name.clone(), d.ps.clone(), d.sort.clone())));
    drop(g);
    let mut tsig = psig.clone();
    tsig.funs.extend(alldefs);
    if r.chance(2, 3) {
        let k = share(r, &tsig, hostile, &mut ts);
        for _ in 0..k {
            rep.count("shared");
        }
    }
    let ts: Vec<Sx> = ts.into_iter().map(|t| { let t = abbreviate_sorts(r, &t.0, &ab); decorate(r, &t) }).collect();
    let mut pf = String::new();
    for ln in &lines {
        match ln {
            Line::Text(t) => pf.push_str(t),
            Line::Assign(x, s, i) => {
                if r.coin() {
                    pf.push_str(&format!("(:= {x} {}) ", ts[*i]));
                } else {
                    let s = sort_text(r, s, &ab);
                    pf.push_str(&format!("(:= ({x} {s}) {}) ", ts[*i]));
                }
            }
            Line::Step(id, cl, rule, args) => {
                let j = |v: &[usize]| v.iter().map(|i| ts[*i].to_string()).collect::<Vec<_>>().join(" ");
                pf.push_str(&format!("(step {id} (cl {}) :rule {rule}", j(cl)));
                if !args.is_empty() {
                    pf.push_str(&format!(" :args ({})", j(args)));
                }
                pf.push_str(")\n");
            }
        }
    }
    // ---- compare ----
    let mut conf = parser::Config::new();
    conf.expand_lets = expand;
    conf.apply_function_defs = apply;
    let input = format!("{pb}--- proof\n{pf}--- expand {expand} apply {apply}");
    rep.evals += 1;
    crate::watch::set(|| input.clone());
    let mut pool = PrimitivePool::new();
    let got = guarded(|| parser::parse_instance_with_pool(Cursor::new(pb.clone()), Cursor::new(pf.clone()), None, conf, &mut pool).map_err(|e| e.to_string()));
    let (problem, proof) = match got {
        Err(p) => {
            rep.violation("panic", &p, &input);
            return;
        }
        Ok(Err(e)) if hostile && e.contains("bound") => {
            rep.count("refused:capture");
            return;
        }
        Ok(Err(e)) => {
            rep.violation("rejected", &e, &input);
            return;
        }
        Ok(Ok((a, b, _))) => (a, b),
    };
    let mut tool = Tool { pool: &mut pool, fuel: 3_000_000 };
    let mut have: Vec<Sx> = vec![];
    for p in &problem.premises {
        have.push(some!(tool.tree(p, &None, 0)));
    }
    for w in &want {
        if !have.contains(w) {
            rep.violation("problem", &have.iter().filter(|h| !want.contains(h)).map(|h| differ(w, h)).min_by_key(|s| s.len()).unwrap_or_default(), &input);
            return;
        }
    }
    for h in &have {
        if !want.contains(h) {
            rep.violation("problem", &format!("extra {h}"), &input);
            return;
        }
    }
    let mut phave: Vec<(String, Sx)> = vec![];
    fn walk(cs: &[ProofCommand], tool: &mut Tool, out: &mut Vec<(String, Sx)>) -> Option<()> {
        for c in cs {
            match c {
                ProofCommand::Assume { .. } => {}
                ProofCommand::Step(s) => {
                    for (i, t) in s.clause.iter().enumerate() {
                        out.push((format!("{}/{i}", s.id), tool.tree(t, &None, 0)?));
                    }
                    for (i, t) in s.args.iter().enumerate() {
                        out.push((format!("{}.{i}", s.id), tool.tree(t, &None, 0)?));
                    }
                }
                ProofCommand::Subproof(s) => {
                    for x in &s.args {
                        if let AnchorArg::Assign((n, _), t) = x {
                            out.push((format!("{}:{n}", c.id()), tool.tree(t, &None, 0)?));
                        }
                    }
                    walk(&s.commands, tool, out)?;
                }
            }
        }
        Some(())
    }
    some!(walk(&proof.commands, &mut tool, &mut phave));
    let (mut x, mut y) = (pwant.clone(), phave.clone());
    let key = |v: &(String, Sx)| (v.0.clone(), v.1.to_string());
    x.sort_by_key(key);
    y.sort_by_key(key);
    if x != y {
        let d = x.iter().zip(&y).find(|(x, y)| x != y).map_or("number of terms".to_string(), |(x, y)| format!("{}: {}", x.0, differ(&x.1, &y.1)));
        rep.violation("proof", &d, &input);
        return;
    }
    rep.count(if hostile { "compared:hostile" } else { "compared" });
    rep.count(&format!("expand:{expand} apply:{apply}"));
    for _ in 0..want.len() + pwant.len() {
        rep.count("terms");
    }
    for k in [":named", "define-fun-rec", "define-funs-rec", "define-fun ", "define-sort", "(let ", "lambda", "anchor"] {
        if input.contains(k) {
            rep.seen(k.trim());
        }
    }
    rep.distinct.insert(crate::report::hash_str(&input));
}
fn requote(s: &Sx) -> Sx {
    match s {
        Sx::A(t) if ["Bool", "Int", "Real", "String", "RegLan", "Array"].contains(&&**t) => s.clone(),
        Sx::A(t) => a(&q(t)),
        Sx::L(v) if v.len() == 3 && v[0].atom() == Some("_") && v[1].atom() == Some("BitVec") => s.clone(),
        Sx::L(v) => l(v.iter().map(requote).collect()),
    }
}
fn params(g: &mut Fg, sig: &Sig) -> (Vec<(String, Sx)>, Sx) {
    let np = g.r.below(4);
    let mut ps: Vec<(String, Sx)> = vec![];
    for _ in 0..np {
        let x = g.r.pick(&g.bound).clone();
        if !ps.iter().any(|p| p.0 == x) {
            ps.push((x, sig.sort(g.r, 1)));
        }
    }
    (ps, sig.sort(g.r, 1))
}
/// annotations that mean nothing
fn decorate(r: &mut Rng, t: &Sx) -> Sx {
    if r.chance(1, 4) {
        l(vec![a("!"), t.clone(), a(":note"), l(vec![a("x"), a("|)|"), a("\")\"")])])
    } else {
        t.clone()
    }
}
