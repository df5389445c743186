//! Substitution, free variables, alpha-equivalence and comparison modulo reordering/n-ary expansion.
use super::Ctx;
use crate::alpha::*;
use crate::ast::*;
use crate::eval::*;
use crate::rng::Rng;
use crate::run::guarded;
use crate::sorts::*;
use crate::sx::*;
use carcara::ast::{Polyeq, PrimitivePool, Substitution, TermPool};
use indexmap::IndexMap;
use std::collections::BTreeSet;
use std::rc::Rc;

pub const UN: &[&str] = &["a", "b", "c", "a'", "b'", "a''"];
pub const BN: &[&str] = &["p", "q", "p'"];
pub fn decls() -> Decls {
    let mut d = Decls::new();
    let u = d.sort("U");
    for n in UN {
        d.fun(n, &[], u.clone());
    }
    for n in BN {
        d.fun(n, &[], St::Bool);
    }
    d.fun("w", &[], St::Real);
    d.fun("s1", &[], St::Str);
    d.fun("s2", &[], St::Str);
    for n in ["i", "j"] {
        d.fun(n, &[], St::Int);
    }
    d.fun("f", &[u.clone()], u.clone());
    d.fun("g", &[u.clone(), u.clone()], u.clone());
    d.fun("P", &[u.clone()], St::Bool);
    d.fun("R", &[u.clone(), u.clone()], St::Bool);
    d.fun("T", &[u.clone(), u.clone(), u.clone()], St::Bool);
    d
}
pub fn u() -> St {
    St::U(Rc::from("U"))
}
/// Random terms with heavy reuse of names at both sorts.
pub struct G {
    pub letb: bool,
    pub choice: bool,
    pub nary: bool,
    pub dup: bool,
}
impl G {
    fn visible(sc: &Scope, n: &str, s: &St, global: bool) -> bool {
        match sc.iter().rev().find(|(m, _)| &**m == n) {
            Some((_, t)) => t == s,
            None => global,
        }
    }
    pub fn atom(&self, r: &mut Rng, s: &St, sc: &Scope) -> Sx {
        let names: Vec<&str> = UN
            .iter()
            .chain(BN)
            .cloned()
            .filter(|n| Self::visible(sc, n, s, if *s == St::Bool { BN.contains(n) } else { UN.contains(n) }))
            .collect();
        if names.is_empty() {
            return if *s == St::Bool {
                tt()
            } else {
                l(vec![a("choice"), l(vec![l(vec![a("a"), a("U")])]), tt()])
            };
        }
        a(*r.pick(&names))
    }
    pub fn term(&self, r: &mut Rng, s: &St, depth: usize, sc: &mut Scope) -> Sx {
        if depth == 0 || r.chance(1, 8) {
            return self.atom(r, s, sc);
        }
        let d = depth - 1;
        if self.letb && r.chance(1, 6) {
            let k = 1 + r.below(2);
            let mut bs = vec![];
            let mut new = vec![];
            for _ in 0..k {
                let vs = if r.chance(1, 3) { St::Bool } else { u() };
                let n = if r.chance(3, 4) { *r.pick(UN) } else { *r.pick(BN) };
                if new.iter().any(|x: &(Rc<str>, St)| &*x.0 == n) {
                    continue;
                }
                bs.push(l(vec![a(n), self.term(r, &vs, d, sc)]));
                new.push((Rc::from(n), vs));
            }
            let m = sc.len();
            sc.extend(new);
            let b = self.term(r, s, d, sc);
            sc.truncate(m);
            return l(vec![a("let"), l(bs), b]);
        }
        if *s == St::Bool {
            match r.below(12) {
                0..=4 => {
                    let m = sc.len();
                    let mut bs = vec![];
                    for _ in 0..1 + r.below(3) {
                        let vs = if r.chance(1, 4) { St::Bool } else { u() };
                        let n = if r.chance(5, 6) { *r.pick(UN) } else { *r.pick(BN) };
                        if !self.dup && bs.iter().any(|b: &Sx| b.list().unwrap()[0].atom() == Some(n)) {
                            continue;
                        }
                        bs.push(l(vec![a(n), vs.sx()]));
                        sc.push((Rc::from(n), vs));
                    }
                    let b = self.term(r, s, d, sc);
                    sc.truncate(m);
                    l(vec![a(*r.pick(&["forall", "exists"])), l(bs), b])
                }
                5 => not(&self.term(r, s, d, sc)),
                6 | 7 => {
                    let n = 2 + r.below(2) + if self.nary { r.below(3) } else { 0 };
                    let v: Vec<Sx> = (0..n).map(|_| self.term(r, s, d, sc)).collect();
                    app(*r.pick(&["and", "or", "=>", "xor", "="][..if self.nary { 5 } else { 2 }].to_vec().as_slice()), &v)
                }
                8 => app("P", &[self.term(r, &u(), d, sc)]),
                9 => app("R", &[self.term(r, &u(), d, sc), self.term(r, &u(), d, sc)]),
                10 => app("T", &[self.term(r, &u(), d, sc), self.term(r, &u(), d, sc), self.term(r, &u(), d, sc)]),
                _ => eq(&self.term(r, &u(), d, sc), &self.term(r, &u(), d, sc)),
            }
        } else {
            match r.below(6) {
                0 | 1 => app("f", &[self.term(r, s, d, sc)]),
                2 => app("g", &[self.term(r, s, d, sc), self.term(r, s, d, sc)]),
                3 if self.choice => {
                    let n = *r.pick(UN);
                    sc.push((Rc::from(n), u()));
                    let b = self.term(r, &St::Bool, d, sc);
                    sc.pop();
                    l(vec![a("choice"), l(vec![l(vec![a(n), a("U")])]), b])
                }
                4 => l(vec![
                    a("ite"),
                    self.term(r, &St::Bool, d, sc),
                    self.term(r, s, d, sc),
                    self.term(r, s, d, sc),
                ]),
                _ => self.atom(r, s, sc),
            }
        }
    }
}
pub fn interp(r: &mut Rng) -> Interp {
    let mut it = Interp::new(r.next());
    it.dom = 2 + r.below(2) as u64;
    it
}
fn ev(d: &Decls, it: &Interp, t: &Sx) -> Option<u64> {
    match Ev::new(d, it).eval(t) {
        V::Unk => None,
        v => hval(&v),
    }
}
/// true if both evaluate and differ in some interpretation
pub fn differ(r: &mut Rng, d: &Decls, x: &Sx, y: &Sx, n: usize) -> Option<u64> {
    for _ in 0..n {
        let it = interp(r);
        if let (Some(v), Some(w)) = (ev(d, &it, x), ev(d, &it, y)) {
            if v != w {
                return Some(it.seed);
            }
        }
    }
    None
}
fn dump(d: &Decls, parts: &[(&str, String)]) -> String {
    let mut s = d.text();
    for (k, v) in parts {
        s.push_str(&format!("{k}: {v}\n"));
    }
    s
}
fn substitution(c: &mut Ctx, d: &Decls) {
    let r = &mut c.rng;
    let g = G { letb: r.chance(1, 3), choice: r.coin(), nary: false, dup: r.chance(1, 8) };
    let dep = 1 + r.below(4);
    let t1 = g.term(r, &St::Bool, dep, &mut vec![]);
    // a second term sharing subterms with the first: exercises the cache of the substitution
    let t2 = {
        let ps = t1.paths();
        let p = r.pick(&ps).clone();
        let x = t1.at(&p).clone();
        let closed = {
            let mut s = BTreeSet::new();
            free_atoms(&x, &mut s);
            true
        };
        if closed && sort_of(&x, d, &mut vec![]) == Some(St::Bool) {
            l(vec![a("exists"), l(vec![l(vec![a(*r.pick(UN)), a("U")])]), app("and", &[x, g.term(r, &St::Bool, 1, &mut vec![])])])
        } else {
            g.term(r, &St::Bool, 2, &mut vec![])
        }
    };
    let n = 1 + r.below(3);
    let mut map: Vec<(Sx, Sx)> = vec![];
    for _ in 0..n {
        let (x, s) = if r.chance(3, 4) { (*r.pick(UN), u()) } else { (*r.pick(BN), St::Bool) };
        if map.iter().any(|m| m.0.atom() == Some(x)) {
            continue;
        }
        let dd = r.below(3);
        map.push((a(x), g.term(r, &s, dd, &mut vec![])));
    }
    let ms: Vec<String> = map.iter().map(|(x, s)| format!("{x} -> {s}")).collect();
    let input = dump(d, &[("term 1", t1.to_string()), ("term 2", t2.to_string()), ("map", ms.join(", "))]);
    let inp = input.clone();
    crate::watch::set(move || inp);
    let (s1, s2) = (t1.to_string(), t2.to_string());
    let text = d.text();
    let res = guarded(|| {
        let mut pool = PrimitivePool::new();
        let [a1, a2] = parse_terms(&mut pool, &text, [&s1, &s2], false)?;
        let mut m = IndexMap::new();
        for (x, v) in &map {
            let [x, v] = parse_terms(&mut pool, &text, [&x.to_string(), &v.to_string()], false)?;
            m.insert(x, v);
        }
        let mut s = Substitution::new(&mut pool, m).map_err(|e| e.to_string())?;
        let o1 = s.apply(&mut pool, &a1);
        let o2 = s.apply(&mut pool, &a2);
        Ok::<_, String>((conv(&o1), conv(&o2)))
    });
    c.rep.seen(&input);
    match res {
        Err(p) => c.rep.violation("subst:panic", format!("applying a substitution panicked: {p}"), input),
        Ok(Err(e)) => {
            c.rep.count("subst:parse-error");
            c.rep.sample(|| e);
        }
        Ok(Ok((o1, o2))) => {
            for (t, o) in [(&t1, &o1), (&t2, &o2)] {
                for _ in 0..12 {
                    let it = interp(&mut c.rng);
                    let mut it2 = it.clone();
                    let mut ok = true;
                    for (x, s) in &map {
                        match Ev::new(d, &it).eval(s) {
                            V::Unk => ok = false,
                            v => {
                                it2.fixed.insert(Rc::from(x.atom().unwrap()), v);
                            }
                        }
                    }
                    if !ok {
                        continue;
                    }
                    if let (Some(v), Some(w)) = (ev(d, &it2, t), ev(d, &it, o)) {
                        c.rep.count("subst:compared");
                        if v != w {
                            c.rep.violation(
                                "subst:meaning",
                                format!("substitution changed the meaning: {t} under [{}] became {o}", ms.join(", ")),
                                input.clone(),
                            );
                            break;
                        }
                    } else {
                        c.rep.count("subst:unknown");
                    }
                }
            }
        }
    }
}
fn names_free(t: &Sx) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    free_atoms(t, &mut s);
    s.iter().map(|x| x.to_string()).filter(|x| UN.contains(&x.as_str()) || BN.contains(&x.as_str())).collect()
}
fn free_vars(c: &mut Ctx, d: &Decls) {
    let r = &mut c.rng;
    let g = G { letb: r.coin(), choice: true, nary: false, dup: r.chance(1, 6) };
    let dep = 1 + r.below(5);
    let t = g.term(r, &St::Bool, dep, &mut vec![]);
    let st = t.to_string();
    let input = dump(d, &[("term", st.clone())]);
    let inp = input.clone();
    crate::watch::set(move || inp);
    let text = d.text();
    let res = guarded(|| {
        let mut pool = PrimitivePool::new();
        let [x] = parse_terms(&mut pool, &text, [&st], false)?;
        let v: BTreeSet<String> = pool.free_vars(&x).iter().filter_map(|v| v.as_var().map(|s| s.to_string())).collect();
        Ok::<_, String>(v)
    });
    c.rep.seen(&input);
    match res {
        Err(p) => c.rep.violation("fv:panic", p, input),
        Ok(Err(e)) => {
            c.rep.count("fv:parse-error");
            c.rep.sample(|| e);
        }
        Ok(Ok(got)) => {
            let want = names_free(&t);
            let got: BTreeSet<String> =
                got.into_iter().filter(|x| UN.contains(&x.as_str()) || BN.contains(&x.as_str())).collect();
            c.rep.count("fv:compared");
            if got != want {
                c.rep.violation("fv:wrong", format!("free variables of {t} reported as {got:?}, are {want:?}"), input);
            }
        }
    }
}
pub fn flip(t: &Sx, r: &mut Rng) -> Sx {
    match t {
        Sx::L(v) => {
            let mut w: Vec<Sx> = v.iter().map(|x| flip(x, r)).collect();
            if t.is_op("=") && w.len() == 3 && r.coin() {
                w.swap(1, 2);
            }
            l(w)
        }
        _ => t.clone(),
    }
}
/// random binder renaming that may reuse names of the term (not necessarily capture free)
pub fn rename_badly(t: &Sx, r: &mut Rng) -> Sx {
    let mut s = t.clone();
    for _ in 0..1 + r.below(2) {
        let ps: Vec<Vec<usize>> = s
            .paths()
            .into_iter()
            .filter(|p| matches!(s.at(p).list().and_then(|v| v[0].atom()), Some("forall" | "exists" | "choice" | "let")))
            .collect();
        let atoms: Vec<Vec<usize>> = s.paths().into_iter().filter(|p| s.at(p).atom().map_or(false, |x| UN.contains(&x))).collect();
        match r.below(4) {
            0 if !atoms.is_empty() => {
                let p = r.pick(&atoms).clone();
                s = s.replace(&p, &a(*r.pick(UN)));
            }
            1 if !ps.is_empty() => {
                // rename one binder name naively throughout its scope
                let p = r.pick(&ps).clone();
                let b = s.at(&p).clone();
                if let Some(bs) = bindings(&b.args()[0]) {
                    if !bs.is_empty() {
                        let (x, y) = (r.pick(&bs).0.clone(), *r.pick(UN));
                        s = s.replace(&p, &naive(&b, &x, y));
                    }
                }
            }
            2 if !ps.is_empty() => {
                // swap two bindings / drop or duplicate one
                let p = r.pick(&ps).clone();
                let b = s.at(&p).clone();
                let mut v = b.list().unwrap().to_vec();
                let mut bl = v[1].list().unwrap().to_vec();
                let (i, j) = (r.below(bl.len()), r.below(bl.len()));
                match r.below(3) {
                    0 => bl.swap(i, j),
                    1 if bl.len() > 1 => {
                        bl.remove(i);
                    }
                    _ => bl.push(l(vec![a(*r.pick(UN)), if v[0].atom() == Some("let") { a("a") } else { a("U") }])),
                }
                v[1] = l(bl);
                s = s.replace(&p, &l(v));
            }
            _ => s = rename(&s, r, &mut 0),
        }
    }
    s
}
fn naive(t: &Sx, x: &str, y: &str) -> Sx {
    match t {
        Sx::A(n) if &**n == x => a(y),
        Sx::A(_) => t.clone(),
        Sx::L(v) => l(v.iter().map(|s| naive(s, x, y)).collect()),
    }
}
pub fn nary(t: &Sx, r: &mut Rng) -> Sx {
    let Sx::L(v) = t else { return t.clone() };
    let w: Vec<Sx> = v.iter().map(|x| nary(x, r)).collect();
    let t = l(w.clone());
    let Some((op, args)) = t.op() else { return t };
    let op = op.to_string();
    let n = args.len();
    match op.as_str() {
        "and" | "or" | "xor" | "+" | "*" | "-" if n >= 3 && r.coin() => {
            // left-associate a prefix
            let k = 2 + r.below(n - 2);
            let mut v = vec![app(&op, &args[..k])];
            v.extend_from_slice(&args[k..]);
            app(&op, &v)
        }
        "and" | "or" if n == 2 && r.chance(1, 6) => app(&op, &[t.clone()]),
        "=>" if n >= 3 && r.coin() => {
            let k = 1 + r.below(n - 2);
            let mut v = args[..k].to_vec();
            v.push(app(&op, &args[k..]));
            app(&op, &v)
        }
        "=" | "<" | "<=" | ">" | ">=" if n >= 3 && r.coin() => {
            app("and", &args.windows(2).map(|p| app(&op, p)).collect::<Vec<_>>())
        }
        _ => t,
    }
}
/// arithmetic/Boolean terms with n-ary operators, unary minus and constants in several spellings
pub fn arith(r: &mut Rng, s: &St, depth: usize) -> Sx {
    if depth == 0 {
        return match s {
            St::Bool => a(*r.pick(BN)),
            _ => match r.below(4) {
                0 => int(r.range(-3, 3) as i128),
                1 => app("-", &[a("i")]),
                _ => a(*r.pick(&["i", "j"])),
            },
        };
    }
    let d = depth - 1;
    let n = 2 + r.below(3);
    match s {
        St::Bool => match r.below(5) {
            0 | 1 => {
                let v: Vec<Sx> = (0..n).map(|_| arith(r, &St::Int, d)).collect();
                app(*r.pick(&["=", "<", "<=", "="]), &v)
            }
            2 => app(*r.pick(&["and", "or"]), &(0..1 + r.below(3)).map(|_| arith(r, s, d)).collect::<Vec<_>>()),
            _ => app(*r.pick(&["and", "or", "=>", "xor", "="]), &(0..n).map(|_| arith(r, s, d)).collect::<Vec<_>>()),
        },
        _ => match r.below(5) {
            0 => app("-", &[arith(r, s, d)]),
            1 => arith(r, s, 0),
            _ => app(*r.pick(&["+", "-", "*", "-"]), &(0..n).map(|_| arith(r, s, d)).collect::<Vec<_>>()),
        },
    }
}
fn number(r: &mut Rng) -> Sx {
    let k = r.below(4);
    let d = |r: &mut Rng| match r.below(8) {
        0 => f("(- 1.0)", &[]),
        1 => f("(- 2.0)", &[]),
        2 => a("0.0"),
        3 => a("0.5"),
        4 => a("4.0"),
        5 => a("1.0"),
        _ => a("2.0"),
    };
    match k {
        0 => d(r),
        1 => l(vec![a("/"), d(r), d(r)]),
        2 => app("-", &[if r.coin() { l(vec![a("/"), d(r), d(r)]) } else { a(*r.pick(&["0.5", "1.0", "2.0", "0.0"])) }]),
        _ => match r.below(4) {
            0 => l(vec![a("/"), d(r), d(r), d(r)]),
            1 => a(*r.pick(&["1/2", "-1/2", "-2/1", "-4/1"])),
            2 => app("-", &[d(r), d(r)]),
            _ => d(r),
        },
    }
}
fn strings(r: &mut Rng) -> (Sx, Sx, bool) {
    let atom = |r: &mut Rng| match r.below(5) {
        0 => a("s1"),
        1 => a("s2"),
        2 => a("\"ab\""),
        3 => a("\"\\u{e9}b\""),
        _ => a(*r.pick(&["\"a\"", "\"b\"", "\"\""])),
    };
    let cat = |r: &mut Rng| {
        let n = 2 + r.below(3);
        app("str.++", &(0..n).map(|_| atom(r)).collect::<Vec<_>>())
    };
    if r.chance(1, 3) {
        // split or merge adjacent constants
        let parts: Vec<(String, bool)> = (0..2 + r.below(3)).map(|i| if i % 2 == 0 { (r.pick(&["s1", "s2"]).to_string(), true) } else { (r.pick(&["ab", "aba", "bb", "aaaa"]).to_string(), false) }).collect();
        let mk = |r: &mut Rng| {
            let mut v = vec![];
            for (s, var) in &parts {
                if *var {
                    v.push(a(s));
                } else {
                    let k = r.below(s.len());
                    if k > 0 {
                        v.push(a(&format!("\"{}\"", &s[..k])));
                    }
                    v.push(a(&format!("\"{}\"", &s[k..])));
                }
            }
            app("str.++", &v)
        };
        let (x, y) = (mk(r), mk(r));
        return (x, y, true);
    }
    let one = |r: &mut Rng| {
        let (x, y) = (if r.coin() { cat(r) } else { atom(r) }, if r.coin() { cat(r) } else { atom(r) });
        match r.below(4) {
            0 => app(*r.pick(&["str.prefixof", "str.suffixof", "str.contains", "str.<="]), &[x, y]),
            1 => app("and", &[eq(&x, &y), a("p")]),
            2 => app("or", &[eq(&x, &y), a("p")]),
            _ => eq(&x, &y),
        }
    };
    let t1 = one(r);
    let t2 = if r.coin() { one(r) } else {
        let mut don: Vec<(Sx, St)> = vec![];
        for _ in 0..4 {
            don.push((atom(r), St::Str));
        }
        for _ in 0..2 {
            don.push((cat(r), St::Str));
        }
        crate::gen::mutate_term(&t1, r, &decls(), &don).unwrap_or_else(|| one(r))
    };
    (t1, t2, false)
}
fn compare(c: &mut Ctx, d: &Decls) {
    let r = &mut c.rng;
    let kind = r.below(5);
    let (t1, t2, must) = match kind {
        3 => {
            let (x, y) = (number(r), number(r));
            let (x, y) = if r.chance(1, 3) { (app("<", &[a("w"), x]), app("<", &[a("w"), y])) } else { (x, y) };
            (x, y, false)
        }
        4 => strings(r),
        0 | 1 => {
            let g = G { letb: r.chance(1, 3), choice: r.coin(), nary: false, dup: false };
            let dep = 1 + r.below(4);
            let t1 = g.term(r, &St::Bool, dep, &mut vec![]);
            match (kind, r.below(3)) {
                (0, 0) => {
                    let t2 = rename_all(&t1, r, &mut 0);
                    (t1, flip(&t2, r), true)
                }
                (1, 0) => {
                    let t2 = flip(&t1, r);
                    (t1, t2, true)
                }
                _ => {
                    let t2 = rename_badly(&t1, r);
                    (t1, t2, false)
                }
            }
        }
        _ => {
            let dep = 1 + r.below(3);
            let t1 = arith(r, &St::Bool, dep);
            if r.coin() {
                let t2 = nary(&t1, r);
                (t1, t2, true)
            } else {
                let dd = crate::gen::donors(&crate::run::Case::new(&Rc::new(d.clone()), "", "x", vec![], vec![t1.clone()], vec![]), &[]);
                match crate::gen::mutate_term(&nary(&t1, r), r, d, &dd) {
                    Some(t2) => (t1, t2, false),
                    None => return,
                }
            }
        }
    };
    let (s1, s2) = (t1.to_string(), t2.to_string());
    let mode = ["alpha-equivalence", "comparison modulo reordering", "comparison modulo n-ary expansion", "comparison of numbers", "comparison modulo string concatenation"][kind];
    let input = dump(d, &[("mode", mode.to_string()), ("left", s1.clone()), ("right", s2.clone())]);
    let inp = input.clone();
    crate::watch::set(move || inp);
    let text = d.text();
    let res = guarded(|| {
        let mut pool = PrimitivePool::new();
        let [x, y] = parse_terms(&mut pool, &text, [&s1, &s2], false)?;
        let mk = || match kind {
            0 => Polyeq::new().mod_reordering(true).alpha_equiv(true),
            1 | 3 => Polyeq::new().mod_reordering(true),
            2 => Polyeq::new().mod_reordering(true).mod_nary(true),
            _ => Polyeq::new().mod_string_concat(true),
        };
        Ok::<_, String>((mk().eq(&x, &y), mk().eq(&y, &x)))
    });
    c.rep.seen(&input);
    match res {
        Err(p) => c.rep.violation("cmp:panic", format!("{mode} panicked: {p}"), input),
        Ok(Err(_)) => c.rep.count(&format!("cmp:{kind}:parse-error")),
        Ok(Ok((e, sym))) => {
            c.rep.count(&format!("cmp:{kind}:{}:{}", if must { "must" } else { "any" }, e));
            if must && !e {
                c.rep.violation(&format!("cmp:{kind}:incomplete"), format!("{mode} does not equate {t1} and {t2}"), input);
                return;
            }
            if e != sym {
                c.rep.violation(&format!("cmp:{kind}:asymmetric"), format!("{mode} of {t1} and {t2} depends on their order"), input);
                return;
            }
            if e {
                if let Some(seed) = differ(&mut c.rng, d, &t1, &t2, 24) {
                    c.rep.violation(
                        &format!("cmp:{kind}:unsound"),
                        format!("{mode} equates {t1} and {t2}, which differ (interpretation {seed})"),
                        input,
                    );
                }
            }
        }
    }
}
pub fn run(c: &mut Ctx) {
    let d = decls();
    let n = c.iters(9000);
    for _ in 0..n {
        if c.late() {
            break;
        }
        c.rep.evals += 1;
        match c.rng.below(6) {
            0 | 1 => substitution(c, &d),
            2 => free_vars(c, &d),
            _ => compare(c, &d),
        }
    }
}
