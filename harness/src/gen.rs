//! Random typed terms and near-miss mutations of steps.
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

pub struct World {
    pub d: Rc<Decls>,
    pub u: St,
    pub w: St,
}
pub fn world() -> World {
    let mut d = Decls::new();
    let u = d.sort("U");
    let w = d.sort("W");
    for n in ["p", "q", "r", "s", "t", "|p 1|"] {
        d.fun(n, &[], St::Bool);
    }
    for n in ["x", "y", "z", "i.1"] {
        d.fun(n, &[], St::Int);
    }
    for n in ["u", "v", "w"] {
        d.fun(n, &[], St::Real);
    }
    for n in ["a", "b", "c", "d", "@e"] {
        d.fun(n, &[], u.clone());
    }
    for n in ["k", "l"] {
        d.fun(n, &[], w.clone());
    }
    d.fun("f", &[u.clone()], u.clone());
    d.fun("g", &[u.clone(), u.clone()], u.clone());
    d.fun("g3", &[u.clone(), u.clone(), u.clone()], u.clone());
    d.fun("P", &[u.clone()], St::Bool);
    d.fun("R", &[u.clone(), u.clone()], St::Bool);
    d.fun("B", &[St::Bool, St::Bool], St::Bool);
    d.fun("m", &[St::Bool], u.clone());
    d.fun("n", &[St::Int], St::Int);
    d.fun("o", &[St::Int, St::Int], St::Int);
    d.fun("N", &[St::Int], St::Bool);
    d.fun("e", &[St::Real], St::Real);
    d.fun("h", &[u.clone()], w.clone());
    d.fun("hi", &[u.clone()], St::Int);
    d.fun("H", &[w.clone()], St::Bool);
    World { d: Rc::new(d), u, w }
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub quant: bool,
    pub ite: bool,
    pub arith: bool,
    pub letb: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { quant: true, ite: true, arith: true, letb: false }
    }
}
impl World {
    pub fn sort(&self, r: &mut Rng) -> St {
        match r.below(7) {
            0 | 1 => St::Bool,
            2 => St::Int,
            3 => St::Real,
            4 => self.w.clone(),
            _ => self.u.clone(),
        }
    }
    pub fn atom(&self, r: &mut Rng, s: &St, sc: &Scope) -> Sx {
        let vars: Vec<&(Rc<str>, St)> = sc.iter().filter(|(n, t)| t == s && sc.iter().rev().find(|(m, _)| m == n).unwrap().1 == *t).collect();
        if !vars.is_empty() && r.chance(3, 5) {
            return Sx::A(r.pick(&vars).0.clone());
        }
        let cs: Vec<Sx> = self.d.consts(s).into_iter().filter(|c| sc.iter().all(|(n, _)| Some(&**n) != c.atom())).collect();
        match s {
            St::Int if r.chance(1, 3) || cs.is_empty() => int(r.range(-3, 5) as i128),
            St::Real if r.chance(1, 3) || cs.is_empty() => {
                let n = r.below(4);
                a(&format!("{}.{}", n, r.pick(&["0", "5", "25"])))
            }
            St::Bool if r.chance(1, 10) || cs.is_empty() => {
                if r.coin() {
                    tt()
                } else {
                    ff()
                }
            }
            St::Bv(w) if cs.is_empty() || r.chance(1, 3) => {
                let mut s = String::from("#b");
                for _ in 0..*w {
                    s.push(if r.coin() { '1' } else { '0' })
                }
                a(&s)
            }
            _ => {
                if cs.is_empty() {
                    panic!("no constant of sort {}", s)
                }
                r.pick(&cs).clone()
            }
        }
    }
    pub fn term(&self, r: &mut Rng, s: &St, depth: usize, sc: &mut Scope, cfg: Cfg) -> Sx {
        if depth == 0 || r.chance(1, 5) {
            return self.atom(r, s, sc);
        }
        let d = depth - 1;
        if cfg.ite && r.chance(1, 12) {
            let c = self.term(r, &St::Bool, d, sc, cfg);
            let x = self.term(r, s, d, sc, cfg);
            let y = self.term(r, s, d, sc, cfg);
            return l(vec![a("ite"), c, x, y]);
        }
        if cfg.letb && r.chance(1, 10) {
            let n = sc.len();
            let vs = self.sort(r);
            let e = self.term(r, &vs, d, sc, cfg);
            let nm = r.pick(&["x", "lv", "a", "p"]).to_string();
            sc.push((Rc::from(nm.as_str()), vs));
            let b = self.term(r, s, d, sc, cfg);
            sc.truncate(n);
            return l(vec![a("let"), l(vec![l(vec![a(&nm), e])]), b]);
        }
        match s {
            St::Bool => match r.below(if cfg.quant { 15 } else { 13 }) {
                0 => not(&self.term(r, s, d, sc, cfg)),
                1 | 2 => {
                    let op = *r.pick(&["and", "or"]);
                    let n = 2 + r.below(3);
                    let v: Vec<Sx> = (0..n).map(|_| self.term(r, s, d, sc, cfg)).collect();
                    app(op, &v)
                }
                3 => {
                    let op = *r.pick(&["=>", "xor", "="]);
                    let v: Vec<Sx> = (0..2).map(|_| self.term(r, s, d, sc, cfg)).collect();
                    app(op, &v)
                }
                4 | 5 => {
                    let t = if cfg.arith { self.sort(r) } else { self.u.clone() };
                    let x = self.term(r, &t, d, sc, cfg);
                    let y = self.term(r, &t, d, sc, cfg);
                    eq(&x, &y)
                }
                6 => app("P", &[self.term(r, &self.u, d, sc, cfg)]),
                7 => app("R", &[self.term(r, &self.u, d, sc, cfg), self.term(r, &self.u, d, sc, cfg)]),
                8 if cfg.arith => {
                    let t = if r.coin() { St::Int } else { St::Real };
                    let op = *r.pick(&["<", "<=", ">", ">="]);
                    app(op, &[self.term(r, &t, d, sc, cfg), self.term(r, &t, d, sc, cfg)])
                }
                9 if cfg.arith => app("N", &[self.term(r, &St::Int, d, sc, cfg)]),
                10 => app("B", &[self.term(r, s, d, sc, cfg), self.term(r, s, d, sc, cfg)]),
                11 => {
                    let t = if cfg.arith { self.sort(r) } else { self.u.clone() };
                    let n = 2 + r.below(2);
                    let v: Vec<Sx> = (0..n).map(|_| self.term(r, &t, d, sc, cfg)).collect();
                    app("distinct", &v)
                }
                13 | 14 => {
                    let n = sc.len();
                    let k = 1 + r.below(2);
                    let mut bs = vec![];
                    for _ in 0..k {
                        let vs = match r.below(5) {
                            0 => St::Bool,
                            1 if cfg.arith => St::Int,
                            2 => self.w.clone(),
                            _ => self.u.clone(),
                        };
                        let nm = *r.pick(&["x", "y", "a", "X", "Y", "Z"]);
                        if bs.iter().any(|b: &Sx| b.list().unwrap()[0].atom() == Some(nm)) {
                            continue;
                        }
                        bs.push(l(vec![a(nm), vs.sx()]));
                        sc.push((Rc::from(nm), vs));
                    }
                    let b = self.term(r, s, d, sc, cfg);
                    sc.truncate(n);
                    l(vec![a(*r.pick(&["forall", "exists"])), l(bs), b])
                }
                _ => self.atom(r, s, sc),
            },
            St::Int if cfg.arith => match r.below(7) {
                0 | 1 => {
                    let op = *r.pick(&["+", "-", "*"]);
                    let n = 2 + r.below(2);
                    let v: Vec<Sx> = (0..n).map(|_| self.term(r, s, d, sc, cfg)).collect();
                    app(op, &v)
                }
                2 => app("-", &[self.term(r, s, d, sc, cfg)]),
                3 => app("n", &[self.term(r, s, d, sc, cfg)]),
                4 => app("o", &[self.term(r, s, d, sc, cfg), self.term(r, s, d, sc, cfg)]),
                5 => app("hi", &[self.term(r, &self.u, d, sc, cfg)]),
                _ => self.atom(r, s, sc),
            },
            St::Real if cfg.arith => match r.below(5) {
                0 | 1 => {
                    let op = *r.pick(&["+", "-", "*"]);
                    let n = 2 + r.below(2);
                    let v: Vec<Sx> = (0..n).map(|_| self.term(r, s, d, sc, cfg)).collect();
                    app(op, &v)
                }
                2 => app("e", &[self.term(r, s, d, sc, cfg)]),
                3 => app("-", &[self.term(r, s, d, sc, cfg)]),
                _ => self.atom(r, s, sc),
            },
            St::U(n) if &**n == "U" => match r.below(5) {
                0 | 1 => app("f", &[self.term(r, s, d, sc, cfg)]),
                2 => app("g", &[self.term(r, s, d, sc, cfg), self.term(r, s, d, sc, cfg)]),
                3 => app("m", &[self.term(r, &St::Bool, d, sc, cfg)]),
                _ => self.atom(r, s, sc),
            },
            St::U(n) if &**n == "W" => app("h", &[self.term(r, &self.u, d, sc, cfg)]),
            _ => self.atom(r, s, sc),
        }
    }
    pub fn t(&self, r: &mut Rng, s: &St, depth: usize) -> Sx {
        self.term(r, s, depth, &mut vec![], Cfg::default())
    }
    pub fn b(&self, r: &mut Rng, depth: usize) -> Sx {
        self.t(r, &St::Bool, depth)
    }
    /// A Boolean term that is mostly small; never mutating the shape of the rule.
    pub fn bs(&self, r: &mut Rng) -> Sx {
        let d = if r.chance(1, 3) { 2 } else { 0 + r.below(2) };
        self.b(r, d)
    }
}

const SIB: &[&[&str]] = &[
    &["and", "or", "xor", "=>", "="],
    &["forall", "exists"],
    &["<", "<=", ">", ">=", "=", "distinct"],
    &["+", "-", "*"],
    &["=", "distinct"],
    &["div", "mod"],
    &["bvand", "bvor", "bvxor", "bvxnor", "bvadd", "bvmul", "bvsub", "bvnand", "bvnor"],
    &["bvnot", "bvneg"],
    &["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"],
    &["true", "false"],
    &["str.prefixof", "str.suffixof"],
    &["re.union", "re.inter", "re.++"],
    &["re.*", "re.+", "re.opt", "re.comp"],
    &["f", "f"],
];

/// (path, sort) of all proper subterms that have a sort, with the scope they live in.
pub fn subterms(t: &Sx, d: &Decls) -> Vec<(Vec<usize>, St, Scope)> {
    fn go(t: &Sx, d: &Decls, sc: &mut Scope, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, St, Scope)>) {
        if let Some(s) = sort_of(t, d, sc) {
            if !matches!(s, St::Fun(..)) {
                out.push((p.clone(), s, sc.clone()));
            }
        }
        if let Sx::L(v) = t {
            if v.is_empty() {
                return;
            }
            let h = v[0].atom();
            match h {
                Some("forall" | "exists" | "choice" | "lambda" | "let") if v.len() == 3 => {
                    let n = sc.len();
                    if let Some(bs) = bindings(&v[1]) {
                        let mut new = vec![];
                        for (i, (x, s)) in bs.iter().enumerate() {
                            if h == Some("let") {
                                p.extend([1, i, 1]);
                                go(s, d, sc, p, out);
                                p.truncate(p.len() - 3);
                                if let Some(ss) = sort_of(s, d, sc) {
                                    new.push((x.clone(), ss));
                                }
                            } else if let Some(ss) = sort_of_sx(s) {
                                new.push((x.clone(), ss));
                            }
                        }
                        sc.extend(new);
                        p.push(2);
                        go(&v[2], d, sc, p, out);
                        p.pop();
                        sc.truncate(n);
                    }
                }
                Some("_") => {}
                _ => {
                    let st = if h.is_some() { 1 } else { 0 };
                    for (i, c) in v.iter().enumerate().skip(st) {
                        p.push(i);
                        go(c, d, sc, p, out);
                        p.pop();
                    }
                }
            }
        }
    }
    let mut out = vec![];
    go(t, d, &mut vec![], &mut vec![], &mut out);
    out
}

pub struct Mutator<'a> {
    pub siblings: &'a [&'a str],
    /// extra terms offered as replacements
    pub pool: Vec<Sx>,
}

/// All terms of a case, addressed.
#[derive(Clone, Copy)]
enum Loc {
    P(usize, usize),
    C(usize),
    A(usize),
}
fn locs(c: &Case) -> Vec<Loc> {
    let mut v = vec![];
    for (i, p) in c.prems.iter().enumerate() {
        for j in 0..p.len() {
            v.push(Loc::P(i, j));
        }
    }
    for i in 0..c.concl.len() {
        v.push(Loc::C(i));
        v.push(Loc::C(i));
    }
    for i in 0..c.args.len() {
        v.push(Loc::A(i));
    }
    v
}
fn get<'c>(c: &'c Case, lo: Loc) -> &'c Sx {
    match lo {
        Loc::P(i, j) => &c.prems[i][j],
        Loc::C(i) => &c.concl[i],
        Loc::A(i) => &c.args[i],
    }
}
fn set(c: &mut Case, lo: Loc, t: Sx) {
    match lo {
        Loc::P(i, j) => c.prems[i][j] = t,
        Loc::C(i) => c.concl[i] = t,
        Loc::A(i) => c.args[i] = t,
    }
}

pub fn mutate_term(t: &Sx, r: &mut Rng, d: &Decls, donors: &[(Sx, St)]) -> Option<Sx> {
    match r.below(10) {
        // replace a subterm by a donor of the same sort
        0..=3 => {
            let subs = subterms(t, d);
            if subs.is_empty() {
                return None;
            }
            let (p, s, _) = r.pick(&subs).clone();
            let c: Vec<&Sx> = donors.iter().filter(|(x, ds)| *ds == s && x != t.at(&p)).map(|x| &x.0).collect();
            if c.is_empty() {
                return None;
            }
            Some(t.replace(&p, *r.pick(&c)))
        }
        // toggle a negation
        4 => {
            let subs: Vec<_> = subterms(t, d).into_iter().filter(|x| x.1 == St::Bool).collect();
            if subs.is_empty() {
                return None;
            }
            let p = &r.pick(&subs).0;
            let x = t.at(p);
            Some(if x.is_op("not") && r.chance(3, 4) { t.replace(p, &x.args()[0]) } else { t.replace(p, &not(x)) })
        }
        // sibling operator / constant
        5 | 6 => {
            let ps: Vec<Vec<usize>> = t
                .paths()
                .into_iter()
                .filter(|p| {
                    t.at(p).atom().map_or(false, |x| {
                        (is_num(x) && x.len() < 30) || is_dec(x) || x.starts_with("#b") || SIB.iter().any(|s| s.contains(&x))
                    })
                })
                .collect();
            if ps.is_empty() {
                return None;
            }
            let p = r.pick(&ps).clone();
            let x = t.at(&p).atom().unwrap().to_string();
            let new = if is_num(&x) {
                let n: i128 = x.parse().ok()?;
                match r.below(4) {
                    0 => int(n + 1),
                    1 => int((n - 1).max(0)),
                    2 => int(2 * n),
                    _ => int(r.range(0, 6) as i128),
                }
            } else if is_dec(&x) {
                a(*r.pick(&["0.0", "1.0", "0.5", "2.0", "3.25"]))
            } else if x.starts_with("#b") {
                let mut b: Vec<u8> = x.into_bytes();
                let i = 2 + r.below(b.len() - 2);
                b[i] = b[i] ^ 1;
                a(std::str::from_utf8(&b).unwrap())
            } else {
                let c: Vec<&&[&str]> = SIB.iter().filter(|s| s.contains(&x.as_str())).collect();
                let c = r.pick(&c);
                a(*r.pick(c))
            };
            Some(t.replace(&p, &new))
        }
        // argument surgery
        _ => {
            let ps: Vec<Vec<usize>> =
                t.paths().into_iter().filter(|p| t.at(p).list().map_or(false, |v| v.len() >= 3)).collect();
            if ps.is_empty() {
                return None;
            }
            let p = r.pick(&ps).clone();
            let x = t.at(&p).clone();
            let mut v = x.list().unwrap().to_vec();
            let st = if v[0].atom().is_some() { 1 } else { 0 };
            let n = v.len() - st;
            if n == 0 {
                return None;
            }
            match r.below(4) {
                0 => {
                    let i = st + r.below(n);
                    let j = st + r.below(n);
                    v.swap(i, j);
                }
                1 => {
                    let i = st + r.below(n);
                    v.remove(i);
                }
                2 => {
                    let i = st + r.below(n);
                    let x = v[i].clone();
                    let j = st + r.below(n + 1);
                    v.insert(j, x);
                }
                _ => {
                    // replace the application by one of its arguments, or wrap
                    let i = st + r.below(n);
                    return Some(t.replace(&p, &v[i]));
                }
            }
            Some(t.replace(&p, &l(v)))
        }
    }
}

pub fn donors(c: &Case, pool: &[Sx]) -> Vec<(Sx, St)> {
    let mut v = vec![];
    for lo in locs(c) {
        let t = get(c, lo);
        for (p, s, sc) in subterms(t, &c.decls) {
            let _ = sc;
            v.push((t.at(&p).clone(), s));
        }
    }
    for t in pool {
        if let Some(s) = sort_of(t, &c.decls, &mut vec![]) {
            v.push((t.clone(), s));
        }
    }
    v.push((tt(), St::Bool));
    v.push((ff(), St::Bool));
    v.push((a("0"), St::Int));
    v.push((a("1"), St::Int));
    v
}

pub fn mutate(c: &Case, r: &mut Rng, m: &Mutator, don: &[(Sx, St)]) -> Option<Case> {
    let mut c2 = c.clone();
    let n = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..n {
        match r.below(16) {
            0 if !c2.concl.is_empty() => {
                let i = r.below(c2.concl.len());
                c2.concl.remove(i);
            }
            1 if c2.concl.len() > 1 => {
                let i = r.below(c2.concl.len());
                let j = r.below(c2.concl.len());
                c2.concl.swap(i, j);
            }
            2 => {
                let b: Vec<&Sx> = don.iter().filter(|x| x.1 == St::Bool).map(|x| &x.0).collect();
                let x = (*r.pick(&b)).clone();
                let i = r.below(c2.concl.len() + 1);
                if r.coin() && i < c2.concl.len() {
                    c2.concl[i] = x;
                } else {
                    c2.concl.insert(i, x);
                }
            }
            3 if !c2.prems.is_empty() => {
                let i = r.below(c2.prems.len());
                match r.below(4) {
                    0 => {
                        c2.prems.remove(i);
                    }
                    1 => {
                        let j = r.below(c2.prems.len());
                        c2.prems.swap(i, j);
                    }
                    2 => {
                        let p = c2.prems[i].clone();
                        c2.prems.push(p);
                    }
                    _ => {
                        if c2.prems[i].len() > 1 {
                            let j = r.below(c2.prems[i].len());
                            c2.prems[i].remove(j);
                        } else {
                            return None;
                        }
                    }
                }
            }
            4 if !c2.args.is_empty() => {
                let i = r.below(c2.args.len());
                match r.below(4) {
                    0 => {
                        c2.args.remove(i);
                    }
                    1 => {
                        let j = r.below(c2.args.len());
                        c2.args.swap(i, j);
                    }
                    2 => {
                        let x = c2.args[i].clone();
                        c2.args.push(x);
                    }
                    _ => c2.args[i] = not(&c2.args[i].clone()),
                }
            }
            5 if !m.siblings.is_empty() => c2.rule = r.pick(m.siblings).to_string(),
            _ => {
                let lo = locs(&c2);
                if lo.is_empty() {
                    return None;
                }
                let lo = *r.pick(&lo);
                let t = get(&c2, lo).clone();
                let t2 = mutate_term(&t, r, &c2.decls, don)?;
                set(&mut c2, lo, t2);
            }
        }
    }
    if c2.concl == c.concl && c2.prems == c.prems && c2.args == c.args && c2.rule == c.rule {
        return None;
    }
    Some(c2)
}
