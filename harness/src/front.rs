//! Random well-typed SMT-LIB/Alethe text over the whole term language, with awkward names.
use crate::rng::Rng;
use crate::sx::*;

pub const NAMES: &[&str] = &[
    "a", "b", "c", "f", "g", "p", "x", "y", "z", "x'", "y''", "", " ", "  ", "5", "5x", "-5", "-5x", "-5/2", "1.5", "1/2", "-", "--", "-x", "a b", "(", ")", "()", "x;y", ";",
    "a\"b", "\"", "\"s\"", "#b01", "#", ":kw", ":named", "a:b", "a\nb", "\n", "\t", "µ", "日本", "é x", "let", "forall", "exists", "choice", "lambda", "_", "!", "as", "match",
    "assume", "step", "anchor", "declare-fun", "declare-const", "define-fun", "assert", "set-logic", "check-sat", "@p_0", "@p_1", "@p_2", "@p_3", "p_0", "p_1", "p_2", "p_3",
    "@t1", "t1", "t1.t2", "h", "?v", "$x", "~x", "%", "&a", "^", "<>", "a=b", "Bool", "Int", "String", "unsat", "true'", "And", "cl'", "bv5", "extract", "const", "const ", "x@0",
    "a,b", "[x]", "{u}", "`", "'", "''", "\u{7f}", "\u{a0}", "\u{1F600}", "0", "00", "-0", "+5", ".5", "5.", "declare-rare-rule", "par", "NUMERAL", "BitVec", "Array", "_x", "|",
];
/// the text of a symbol (canonical: quoted only if it has to be)
pub fn q(s: &str) -> String {
    let simple = !s.is_empty()
        && s.chars().all(|c| c.is_ascii_alphanumeric() || "+-/*=%?!.$_~&^<>@'".contains(c))
        && !s.starts_with(|c: char| c.is_ascii_digit())
        && !(s.starts_with('-') && s[1..].starts_with(|c: char| c.is_ascii_digit()))
        && ![
            "_", "!", "as", "let", "exists", "forall", "match", "choice", "lambda", "cl", "assume", "step", "anchor", "declare-fun", "declare-const", "declare-sort", "define-fun",
            "define-fun-rec", "define-funs-rec", "define-sort", "assert", "check-sat-assuming", "set-logic", "declare-rare-rule",
        ]
        .contains(&s);
    if simple {
        s.to_string()
    } else {
        format!("|{}|", s)
    }
}
pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let s = if r.chance(1, 5) {
            // anything
            let k = r.below(5);
            (0..k).map(|_| *r.pick(&['a', 'Z', '0', '9', '-', '.', ' ', '(', ';', '"', '_', '\'', ':', '#', 'é', '\n', '@', '/', ','])).collect()
        } else {
            r.pick(NAMES).to_string()
        };
        if s.contains('|') || s.contains('\\') || OPS.contains(&s.as_str()) || v.contains(&s) || s == "eo" {
            continue;
        }
        v.push(s);
    }
    v
}
pub const OPS: &[&str] = &[
    "true", "false", "not", "=>", "and", "or", "xor", "=", "distinct", "ite", "+", "-", "*", "div", "/", "mod", "abs", "<", ">", "<=", ">=", "to_real", "to_int", "is_int", "select",
    "store", "cl", "@d", "concat", "@bv", "@bvsize", "rare-list", "@bbterm", "@pbbterm",
];
pub fn bv(w: usize) -> Sx {
    l(vec![a("_"), a("BitVec"), a(&w.to_string())])
}
pub fn arr(x: &Sx, y: &Sx) -> Sx {
    l(vec![a("Array"), x.clone(), y.clone()])
}
pub fn width(s: &Sx) -> Option<usize> {
    match s.op() {
        Some(("_", v)) if v.len() == 2 && v[0].atom() == Some("BitVec") => v[1].atom()?.parse().ok(),
        _ => None,
    }
}
pub fn array(s: &Sx) -> Option<(Sx, Sx)> {
    match s.op() {
        Some(("Array", v)) if v.len() == 2 => Some((v[0].clone(), v[1].clone())),
        _ => None,
    }
}
#[derive(Clone, Default)]
pub struct Sig {
    /// declared sorts (raw name, arity)
    pub sorts: Vec<(String, usize)>,
    /// declared functions (raw name, parameters, result)
    pub funs: Vec<(String, Vec<Sx>, Sx)>,
    /// negative and fractional literals in the notation of proofs
    pub gmp: bool,
    /// only reals (literals may be numerals)
    pub lra: bool,
    /// integers allowed where reals are
    pub sub: bool,
    pub strict: bool,
    pub lets: bool,
    pub named: bool,
}
impl Sig {
    pub fn random(r: &mut Rng) -> Sig {
        let mut s = Sig { lets: true, ..Sig::default() };
        let ns = r.below(4);
        let nf = 2 + r.below(9);
        let mut n = names(r, ns + nf);
        for x in n.drain(..ns) {
            // names of predefined sorts are never user sorts
            if !["Bool", "Int", "Real", "String", "RegLan", "Array", "Type", "BitVec"].contains(&x.as_str()) {
                let k = if r.coin() { 0 } else { 1 + r.below(2) };
                s.sorts.push((x, k));
            }
        }
        for x in n {
            let k = if r.coin() { 0 } else { 1 + r.below(3) };
            let ps = (0..k).map(|_| s.sort(r, 2)).collect();
            let t = s.sort(r, 2);
            s.funs.push((x, ps, t));
        }
        s
    }
    pub fn sort(&self, r: &mut Rng, d: usize) -> Sx {
        if self.lra {
            return a(*r.pick(&["Bool", "Real", "Real"]));
        }
        match r.below(if d == 0 { 10 } else { 13 }) {
            0..=2 => a("Bool"),
            3 | 4 => a("Int"),
            5 => a("Real"),
            6 => a("String"),
            7 => {
                if r.chance(1, 3) {
                    a("RegLan")
                } else {
                    a("String")
                }
            }
            8 => bv(*r.pick(&[1, 2, 3, 4, 5, 8, 16, 33, 64, 65])),
            9 | 10 | 11 => {
                if self.sorts.is_empty() {
                    return a("Int");
                }
                let (n, k) = r.pick(&self.sorts).clone();
                if k == 0 {
                    a(&q(&n))
                } else if d == 0 {
                    a("Int")
                } else {
                    let mut v = vec![a(&q(&n))];
                    for _ in 0..k {
                        v.push(self.sort(r, d - 1));
                    }
                    l(v)
                }
            }
            _ => arr(&self.sort(r, d - 1), &self.sort(r, d - 1)),
        }
    }
    pub fn text(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        for (n, k) in &self.sorts {
            s.push_str(&format!("(declare-sort {} {})\n", q(n), k));
        }
        for (n, ps, t) in &self.funs {
            if ps.is_empty() && r.coin() {
                s.push_str(&format!("(declare-const {} {})\n", q(n), t));
            } else {
                s.push_str(&format!("(declare-fun {} {} {})\n", q(n), l(ps.clone()), t));
            }
        }
        s
    }
}
/// a symbol as term text: sometimes quoted without need
pub fn sym(r: &mut Rng, s: &str) -> Sx {
    if r.chance(1, 8) {
        a(&format!("|{}|", s))
    } else {
        a(&q(s))
    }
}
/// a definition or named term
#[derive(Clone)]
pub struct Def {
    pub name: String,
    pub ps: Vec<Sx>,
    pub sort: Sx,
    /// symbols in its body, and in the bodies of the definitions it uses
    pub free: Vec<String>,
    pub params: Vec<String>,
    pub body: Sx,
}
pub struct Fg<'a> {
    pub r: &'a mut Rng,
    pub sig: &'a Sig,
    /// bound variables around the current position
    pub scope: Vec<(String, Sx)>,
    /// definitions and names introduced so far (raw name, parameters, result)
    pub defs: Vec<Def>,
    pub fresh: usize,
    /// names bound variables are drawn from
    pub bound: Vec<String>,
    pub heads: std::collections::BTreeMap<&'static str, u64>,
    /// definitions are also used where their symbols are bound
    pub hostile: bool,
}
impl<'a> Fg<'a> {
    pub fn new(r: &'a mut Rng, sig: &'a Sig) -> Fg<'a> {
        let k = 2 + r.below(5);
        let mut bound = names(r, k);
        // shadowing of declared symbols
        for (n, _, _) in &sig.funs {
            if r.chance(1, 4) && !bound.contains(n) {
                bound.push(n.clone());
            }
        }
        Fg { r, sig, scope: vec![], defs: vec![], fresh: 0, bound, heads: Default::default(), hostile: false }
    }
    fn visible(&self, n: &str, upto: usize) -> bool {
        !self.scope[upto..].iter().any(|(x, _)| x == n)
    }
    /// symbols of result sort `s`, with their parameter sorts
    pub fn symbols(&self, s: &Sx) -> Vec<(String, Vec<Sx>)> {
        let mut v = vec![];
        for (i, (n, t)) in self.scope.iter().enumerate() {
            if t == s && self.visible(n, i + 1) {
                v.push((n.clone(), vec![]));
            }
        }
        let isdef = |n: &str| self.defs.iter().any(|d| d.name == n);
        for (n, p, t) in self.sig.funs.iter() {
            if t == s && self.visible(n, 0) && !isdef(n) {
                v.push((n.clone(), p.clone()));
            }
        }
        for (i, Def { name: n, ps: p, sort: t, free, .. }) in self.defs.iter().enumerate() {
            // a definition whose symbols mean something else here can not be used
            if t == s && self.visible(n, 0) && (self.hostile || free.iter().all(|f| self.visible(f, 0))) && !self.defs[i + 1..].iter().any(|d| d.name == *n) {
                v.push((n.clone(), p.clone()));
            }
        }
        v
    }
    pub fn string(&mut self) -> String {
        let k = self.r.below(6);
        let mut s = String::from("\"");
        for _ in 0..k {
            s.push_str(*self.r.pick(&[
                "a", "b", "0", " ", "\"\"", "\\", "\\\\", "\\u{41}", "\\u0042", "\\u{5c}", "\\u005c", "u{41}", "u0041", "\\u", "\\u{", "\\u{}", "\\u{110000}", "\\x41", "\\n", "\\u{22}",
                "\\u{a}", "\\u{0}", "\\u{2ffff}", "\\u{30000}", "\n", "\t", "é", "日", "\u{1F600}", "|", ";", "(", "\\u{1F600}", "\\u12", "}", "{",
            ]));
        }
        s.push('"');
        s
    }
    pub fn num(&mut self) -> String {
        match self.r.below(8) {
            0 => "0".into(),
            1 => "18446744073709551616".into(),
            2 => "340282366920938463463374607431768211457000".into(),
            _ => self.r.below(20).to_string(),
        }
    }
    fn lit(&mut self, s: &Sx) -> Option<Sx> {
        if let Some(w) = width(s) {
            let bits: String = (0..w).map(|_| if self.r.coin() { '1' } else { '0' }).collect();
            return Some(match self.r.below(3) {
                0 if w % 4 == 0 => {
                    let h: String = (0..w / 4).map(|_| *self.r.pick(&['0', '7', 'a', 'F', 'c'])).collect();
                    a(&format!("#x{h}"))
                }
                1 => {
                    let n = self.num();
                    l(vec![a("_"), a(&format!("bv{n}")), a(&w.to_string())])
                }
                _ => a(&format!("#b{bits}")),
            });
        }
        Some(match s.atom()? {
            "Bool" => a(*self.r.pick(&["true", "false"])),
            "Int" => {
                let n = self.num();
                if self.sig.gmp && n != "0" && self.r.chance(1, 3) {
                    a(&format!("-{n}"))
                } else {
                    a(&n)
                }
            }
            "Real" => {
                let n = self.num();
                match self.r.below(5) {
                    0 if self.sig.gmp => a(&format!("{}{}/{}", if self.r.coin() { "-" } else { "" }, n, 1 + self.r.below(12))),
                    1 if self.sig.gmp => a(&format!("-{}.{}", n, self.r.below(100))),
                    0 | 1 if self.sig.lra => a(&n),
                    2 if self.sig.lra => l(vec![a("/"), a(&n), a(&(1 + self.r.below(9)).to_string())]),
                    3 => a(&format!("{}.0", n)),
                    _ => a(&format!("{}.{:03}", n, self.r.below(1000))),
                }
            }
            "String" => a(&self.string()),
            "RegLan" => a(*self.r.pick(&["re.none", "re.all", "re.allchar"])),
            _ => return None,
        })
    }
    fn leaf(&mut self, s: &Sx) -> Sx {
        let v: Vec<String> = self.symbols(s).into_iter().filter(|x| x.1.is_empty()).map(|x| x.0).collect();
        if !v.is_empty() && self.r.chance(3, 4) {
            let n = self.r.pick(&v).clone();
            return sym(self.r, &n);
        }
        if let Some(t) = self.lit(s) {
            return t;
        }
        if !v.is_empty() {
            let n = self.r.pick(&v).clone();
            return sym(self.r, &n);
        }
        if let Some((_, y)) = array(s) {
            let t = self.leaf(&y);
            return l(vec![l(vec![a("as"), a("const"), s.clone()]), t]);
        }
        l(vec![a("choice"), l(vec![l(vec![a("z"), s.clone()])]), a("true")])
    }
    fn many(&mut self, s: &Sx, lo: usize, d: usize) -> Vec<Sx> {
        let n = lo + if self.r.chance(1, 3) { self.r.below(3) } else { 0 };
        (0..n).map(|_| self.term(s, d)).collect()
    }
    fn binders(&mut self, n: usize) -> (Sx, usize) {
        let keep = self.scope.len();
        let mut v = vec![];
        for _ in 0..n {
            let x = self.r.pick(&self.bound).clone();
            let s = self.sig.sort(self.r, 1);
            v.push(l(vec![a(&q(&x)), s.clone()]));
            self.scope.push((x, s));
        }
        (l(v), keep)
    }
    fn hit(&mut self, h: &'static str) {
        *self.heads.entry(h).or_default() += 1;
    }
    /// a term of sort `s`
    pub fn term(&mut self, s: &Sx, d: usize) -> Sx {
        if d == 0 {
            return self.leaf(s);
        }
        let d = d - 1;
        if self.r.chance(1, 3) {
            // anything that exists at every sort
            match self.r.below(9) {
                0 => {
                    self.hit("ite");
                    let c = self.term(&a("Bool"), d);
                    return l(vec![a("ite"), c, self.term(s, d), self.term(s, d)]);
                }
                1 if self.sig.lets => {
                    self.hit("let");
                    let n = 1 + self.r.below(3);
                    let mut b = vec![];
                    let mut new: Vec<(String, Sx)> = vec![];
                    for _ in 0..n {
                        let x = self.r.pick(&self.bound).clone();
                        if new.iter().any(|y| y.0 == x) {
                            continue;
                        }
                        let t = self.sig.sort(self.r, 1);
                        b.push(l(vec![sym(self.r, &x), self.term(&t, d)]));
                        new.push((x, t));
                    }
                    let keep = self.scope.len();
                    self.scope.extend(new);
                    let t = self.term(s, d);
                    self.scope.truncate(keep);
                    return l(vec![a("let"), l(b), t]);
                }
                2 => {
                    self.hit("lambda");
                    let (b, keep) = {
                        let n = 1 + self.r.below(2);
                        self.binders(n)
                    };
                    let t = self.term(s, d);
                    self.scope.truncate(keep);
                    let ps: Vec<Sx> = b.list().unwrap().iter().map(|x| x.list().unwrap()[1].clone()).collect();
                    let mut v = vec![l(vec![a("lambda"), b, t])];
                    for p in &ps {
                        v.push(self.term(p, d));
                    }
                    return l(v);
                }
                3 => {
                    self.hit("choice");
                    let keep = self.scope.len();
                    let x = self.r.pick(&self.bound).clone();
                    self.scope.push((x.clone(), s.clone()));
                    let t = self.term(&a("Bool"), d);
                    self.scope.truncate(keep);
                    return l(vec![a("choice"), l(vec![l(vec![a(&q(&x)), s.clone()])]), t]);
                }
                4 if !self.sig.lra => {
                    self.hit("select");
                    let x = self.sig.sort(self.r, 0);
                    let t = self.term(&arr(&x, s), d);
                    return l(vec![a("select"), t, self.term(&x, d)]);
                }
                5 => {
                    self.hit("!");
                    if self.scope.is_empty() && self.sig.named && self.r.coin() {
                        let t = self.term(s, d);
                        let n = format!("n{}", self.fresh);
                        self.fresh += 1;
                        self.define(&n, &[], s, &t);
                        return l(vec![a("!"), t, a(":named"), a(&n)]);
                    }
                    let t = self.term(s, d);
                    let att = *self.r.pick(&[":pattern ((a b) c)", ":weight 3", ":foo", ":foo :bar 1", ":qid |a b|", ":note \"x)\""]);
                    return l(vec![a("!"), t, a(att)]);
                }
                _ => {
                    let v: Vec<_> = self.symbols(s).into_iter().filter(|x| !x.1.is_empty()).collect();
                    if !v.is_empty() {
                        self.hit("app");
                        let (n, ps) = self.r.pick(&v).clone();
                        let mut t = vec![sym(self.r, &n)];
                        for p in &ps {
                            t.push(self.term(p, d));
                        }
                        return l(t);
                    }
                }
            }
        }
        self.builtin(s, d)
    }
    pub fn define(&mut self, n: &str, ps: &[(String, Sx)], s: &Sx, body: &Sx) {
        let mut free: Vec<String> = body.paths().iter().filter_map(|p| body.at(p).atom().map(|t| t.trim_matches('|').to_string())).collect();
        free.sort();
        free.dedup();
        free.retain(|f| !ps.iter().any(|p| p.0 == *f));
        for d in &self.defs {
            if free.contains(&d.name) {
                for f in d.free.clone() {
                    if !free.contains(&f) {
                        free.push(f);
                    }
                }
            }
        }
        let params = ps.iter().map(|p| p.0.clone()).collect();
        self.defs.push(Def { name: n.to_string(), ps: ps.iter().map(|p| p.1.clone()).collect(), sort: s.clone(), free, params, body: body.clone() });
    }
    pub fn define_rec(&mut self, n: &str, ps: &[(String, Sx)], s: &Sx) {
        let params = ps.iter().map(|p| p.0.clone()).collect();
        self.defs.push(Def { name: n.to_string(), ps: ps.iter().map(|p| p.1.clone()).collect(), sort: s.clone(), free: vec![], params, body: l(vec![]) });
    }
    fn ap(&mut self, op: &'static str, ss: &[Sx], d: usize) -> Sx {
        self.hit(op);
        let mut v = vec![a(op)];
        for s in ss {
            v.push(self.term(s, d));
        }
        l(v)
    }
    fn nary(&mut self, op: &'static str, s: &Sx, lo: usize, d: usize) -> Sx {
        self.hit(op);
        let mut v = vec![a(op)];
        v.extend(self.many(s, lo, d));
        l(v)
    }
    fn idx(&mut self, op: &'static str, is: &[usize], s: &Sx, d: usize) -> Sx {
        self.hit(op);
        let mut v = vec![a("_"), a(op)];
        v.extend(is.iter().map(|i| a(&i.to_string())));
        l(vec![l(v), self.term(s, d)])
    }
    fn builtin(&mut self, s: &Sx, d: usize) -> Sx {
        let [b, i, re, st, rl] = ["Bool", "Int", "Real", "String", "RegLan"].map(a);
        if let Some(w) = width(s) {
            let o = bv(1 + self.r.below(9));
            return match self.r.below(15) {
                0 => {
                    let op = *self.r.pick(&["bvnot", "bvneg"]);
                    self.ap(op, &[s.clone()], d)
                }
                1 | 2 => {
                    let op = *self.r.pick(&["bvand", "bvor", "bvxor", "bvadd", "bvmul"]);
                    self.nary(op, s, 2, d)
                }
                3 | 4 => {
                    let op = *self.r.pick(&["bvudiv", "bvurem", "bvshl", "bvlshr", "bvnand", "bvnor", "bvxnor", "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr"]);
                    self.ap(op, &[s.clone(), s.clone()], d)
                }
                5 if w == 1 => self.ap("bvcomp", &[o.clone(), o], d),
                6 if w > 1 => {
                    let k = 1 + self.r.below(w - 1);
                    if k > 1 && self.r.coin() {
                        self.ap("concat", &[bv(w - k), bv(1), bv(k - 1)], d)
                    } else {
                        self.ap("concat", &[bv(w - k), bv(k)], d)
                    }
                }
                7 => {
                    let (lo, hi) = (self.r.below(5), self.r.below(5));
                    self.idx("extract", &[lo + w - 1, lo], &bv(w + lo + hi), d)
                }
                8 => {
                    let k = self.r.below(w);
                    let op = *self.r.pick(&["zero_extend", "sign_extend"]);
                    self.idx(op, &[k], &bv(w - k), d)
                }
                9 => {
                    let k = self.r.below(2 * w + 3);
                    let op = *self.r.pick(&["rotate_left", "rotate_right"]);
                    self.idx(op, &[k], s, d)
                }
                10 => {
                    let ks: Vec<usize> = (1..=w).filter(|k| w % k == 0).collect();
                    let k = *self.r.pick(&ks);
                    self.idx("repeat", &[k], &bv(w / k), d)
                }
                11 if w <= 16 => {
                    let v = vec![b; w];
                    self.ap("@bbterm", &v, 0)
                }
                12 if w <= 16 => {
                    let v = vec![i; w];
                    self.ap("@pbbterm", &v, 0)
                }
                13 => self.idx("int_to_bv", &[w], &i, d),
                14 => {
                    self.hit("@bv");
                    let t = self.term(&i, d);
                    l(vec![a("@bv"), t, a(&w.to_string())])
                }
                _ => self.leaf(s),
            };
        }
        if let Some((x, y)) = array(s) {
            return match self.r.below(3) {
                0 => {
                    self.hit("const");
                    let t = self.term(&y, d);
                    l(vec![l(vec![a("as"), a("const"), s.clone()]), t])
                }
                _ => self.ap("store", &[s.clone(), x, y], d),
            };
        }
        let w = bv(1 + self.r.below(9));
        match s.atom() {
            Some("Bool") => match self.r.below(if self.sig.lra { 12 } else { 19 }) {
                0 => self.ap("not", &[b], d),
                1..=3 => {
                    let op = *self.r.pick(&["and", "or", "xor", "=>", "and", "or"]);
                    let lo = if op == "=>" || self.sig.strict || !self.r.chance(1, 8) { 2 } else { 1 };
                    self.nary(op, &b, lo, d)
                }
                4 | 5 => {
                    let s = self.sig.sort(self.r, 1);
                    let op = *self.r.pick(&["=", "=", "distinct"]);
                    self.nary(op, &s, 2, d)
                }
                6..=8 => {
                    let (q, n) = (*self.r.pick(&["forall", "exists"]), 1 + self.r.below(3));
                    self.hit(q);
                    let (v, keep) = self.binders(n);
                    let t = self.term(&b, d);
                    self.scope.truncate(keep);
                    l(vec![a(q), v, t])
                }
                9 | 10 => {
                    let op = *self.r.pick(&["<", "<=", ">", ">="]);
                    let s = if self.sig.lra || self.r.coin() { re } else { i };
                    self.nary(op, &s, 2, d)
                }
                11 => self.leaf(s),
                12 => self.ap("is_int", &[re], d),
                13 => {
                    let op = *self.r.pick(&["str.<", "str.<=", "str.prefixof", "str.suffixof", "str.contains"]);
                    self.ap(op, &[st.clone(), st], d)
                }
                14 => self.ap("str.is_digit", &[st], d),
                15 => self.ap("str.in_re", &[st, rl], d),
                16 => {
                    let op = *self.r.pick(&["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"]);
                    self.ap(op, &[w.clone(), w], d)
                }
                17 => {
                    let k = self.r.below(width(&w).unwrap());
                    self.idx("@bit_of", &[k], &w, d)
                }
                _ => self.ap("int.ispow2", &[i], d),
            },
            Some("Int") => match self.r.below(12) {
                0 | 1 => {
                    let op = *self.r.pick(&["+", "-", "*"]);
                    self.nary(op, &i, 2, d)
                }
                2 => self.ap("-", &[i], d),
                3 => self.nary("div", &i, 2, d),
                4 => self.ap("mod", &[i.clone(), i], d),
                5 => self.ap("abs", &[i], d),
                6 => self.ap("to_int", &[re], d),
                7 => {
                    let op = *self.r.pick(&["str.len", "str.to_code", "str.to_int"]);
                    self.ap(op, &[st], d)
                }
                8 => self.ap("str.indexof", &[st.clone(), st, i], d),
                9 => {
                    let op = *self.r.pick(&["int.pow2", "int.log2"]);
                    self.ap(op, &[i], d)
                }
                10 => {
                    let op = *self.r.pick(&["ubv_to_int", "sbv_to_int", "@bvsize"]);
                    self.ap(op, &[w], d)
                }
                _ => {
                    let k = self.r.below(width(&w).unwrap());
                    self.idx("@int_of", &[k], &w, d)
                }
            },
            Some("Real") => match self.r.below(5) {
                0 | 1 => {
                    let op = *self.r.pick(&["+", "-", "*"]);
                    if self.sig.sub && self.r.coin() {
                        self.ap(op, &[i, re], d)
                    } else {
                        self.nary(op, &re, 2, d)
                    }
                }
                2 => self.ap("-", &[re], d),
                3 => self.nary("/", &re, 2, d),
                _ if self.sig.lra => self.leaf(s),
                _ => self.ap("to_real", &[i], d),
            },
            Some("String") => match self.r.below(8) {
                0 | 1 => self.nary("str.++", &st, 2, d),
                2 => self.ap("str.at", &[st, i], d),
                3 => self.ap("str.substr", &[st, i.clone(), i], d),
                4 | 5 => {
                    let op = *self.r.pick(&["str.replace", "str.replace_all"]);
                    self.ap(op, &[st.clone(), st.clone(), st], d)
                }
                6 => {
                    let op = *self.r.pick(&["str.replace_re", "str.replace_re_all"]);
                    self.ap(op, &[st.clone(), rl, st], d)
                }
                _ => {
                    let op = *self.r.pick(&["str.from_code", "str.from_int"]);
                    self.ap(op, &[i], d)
                }
            },
            Some("RegLan") => match self.r.below(6) {
                0 | 1 => {
                    let op = *self.r.pick(&["re.++", "re.union", "re.inter", "re.diff"]);
                    self.nary(op, &rl, 2, d)
                }
                2 => {
                    let op = *self.r.pick(&["re.*", "re.+", "re.comp", "re.opt"]);
                    self.ap(op, &[rl], d)
                }
                3 => self.ap("re.range", &[st.clone(), st], d),
                4 => self.ap("str.to_re", &[st], d),
                _ => {
                    let (x, y) = (self.r.below(4), self.r.below(4));
                    if self.r.coin() {
                        self.idx("re.^", &[x], &rl, d)
                    } else {
                        self.idx("re.loop", &[x, y], &rl, d)
                    }
                }
            },
            _ => self.leaf(s),
        }
    }
}

/// a problem and a proof that parse (whether the proof is right does not matter)
pub struct Text {
    pub problem: String,
    pub proof: String,
    pub sig: Sig,
}
pub struct Shape {
    /// definitions in the problem
    pub defs: bool,
    pub hole_args: bool,
    pub steps: usize,
}
pub fn text(r: &mut Rng, sig: Sig, shape: &Shape) -> (Text, std::collections::BTreeMap<&'static str, u64>) {
    let mut sig = sig;
    let gmp = sig.gmp;
    sig.gmp = false;
    let sg = sig.clone();
    let mut g = Fg::new(r, &sg);
    let mut pb = String::new();
    if sig.lra {
        pb.push_str("(set-logic QF_LRA)\n");
    } else if g.r.coin() {
        pb.push_str("(set-logic ALL)\n");
    }
    let decl = sg.text(g.r);
    pb.push_str(&decl);
    if shape.defs {
        for k in 0..g.r.below(3) {
            let n = format!("{}{}", g.r.pick(&["d", "-7", "let ", "p_"]), k);
            if sg.funs.iter().any(|f| f.0 == n) {
                continue;
            }
            let np = g.r.below(3);
            let keep = g.scope.len();
            let mut ps: Vec<(String, Sx)> = vec![];
            for _ in 0..np {
                let x = g.r.pick(&g.bound).clone();
                if !ps.iter().any(|p| p.0 == x) {
                    ps.push((x, sg.sort(g.r, 1)));
                }
            }
            let s = sg.sort(g.r, 1);
            g.scope.extend(ps.clone());
            let rec = g.r.chance(1, 3) && ps.iter().all(|p| p.0 != n);
            if rec {
                g.define_rec(&n, &ps, &s);
            }
            let b = g.term(&s, 2);
            g.scope.truncate(keep);
            if !rec {
                g.define(&n, &ps, &s, &b);
            }
            let ps = l(ps.iter().map(|(x, s)| l(vec![a(&q(x)), s.clone()])).collect());
            pb.push_str(&format!("({} {} {} {} {})\n", if rec { "define-fun-rec" } else { "define-fun" }, q(&n), ps, s, b));
        }
    }
    for _ in 0..1 + g.r.below(4) {
        let t = g.term(&a("Bool"), 4);
        if g.r.chance(1, 8) {
            pb.push_str(&format!("(check-sat-assuming ({t}))\n"));
        } else {
            pb.push_str(&format!("(assert {t})\n"));
        }
    }
    pb.push_str("(check-sat)\n");
    let defs = std::mem::take(&mut g.defs);
    let heads = std::mem::take(&mut g.heads);
    let fresh = g.fresh;
    let bound = g.bound.clone();
    let mut sg = sig.clone();
    sg.gmp = gmp;
    // numerals in proofs are always integers
    let lra = sg.lra;
    if lra {
        sg.lra = false;
        sg.sorts.clear();
    }
    let mut g = Fg { r, sig: &sg, scope: vec![], defs, fresh, bound, heads, hostile: false };
    let mut pf = String::new();
    let mut uid = 0usize;
    if g.r.chance(1, 6) {
        pf.push_str("unsat\n");
    }
    // frames: closing id, visible ids, scope length, number of commands, a step was issued
    let mut fr: Vec<(String, Vec<String>, usize, usize, bool)> = vec![(String::new(), vec![], 0, 0, false)];
    let weird = names(g.r, 6);
    let newid = |g: &mut Fg, uid: &mut usize, pre: &str| {
        *uid += 1;
        let w = g.r.pick(&weird).clone();
        match g.r.below(3) {
            0 => format!("{}~{}", w, uid),
            1 if !pre.is_empty() => format!("{}.t{}", pre, uid),
            _ => format!("t{}", uid),
        }
    };
    let mut left = shape.steps;
    while left > 0 || fr.len() > 1 {
        let depth = fr.len();
        let pre = fr.last().unwrap().0.clone();
        if left > 0 && depth < 4 && g.r.chance(1, 6) {
            left -= 1;
            let id = newid(&mut g, &mut uid, &pre);
            let keep = g.scope.len();
            let mut args = String::new();
            for _ in 0..g.r.below(4) {
                let x = g.r.pick(&g.bound).clone();
                let s = sg.sort(g.r, 1);
                match g.r.below(3) {
                    0 => args.push_str(&format!("({} {}) ", q(&x), s)),
                    1 if !sg.strict => {
                        let t = g.term(&s, 2);
                        args.push_str(&format!("(:= {} {}) ", q(&x), t));
                    }
                    _ => {
                        let t = g.term(&s, 2);
                        args.push_str(&format!("(:= ({} {}) {}) ", q(&x), s, t));
                    }
                }
                g.scope.push((x, s));
            }
            pf.push_str(&format!("(anchor :step {}{})\n", q(&id), if args.is_empty() { String::new() } else { format!(" :args ({args})") }));
            fr.push((id, vec![], keep, 0, false));
            continue;
        }
        let close = depth > 1 && fr.last().unwrap().3 > 0 && (left == 0 || g.r.chance(1, 3));
        if !close && g.r.chance(1, 10) && (depth == 1 || g.r.chance(1, 3)) {
            // a definition
            let n = match g.r.below(4) {
                0 => g.r.pick(&g.bound).clone(),
                1 => "@p_1".to_string(),
                _ => format!("k{uid}"),
            };
            // a defined name that is also bound, declared or defined would be ambiguous
            if depth > 1 || g.scope.iter().any(|x| x.0 == n) || g.bound.contains(&n) || sg.funs.iter().any(|f| f.0 == n) {
                uid += 1;
                continue;
            }
            let s = sg.sort(g.r, 1);
            let t = g.term(&s, 2);
            pf.push_str(&format!("(define-fun {} () {} {})\n", q(&n), s, t));
            g.define(&n, &[], &s, &t);
            uid += 1;
            continue;
        }
        if !close && !fr.last().unwrap().4 && g.r.chance(1, 3) {
            let id = newid(&mut g, &mut uid, &pre);
            let t = g.term(&a("Bool"), 3);
            pf.push_str(&format!("(assume {} {}{})\n", q(&id), t, if g.r.chance(1, 9) { " :foo (x) :bar" } else { "" }));
            fr.last_mut().unwrap().1.push(id);
            fr.last_mut().unwrap().3 += 1;
            left = left.saturating_sub(1);
            continue;
        }
        let id = if close { pre.clone() } else { newid(&mut g, &mut uid, &pre) };
        let n = g.r.below(4);
        let cl: Vec<Sx> = (0..n).map(|_| g.term(&a("Bool"), 3)).collect();
        let rule = match g.r.below(5) {
            0 => g.r.pick(&weird).clone(),
            1 => "hole".to_string(),
            2 => "resolution".into(),
            _ => "and".into(),
        };
        let mut st = format!("(step {} (cl {}) :rule {}", q(&id), cl.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), q(&rule));
        let vis: Vec<String> = fr.iter().flat_map(|f| f.1.iter().cloned()).collect();
        if !vis.is_empty() && g.r.coin() {
            let n = 1 + g.r.below(3);
            let v: Vec<String> = (0..n).map(|_| {
                let x = g.r.pick(&vis).clone();
                sym(g.r, &x).to_string()
            }).collect();
            st.push_str(&format!(" :premises ({})", v.join(" ")));
        }
        if g.r.chance(1, 3) {
            let n = 1 + g.r.below(3);
            let hole = rule == "hole";
            // names introduced in skipped arguments would not exist
            let keep = g.defs.clone();
            let v: Vec<String> = (0..n)
                .map(|_| {
                    if g.r.chance(1, 4) {
                        let n = g.r.below(3);
                        let c: Vec<String> = (0..n).map(|_| g.term(&a("Bool"), 1).to_string()).collect();
                        format!("(cl {})", c.join(" "))
                    } else {
                        let s = sg.sort(g.r, 1);
                        g.term(&s, 2).to_string()
                    }
                })
                .collect();
            if hole && !shape.hole_args {
                g.defs = keep;
            }
            st.push_str(&format!(" :args ({})", v.join(" ")));
        }
        if !vis.is_empty() && g.r.chance(1, 5) {
            let n = 1 + g.r.below(2);
            let v: Vec<String> = (0..n).map(|_| q(g.r.pick::<String>(&vis))).collect();
            st.push_str(&format!(" :discharge ({})", v.join(" ")));
        }
        st.push_str(")\n");
        pf.push_str(&st);
        left = left.saturating_sub(1);
        if close {
            let f = fr.pop().unwrap();
            g.scope.truncate(f.2);
        } else {
            fr.last_mut().unwrap().4 = true;
        }
        fr.last_mut().unwrap().1.push(id);
        fr.last_mut().unwrap().3 += 1;
        fr.last_mut().unwrap().4 = true;
    }
    let heads = std::mem::take(&mut g.heads);
    (Text { problem: pb, proof: pf, sig }, heads)
}
