//! An independent account of which terms are well-sorted, and at which sort.
use crate::front::*;
use crate::sx::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    T(Sx),
    Ill(String),
    /// nothing is claimed about this term
    Unsure,
}
use Ty::*;
fn ill(s: impl Into<String>) -> Ty {
    Ill(s.into())
}
/// raw name of a symbol
pub fn raw(s: &str) -> String {
    s.strip_prefix('|').and_then(|t| t.strip_suffix('|')).filter(|_| s.len() > 1).unwrap_or(s).to_string()
}
/// symbols spelled canonically
pub fn norm(s: &Sx) -> Sx {
    match s {
        Sx::A(t) if t.starts_with('|') && t.len() > 1 => a(&q(&raw(t))),
        Sx::A(_) => s.clone(),
        Sx::L(v) => l(v.iter().map(norm).collect()),
    }
}
pub fn fun(ps: &[Sx], r: &Sx) -> Sx {
    let mut v = vec![a("->")];
    v.extend(ps.iter().cloned());
    v.push(r.clone());
    l(v)
}
fn numeral(s: &Sx) -> Option<&str> {
    s.atom().filter(|t| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) && (*t == "0" || !t.starts_with('0')))
}
pub const MAXW: u128 = i32::MAX as u128;

#[derive(Clone, Default)]
pub struct Tc {
    pub sorts: Vec<(String, usize)>,
    pub funs: Vec<(String, Vec<Sx>, Sx)>,
    /// numerals are reals
    pub lra: bool,
    /// literals of proofs
    pub gmp: bool,
    pub sub: bool,
    pub strict: bool,
    pub scope: Vec<(String, Sx)>,
}
enum Same {
    Yes,
    No,
    Maybe,
}
impl Tc {
    pub fn new(sig: &Sig) -> Tc {
        Tc { sorts: sig.sorts.clone(), funs: sig.funs.iter().map(|(n, ps, s)| (n.clone(), ps.iter().map(norm).collect(), norm(s))).collect(), lra: sig.lra, gmp: sig.gmp, sub: sig.sub, strict: sig.strict, scope: vec![] }
    }
    fn same(&self, x: &Sx, y: &Sx) -> Same {
        if x == y {
            Same::Yes
        } else if self.sub && matches!((x.atom(), y.atom()), (Some("Int"), Some("Real")) | (Some("Real"), Some("Int"))) {
            Same::Maybe
        } else {
            Same::No
        }
    }
    pub fn sort(&self, s: &Sx) -> Ty {
        match s {
            Sx::A(t) => match &**t {
                "Bool" | "Int" | "Real" | "String" | "RegLan" => T(s.clone()),
                "Type" => Unsure,
                t if t.starts_with(|c: char| c.is_ascii_digit() || c == '#' || c == '"' || c == ':') => ill("a literal is no sort"),
                t if crate::front::q(&raw(t)) != *t && !t.starts_with('|') => Unsure,
                t => match self.sorts.iter().find(|x| x.0 == raw(t)) {
                    Some((_, 0)) => T(norm(s)),
                    Some(_) => ill("sort arity"),
                    None if ["Array", "BitVec"].contains(&&*raw(t)) => ill("sort arity"),
                    None if ["Bool", "Int", "Real", "String", "RegLan", "Type"].contains(&&*raw(t)) => Unsure,
                    None => ill("undeclared sort"),
                },
            },
            Sx::L(v) => {
                let Some((h, args)) = s.op() else { return if v.is_empty() { ill("()") } else { Unsure } };
                match h {
                    "_" => match args {
                        [n, w] if n.atom() == Some("BitVec") => match numeral(w) {
                            Some("0") => ill("no bits"),
                            Some(n) => match n.parse::<u128>() {
                                Ok(n) if n <= MAXW => T(s.clone()),
                                _ => Unsure,
                            },
                            None if w.atom().is_none() => Unsure,
                            None => ill("bit width"),
                        },
                        _ => Unsure,
                    },
                    "Array" => {
                        if args.len() != 2 {
                            return ill("sort arity");
                        }
                        self.sorts_of(s, args)
                    }
                    h if !h.starts_with('|') && q(&raw(h)) != h => Unsure,
                    h if h.starts_with('|') && ["Array", "BitVec", "_", "->"].contains(&&*raw(h)) => Unsure,
                    h => match self.sorts.iter().find(|x| x.0 == raw(h)) {
                        Some((_, k)) if *k == args.len() && *k > 0 => self.sorts_of(s, args),
                        Some(_) => ill("sort arity"),
                        None if ["Bool", "Int", "Real", "String", "RegLan", "BitVec"].contains(&h) => ill("sort arity"),
                        None if ["Type", "->", "par"].contains(&h) => Unsure,
                        None => ill("undeclared sort"),
                    },
                }
            }
        }
    }
    fn sorts_of(&self, s: &Sx, args: &[Sx]) -> Ty {
        let mut unsure = false;
        for t in args {
            match self.sort(t) {
                T(_) => {}
                Ill(e) => return Ill(e),
                Unsure => unsure = true,
            }
        }
        if unsure {
            Unsure
        } else {
            T(norm(s))
        }
    }
    fn literal(&self, t: &str) -> Option<Ty> {
        let d = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
        let num = |s: &str| d(s) && (s == "0" || !s.starts_with('0'));
        if t.starts_with('"') {
            return Some(T(a("String")));
        }
        if let Some(b) = t.strip_prefix("#b") {
            return Some(if !b.is_empty() && b.bytes().all(|c| c == b'0' || c == b'1') { T(bv(b.len())) } else { Unsure });
        }
        if let Some(b) = t.strip_prefix("#x") {
            return Some(if !b.is_empty() && b.bytes().all(|c| c.is_ascii_hexdigit()) { T(bv(4 * b.len())) } else { Unsure });
        }
        let (neg, u) = match t.strip_prefix('-') {
            Some(u) if self.gmp => (true, u),
            _ => (false, t),
        };
        if num(u) {
            return Some(T(a(if self.lra { "Real" } else { "Int" })));
        }
        if let Some((x, y)) = u.split_once('.') {
            if num(x) && d(y) {
                return Some(T(a("Real")));
            }
        }
        if let Some((x, y)) = u.split_once('/') {
            if self.gmp && num(x) && num(y) {
                return Some(if y == "0" { Unsure } else { T(a("Real")) });
            }
        }
        if t.starts_with(|c: char| c.is_ascii_digit()) || neg && u.starts_with(|c: char| c.is_ascii_digit()) {
            return Some(Unsure);
        }
        None
    }
    fn symbol(&self, t: &str) -> Ty {
        let n = raw(t);
        if !t.starts_with('|') && q(&n) != t {
            return Unsure;
        }
        if let Some((_, s)) = self.scope.iter().rev().find(|x| x.0 == n) {
            return T(s.clone());
        }
        match self.funs.iter().rev().find(|x| x.0 == n) {
            Some((_, ps, s)) => T(if ps.is_empty() { s.clone() } else { fun(ps, s) }),
            None => ill(format!("undeclared {n}")),
        }
    }
    pub fn apply(&self, f: &Sx, args: &[Sx]) -> Ty {
        let Some(("->", v)) = f.op() else { return ill("not a function") };
        let (r, ps) = v.split_last().unwrap();
        if ps.len() != args.len() {
            return ill("number of arguments");
        }
        let mut maybe = false;
        for (p, x) in ps.iter().zip(args) {
            match self.same(p, x) {
                Same::Yes => {}
                Same::No => return ill("argument sort"),
                Same::Maybe => maybe = true,
            }
        }
        if maybe {
            Unsure
        } else {
            T(r.clone())
        }
    }
    fn all(&self, ts: &[Sx]) -> Result<Vec<Sx>, Ty> {
        let mut out = vec![];
        let mut unsure = false;
        for t in ts {
            match self.ty_in(t) {
                T(s) => out.push(s),
                Unsure => unsure = true,
                e => return Err(e),
            }
        }
        if unsure {
            Err(Unsure)
        } else {
            Ok(out)
        }
    }
    fn ty_in(&self, t: &Sx) -> Ty {
        self.clone().ty(t)
    }
    pub fn ty(&mut self, t: &Sx) -> Ty {
        let v = match t {
            Sx::A(s) => {
                return match &**s {
                    "true" | "false" => T(a("Bool")),
                    "re.none" | "re.all" | "re.allchar" => T(a("RegLan")),
                    s if s.starts_with(':') => ill("keyword"),
                    s => match self.literal(s).unwrap_or_else(|| self.symbol(s)) {
                        // definitions with parameters are no values
                        T(t) if raw(s).starts_with("defd_") && t.is_op("->") => Unsure,
                        t => t,
                    },
                }
            }
            Sx::L(v) => v,
        };
        let Some(h) = v.first() else { return ill("()") };
        let args = &v[1..];
        if let Some(h) = h.atom() {
            match h {
                "let" => {
                    let [Sx::L(bs), body] = args else { return Unsure };
                    let mut new: Vec<(String, Sx)> = vec![];
                    let mut unsure = bs.is_empty();
                    for b in bs.iter() {
                        let Some([x, val]) = b.list() else { return Unsure };
                        let Some(x) = x.atom().filter(|x| is_symbol(x)) else { return Unsure };
                        if new.iter().any(|n| n.0 == raw(x)) {
                            unsure = true;
                        }
                        match self.ty(val) {
                            T(s) => new.push((raw(x), s)),
                            Ill(e) => return Ill(e),
                            // its sort is not known in the body
                            Unsure => return Unsure,
                        }
                    }
                    if unsure {
                        return Unsure;
                    }
                    return self.under(new, body);
                }
                "forall" | "exists" | "choice" | "lambda" => {
                    let [Sx::L(bs), body] = args else { return Unsure };
                    if bs.is_empty() {
                        return Unsure;
                    }
                    let mut new = vec![];
                    let mut unsure = h == "choice" && bs.len() != 1;
                    for b in bs.iter() {
                        let Some([x, s]) = b.list() else { return Unsure };
                        let Some(x) = x.atom().filter(|x| is_symbol(x)) else { return Unsure };
                        match self.sort(s) {
                            T(s) => new.push((raw(x), s)),
                            Ill(e) => return Ill(e),
                            Unsure => unsure = true,
                        }
                    }
                    if unsure {
                        return Unsure;
                    }
                    let ps: Vec<Sx> = new.iter().map(|x| x.1.clone()).collect();
                    return match self.under(new, body) {
                        T(s) if h == "lambda" => T(if s.op().is_some_and(|o| o.0 == "->") { return Unsure } else { fun(&ps, &s) }),
                        T(s) if s != a("Bool") => ill("body of a binder"),
                        T(_) => T(if h == "choice" { ps[0].clone() } else { a("Bool") }),
                        e => e,
                    };
                }
                "!" => {
                    if args.len() != 2 || !args[1].atom().is_some_and(|x| x.starts_with(':') && !x.contains("named")) {
                        return Unsure;
                    }
                    return self.ty(&args[0]);
                }
                "_" => {
                    let [n, w] = args else { return Unsure };
                    let Some(n) = n.atom().and_then(|n| n.strip_prefix("bv")) else { return Unsure };
                    if numeral(&a(n)).is_none() {
                        return Unsure;
                    }
                    return self.sort(&l(vec![a("_"), a("BitVec"), w.clone()]));
                }
                "as" | "cl" | "@d" | "eo" | "rare-list" | "match" | "par" | "assume" | "step" | "anchor" => return Unsure,
                _ => {}
            }
            if args.is_empty() {
                return ill("no arguments");
            }
            if is_op(h) {
                return match self.all(args) {
                    Err(e) => e,
                    Ok(ss) => {
                        if h == "@bv" {
                            if ss.len() == 2 && ss.iter().all(|s| s.atom() == Some("Int")) {
                                return match numeral(&args[1]) {
                                    Some(_) => self.sort(&l(vec![a("_"), a("BitVec"), args[1].clone()])),
                                    None => Unsure,
                                };
                            }
                            return if ss.len() != 2 || ss.iter().any(|s| s.atom() != Some("Int") && s.atom() != Some("Real")) || !self.sub { ill("@bv") } else { Unsure };
                        }
                        self.op(h, &[], &ss)
                    }
                };
            }
            if h.starts_with(':') {
                return ill("keyword");
            }
            let f = match self.literal(h) {
                Some(T(_)) => ill("a literal is no function"),
                Some(e) => e,
                None => self.symbol(h),
            };
            return match (f, self.all(args)) {
                (Ill(e), _) | (_, Err(Ill(e))) => Ill(e),
                (T(f), Ok(ss)) => self.apply(&f, &ss),
                (T(f), _) if f.op().is_none_or(|o| o.0 != "->" || o.1.len() != args.len() + 1) => ill("not a function of so many arguments"),
                _ => Unsure,
            };
        }
        if args.is_empty() {
            return ill("no arguments");
        }
        if let Some(("_", ix)) = h.op() {
            let Some(op) = ix.first().and_then(|x| x.atom()) else { return Unsure };
            if !INDEXED.contains(&op) {
                return Unsure;
            }
            return match self.all(args) {
                Err(e) => e,
                Ok(ss) => {
                    if ix[1..].iter().any(|i| numeral(i).is_none()) {
                        return if ix[1..].iter().any(|i| i.atom().is_none()) { Unsure } else { ill("index") };
                    }
                    self.op(op, &ix[1..], &ss)
                }
            };
        }
        if let Some(("as", v)) = h.op() {
            let [c, s] = v else { return Unsure };
            if c.atom() != Some("const") {
                return Unsure;
            }
            return match (self.sort(s), self.all(args)) {
                (Ill(e), _) | (_, Err(Ill(e))) => Ill(e),
                (Unsure, _) | (_, Err(_)) => Unsure,
                (T(s), Ok(ss)) => match (array(&s), &ss[..]) {
                    (Some((_, y)), [z]) => match self.same(&y, z) {
                        Same::Yes => T(s),
                        Same::No => ill("constant array"),
                        Same::Maybe => Unsure,
                    },
                    _ => ill("constant array"),
                },
            };
        }
        match (self.ty(h), self.all(args)) {
            (Ill(e), _) | (_, Err(Ill(e))) => Ill(e),
            (T(f), Ok(ss)) => self.apply(&f, &ss),
            _ => Unsure,
        }
    }
    fn under(&mut self, new: Vec<(String, Sx)>, body: &Sx) -> Ty {
        let k = self.scope.len();
        self.scope.extend(new);
        let r = self.ty(body);
        self.scope.truncate(k);
        r
    }
    /// the sort of an operator applied to arguments of these sorts
    pub fn op(&self, op: &str, ix: &[Sx], ss: &[Sx]) -> Ty {
        let n = ss.len();
        let k = |s: &str| a(s);
        // fixed argument sorts
        let fixed = |want: &[&str], r: &str| {
            if want.len() != n {
                return ill(format!("{op}: number of arguments"));
            }
            let mut maybe = false;
            for (w, s) in want.iter().zip(ss) {
                match self.same(&a(w), s) {
                    Same::Yes => {}
                    Same::No => return ill(format!("{op}: argument sort")),
                    Same::Maybe => maybe = true,
                }
            }
            if maybe {
                Unsure
            } else {
                T(a(r))
            }
        };
        let many = |lo: usize, s: &str, r: Sx| {
            if n < lo {
                return ill(format!("{op}: number of arguments"));
            }
            let mut maybe = false;
            for x in ss {
                match self.same(&a(s), x) {
                    Same::Yes => {}
                    Same::No => return ill(format!("{op}: argument sort")),
                    Same::Maybe => maybe = true,
                }
            }
            if maybe {
                Unsure
            } else {
                T(r)
            }
        };
        let w = |i: usize| ss.get(i).and_then(width);
        let idx = |i: usize| ix.get(i).and_then(numeral).and_then(|t| t.parse::<u128>().ok());
        let width_ty = |w: Option<u128>| match w {
            Some(0) => ill(format!("{op}: no bits")),
            Some(w) if w <= MAXW => T(bv(w as usize)),
            _ => Unsure,
        };
        let one_bv = |nix: usize| {
            if ix.len() != nix || n != 1 {
                Err(ill(format!("{op}: number of arguments or indices")))
            } else {
                w(0).map(|w| w as u128).ok_or(ill(format!("{op}: argument sort")))
            }
        };
        match op {
            "true" | "false" => fixed(&[], "Bool"),
            "re.none" | "re.all" | "re.allchar" => fixed(&[], "RegLan"),
            "not" => fixed(&["Bool"], "Bool"),
            "=>" => many(2, "Bool", k("Bool")),
            "and" | "or" | "xor" => many(if self.strict { 2 } else { 1 }, "Bool", k("Bool")),
            "=" | "distinct" => {
                if n < 2 {
                    return ill(format!("{op}: number of arguments"));
                }
                let mut maybe = false;
                for s in &ss[1..] {
                    match self.same(&ss[0], s) {
                        Same::Yes => {}
                        Same::No => return ill(format!("{op}: different sorts")),
                        Same::Maybe => maybe = true,
                    }
                }
                if maybe {
                    Unsure
                } else {
                    T(k("Bool"))
                }
            }
            "ite" => {
                if n != 3 || ss[0] != k("Bool") {
                    return ill("ite");
                }
                match self.same(&ss[1], &ss[2]) {
                    Same::Yes => T(ss[1].clone()),
                    Same::No => ill("ite"),
                    Same::Maybe => Unsure,
                }
            }
            "+" | "-" | "*" | "<" | ">" | "<=" | ">=" => {
                let arith = ["+", "-", "*"].contains(&op);
                if n < 2 && !(op == "-" && n == 1) {
                    return ill(format!("{op}: number of arguments"));
                }
                let ints = ss.iter().filter(|s| **s == k("Int")).count();
                let reals = ss.iter().filter(|s| **s == k("Real")).count();
                if ints + reals != n {
                    return ill(format!("{op}: argument sort"));
                }
                if ints > 0 && reals > 0 && !self.sub {
                    // comparisons of integers with reals are tolerated
                    return if arith { ill(format!("{op}: mixed")) } else { Unsure };
                }
                T(k(if !arith {
                    "Bool"
                } else if reals > 0 {
                    "Real"
                } else {
                    "Int"
                }))
            }
            "div" => many(2, "Int", k("Int")),
            "mod" => fixed(&["Int", "Int"], "Int"),
            "abs" => match ss {
                [s] if self.sub && *s == k("Real") => Unsure,
                _ => fixed(&["Int"], "Int"),
            },
            "/" => {
                if n >= 2 && self.sub && ss.iter().all(|s| *s == k("Int") || *s == k("Real")) {
                    return T(k("Real"));
                }
                many(2, "Real", k("Real"))
            }
            "to_real" => fixed(&["Int"], "Real"),
            "to_int" => fixed(&["Real"], "Int"),
            "is_int" => fixed(&["Real"], "Bool"),
            "int.pow2" | "int.log2" => fixed(&["Int"], "Int"),
            "int.ispow2" => fixed(&["Int"], "Bool"),
            "select" => match ss {
                [m, i] => match array(m) {
                    Some((x, y)) => match self.same(&x, i) {
                        Same::Yes => T(y),
                        Same::No => ill("select"),
                        Same::Maybe => Unsure,
                    },
                    None => ill("select"),
                },
                _ => ill("select"),
            },
            "store" => match ss {
                [m, i, v] => match array(m) {
                    Some((x, y)) => match (self.same(&x, i), self.same(&y, v)) {
                        (Same::Yes, Same::Yes) => T(m.clone()),
                        (Same::No, _) | (_, Same::No) => ill("store"),
                        _ => Unsure,
                    },
                    None => ill("store"),
                },
                _ => ill("store"),
            },
            "str.++" => many(2, "String", k("String")),
            "str.len" | "str.to_code" | "str.to_int" => fixed(&["String"], "Int"),
            "str.is_digit" => fixed(&["String"], "Bool"),
            "str.<" | "str.<=" | "str.prefixof" | "str.suffixof" | "str.contains" => fixed(&["String", "String"], "Bool"),
            "str.at" => fixed(&["String", "Int"], "String"),
            "str.substr" => fixed(&["String", "Int", "Int"], "String"),
            "str.indexof" => fixed(&["String", "String", "Int"], "Int"),
            "str.replace" | "str.replace_all" => fixed(&["String", "String", "String"], "String"),
            "str.replace_re" | "str.replace_re_all" => fixed(&["String", "RegLan", "String"], "String"),
            "str.from_code" | "str.from_int" => fixed(&["Int"], "String"),
            "str.to_re" => fixed(&["String"], "RegLan"),
            "str.in_re" => fixed(&["String", "RegLan"], "Bool"),
            "re.range" => fixed(&["String", "String"], "RegLan"),
            "re.++" | "re.union" | "re.inter" | "re.diff" => many(2, "RegLan", k("RegLan")),
            "re.*" | "re.+" | "re.comp" | "re.opt" => fixed(&["RegLan"], "RegLan"),
            "re.^" | "re.loop" => {
                if ix.len() != if op == "re.^" { 1 } else { 2 } {
                    return ill(format!("{op}: indices"));
                }
                fixed(&["RegLan"], "RegLan")
            }
            "bvnot" | "bvneg" => match one_bv(0) {
                Ok(_) => T(ss[0].clone()),
                Err(e) => e,
            },
            "ubv_to_int" | "sbv_to_int" | "@bvsize" => match one_bv(0) {
                Ok(_) => T(k("Int")),
                Err(e) => e,
            },
            "bvand" | "bvor" | "bvxor" | "bvadd" | "bvmul" | "bvudiv" | "bvurem" | "bvshl" | "bvlshr" | "bvnand" | "bvnor" | "bvxnor" | "bvsub" | "bvsdiv" | "bvsrem" | "bvsmod" | "bvashr" | "bvult" | "bvule" | "bvugt" | "bvuge" | "bvslt"
            | "bvsle" | "bvsgt" | "bvsge" | "bvcomp" => {
                let nary = ["bvand", "bvor", "bvxor", "bvadd", "bvmul"].contains(&op);
                if n < 2 || n > 2 && !nary {
                    return ill(format!("{op}: number of arguments"));
                }
                if w(0).is_none() || ss.iter().any(|s| *s != ss[0]) {
                    return ill(format!("{op}: argument sort"));
                }
                if op == "bvcomp" {
                    T(bv(1))
                } else if ["bvu", "bvs"].iter().any(|p| op.starts_with(p)) && ["lt", "le", "gt", "ge"].iter().any(|p| op.ends_with(p)) {
                    T(k("Bool"))
                } else {
                    T(ss[0].clone())
                }
            }
            "concat" => {
                if n < 2 {
                    return ill("concat: number of arguments");
                }
                let mut sum = 0u128;
                for i in 0..n {
                    match w(i) {
                        Some(w) => sum += w as u128,
                        None => return ill("concat: argument sort"),
                    }
                }
                width_ty(Some(sum))
            }
            "@bbterm" => many(1, "Bool", bv(n)),
            "@pbbterm" => many(1, "Int", bv(n)),
            "extract" => match one_bv(2) {
                Ok(m) => match (idx(0), idx(1)) {
                    (Some(i), Some(j)) if m > i && i >= j => T(bv((i - j + 1) as usize)),
                    _ => ill("extract: indices"),
                },
                Err(e) => e,
            },
            "@bit_of" | "@int_of" => match one_bv(1) {
                Ok(_) => match idx(0) {
                    // (bits that do not exist can be named, and no rule may conclude anything about them)
                    Some(_) | None => T(k(if op == "@bit_of" { "Bool" } else { "Int" })),
                },
                Err(e) => e,
            },
            "zero_extend" | "sign_extend" => match one_bv(1) {
                Ok(m) => width_ty(idx(0).and_then(|i| i.checked_add(m))),
                Err(e) => e,
            },
            "rotate_left" | "rotate_right" => match one_bv(1) {
                Ok(_) => T(ss[0].clone()),
                Err(e) => e,
            },
            "repeat" => match one_bv(1) {
                Ok(m) => width_ty(idx(0).and_then(|i| i.checked_mul(m))),
                Err(e) => e,
            },
            "int_to_bv" => {
                if ix.len() != 1 {
                    return ill("int_to_bv: indices");
                }
                match fixed(&["Int"], "Int") {
                    T(_) => width_ty(idx(0)),
                    e => e,
                }
            }
            _ => Unsure,
        }
    }
}
pub const INDEXED: &[&str] = &["extract", "@bit_of", "@int_of", "zero_extend", "sign_extend", "rotate_left", "rotate_right", "repeat", "int_to_bv", "re.^", "re.loop"];
pub const PLAIN: &[&str] = &[
    "not", "=>", "and", "or", "xor", "=", "distinct", "ite", "+", "-", "*", "div", "/", "mod", "abs", "<", ">", "<=", ">=", "to_real", "to_int", "is_int", "select", "store", "str.++", "str.len", "str.<", "str.<=", "str.at", "str.substr",
    "str.prefixof", "str.suffixof", "str.contains", "str.indexof", "str.replace", "str.replace_all", "str.replace_re", "str.replace_re_all", "str.is_digit", "str.to_code", "str.from_code", "str.to_int", "str.from_int", "str.to_re", "str.in_re",
    "re.++", "re.union", "re.inter", "re.*", "re.comp", "re.diff", "re.+", "re.opt", "re.range", "bvnot", "bvneg", "bvand", "bvor", "bvadd", "bvmul", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvult", "concat", "bvnand", "bvnor", "bvxor",
    "bvxnor", "bvcomp", "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "ubv_to_int", "sbv_to_int", "@pbbterm", "@bbterm", "@bv", "@bvsize", "int.pow2", "int.ispow2", "int.log2",
];
pub fn is_op(h: &str) -> bool {
    PLAIN.contains(&h)
}
fn is_symbol(x: &str) -> bool {
    let n = raw(x);
    (x.starts_with('|') || q(&n) == x) && !is_op(&n) && !OPS.contains(&n.as_str()) && !n.starts_with("re.") && n != "eo"
}
