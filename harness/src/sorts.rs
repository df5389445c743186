//! Sorts and an independent typing function over `Sx`.
use crate::sx::*;
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum St {
    Bool,
    Int,
    Real,
    Str,
    Re,
    Bv(usize),
    U(Rc<str>),
    Arr(Rc<St>, Rc<St>),
    Fun(Rc<[St]>, Rc<St>),
}
impl fmt::Display for St {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            St::Bool => write!(f, "Bool"),
            St::Int => write!(f, "Int"),
            St::Real => write!(f, "Real"),
            St::Str => write!(f, "String"),
            St::Re => write!(f, "RegLan"),
            St::Bv(n) => write!(f, "(_ BitVec {})", n),
            St::U(s) => write!(f, "{}", s),
            St::Arr(a, b) => write!(f, "(Array {} {})", a, b),
            St::Fun(a, b) => {
                write!(f, "(->")?;
                for x in a.iter() {
                    write!(f, " {}", x)?;
                }
                write!(f, " {})", b)
            }
        }
    }
}
pub fn sort_of_sx(s: &Sx) -> Option<St> {
    match s {
        Sx::A(x) => Some(match &**x {
            "Bool" => St::Bool,
            "Int" => St::Int,
            "Real" => St::Real,
            "String" => St::Str,
            "RegLan" => St::Re,
            _ => St::U(x.clone()),
        }),
        Sx::L(v) => {
            if v.len() == 3 && v[0].atom() == Some("_") && v[1].atom() == Some("BitVec") {
                return Some(St::Bv(v[2].atom()?.parse().ok()?));
            }
            if v.len() == 3 && v[0].atom() == Some("Array") {
                return Some(St::Arr(Rc::new(sort_of_sx(&v[1])?), Rc::new(sort_of_sx(&v[2])?)));
            }
            None
        }
    }
}
impl St {
    pub fn sx(&self) -> Sx {
        parse(&self.to_string())
    }
}

#[derive(Clone, Default)]
pub struct Decls {
    pub sorts: Vec<Rc<str>>,
    pub funs: Vec<(Rc<str>, Vec<St>, St)>,
    map: HashMap<Rc<str>, usize>,
}
impl Decls {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn sort(&mut self, s: &str) -> St {
        let r: Rc<str> = Rc::from(s);
        if !self.sorts.contains(&r) {
            self.sorts.push(r.clone());
        }
        St::U(r)
    }
    pub fn fun(&mut self, name: &str, args: &[St], ret: St) -> Sx {
        let r: Rc<str> = Rc::from(name);
        if !self.map.contains_key(&r) {
            self.map.insert(r.clone(), self.funs.len());
            self.funs.push((r, args.to_vec(), ret));
        }
        a(name)
    }
    pub fn get(&self, name: &str) -> Option<(&[St], &St)> {
        self.map.get(name).map(|&i| (&self.funs[i].1[..], &self.funs[i].2))
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for x in &self.sorts {
            s.push_str(&format!("(declare-sort {} 0)\n", x));
        }
        for (n, a, r) in &self.funs {
            let args: Vec<String> = a.iter().map(|x| x.to_string()).collect();
            s.push_str(&format!("(declare-fun {} ({}) {})\n", n, args.join(" "), r));
        }
        s
    }
    /// Names of declared constants of the sort.
    pub fn consts(&self, s: &St) -> Vec<Sx> {
        self.funs
            .iter()
            .filter(|(_, a, r)| a.is_empty() && r == s)
            .map(|(n, _, _)| Sx::A(n.clone()))
            .collect()
    }
}

pub type Scope = Vec<(Rc<str>, St)>;

pub fn is_num(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())
}
pub fn is_dec(s: &str) -> bool {
    match s.split_once('.') {
        Some((x, y)) => is_num(x) && is_num(y),
        None => false,
    }
}
/// GMP-style literal: (numerator, denominator, is a Real)
pub fn gmp(s: &str) -> Option<(i128, i128, bool)> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (-1, t),
        None => (1, s),
    };
    if let Some((x, y)) = t.split_once('/') {
        if is_num(x) && is_num(y) {
            return Some((neg * x.parse::<i128>().ok()?, y.parse().ok()?, true));
        }
        return None;
    }
    if is_num(t) {
        return Some((neg * t.parse::<i128>().ok()?, 1, false));
    }
    if is_dec(t) {
        let (i, fr) = t.split_once('.').unwrap();
        let d = 10i128.checked_pow(fr.len() as u32)?;
        let i: i128 = i.parse().ok()?;
        let fr: i128 = fr.parse().ok()?;
        return Some((neg * i.checked_mul(d)?.checked_add(fr)?, d, true));
    }
    None
}
pub fn bindings(b: &Sx) -> Option<Vec<(Rc<str>, Sx)>> {
    b.list()?
        .iter()
        .map(|p| match p.list() {
            Some([Sx::A(n), s]) => Some((n.clone(), s.clone())),
            _ => None,
        })
        .collect()
}

pub fn sort_of(t: &Sx, d: &Decls, sc: &mut Scope) -> Option<St> {
    use St::*;
    match t {
        Sx::A(x) => {
            if let Some((_, s)) = sc.iter().rev().find(|(n, _)| n == x) {
                return Some(s.clone());
            }
            if let Some((args, r)) = d.get(x) {
                return Some(if args.is_empty() {
                    r.clone()
                } else {
                    Fun(args.iter().cloned().collect(), Rc::new(r.clone()))
                });
            }
            let x = &**x;
            if x == "true" || x == "false" {
                return Some(Bool);
            }
            if is_num(x) {
                return Some(Int);
            }
            if is_dec(x) {
                return Some(Real);
            }
            if let Some(q) = gmp(x) {
                return Some(if q.2 { Real } else { Int });
            }
            if x.starts_with("#b") {
                return Some(Bv(x.len() - 2));
            }
            if x.starts_with("#x") {
                return Some(Bv(4 * (x.len() - 2)));
            }
            if x.starts_with('"') {
                return Some(Str);
            }
            if x == "re.none" || x == "re.all" || x == "re.allchar" {
                return Some(Re);
            }
            None
        }
        Sx::L(v) => {
            if v.is_empty() {
                return None;
            }
            let args = &v[1..];
            let h = match &v[0] {
                Sx::A(h) => h.clone(),
                Sx::L(hv) => {
                    // indexed operators
                    if hv.first().and_then(|x| x.atom()) == Some("_") && hv.len() >= 2 {
                        let name = hv[1].atom()?;
                        let idx: Vec<usize> = hv[2..]
                            .iter()
                            .map(|x| x.atom().and_then(|s| s.parse().ok()))
                            .collect::<std::option::Option<_>>()?;
                        let s: Vec<St> =
                            args.iter().map(|x| sort_of(x, d, sc)).collect::<std::option::Option<_>>()?;
                        return match (name, s.first()?) {
                            ("extract", Bv(n)) if idx.len() == 2 && idx[0] >= idx[1] && idx[0] < *n => {
                                std::option::Option::Some(Bv(idx[0] - idx[1] + 1))
                            }
                            ("zero_extend" | "sign_extend", Bv(n)) if idx.len() == 1 => std::option::Option::Some(Bv(n + idx[0])),
                            ("rotate_left" | "rotate_right", Bv(n)) if idx.len() == 1 => std::option::Option::Some(Bv(*n)),
                            ("repeat", Bv(n)) if idx.len() == 1 && idx[0] > 0 => std::option::Option::Some(Bv(n * idx[0])),
                            ("@bit_of", Bv(n)) if idx.len() == 1 && idx[0] < *n => std::option::Option::Some(Bool),
                            ("@int_of", Bv(n)) if idx.len() == 1 && idx[0] < *n => std::option::Option::Some(Int),
                            ("int_to_bv" | "int2bv", Int) if idx.len() == 1 => std::option::Option::Some(Bv(idx[0])),
                            ("re.^" | "re.loop", Re) => std::option::Option::Some(Re),
                            _ => None,
                        };
                    }
                    if let Some(Fun(a, r)) = sort_of(&v[0], d, sc) {
                        if a.len() == args.len() {
                            return Some((*r).clone());
                        }
                    }
                    return None;
                }
            };
            match &*h {
                "_" => {
                    // (_ bvN w)
                    let n = v.get(1)?.atom()?;
                    if n.starts_with("bv") && is_num(&n[2..]) {
                        return Some(Bv(v.get(2)?.atom()?.parse().ok()?));
                    }
                    return None;
                }
                "forall" | "exists" | "choice" | "lambda" => {
                    let bs = bindings(&args[0])?;
                    let n = sc.len();
                    let mut first = None;
                    let mut ss = vec![];
                    for (x, s) in bs {
                        let s = sort_of_sx(&s)?;
                        if first.is_none() {
                            first = Some(s.clone());
                        }
                        ss.push(s.clone());
                        sc.push((x, s));
                    }
                    let b = sort_of(args.last()?, d, sc);
                    sc.truncate(n);
                    return match &*h {
                        "choice" => first,
                        "lambda" => Some(Fun(Rc::from(ss), Rc::new(b?))),
                        _ => b,
                    };
                }
                "let" => {
                    let bs = bindings(&args[0])?;
                    let n = sc.len();
                    let mut new = vec![];
                    for (x, e) in bs {
                        new.push((x, sort_of(&e, d, sc)?));
                    }
                    sc.extend(new);
                    let b = sort_of(args.last()?, d, sc);
                    sc.truncate(n);
                    return b;
                }
                "!" => return sort_of(&args[0], d, sc),
                _ => {}
            }
            // functions and variables first
            if let Some((_, s)) = sc.iter().rev().find(|(n, _)| *n == h) {
                return match s {
                    Fun(_, r) => Some((**r).clone()),
                    _ => None,
                };
            }
            if let Some((fa, r)) = d.get(&h) {
                if fa.is_empty() {
                    return match r {
                        Fun(_, r) => Some((**r).clone()),
                        _ => None,
                    };
                }
                return if fa.len() == args.len() { Some(r.clone()) } else { None };
            }
            let s: Vec<St> = args.iter().map(|x| sort_of(x, d, sc)).collect::<std::option::Option<_>>()?;
            let s0 = s.first().cloned();
            Some(match &*h {
                "not" | "and" | "or" | "xor" | "=>" | "=" | "distinct" | "<" | "<=" | ">" | ">=" | "is_int"
                | "bvult" | "bvule" | "bvugt" | "bvuge" | "bvslt" | "bvsle" | "bvsgt" | "bvsge" | "str.<"
                | "str.<=" | "str.prefixof" | "str.suffixof" | "str.contains" | "str.is_digit" | "str.in_re"
                | "ispow2" | "int.ispow2" => Bool,
                "ite" => s.get(1)?.clone(),
                "+" | "-" | "*" => {
                    if s.contains(&Real) {
                        Real
                    } else {
                        s0?
                    }
                }
                "div" | "mod" | "str.len" | "str.indexof" | "str.to_code" | "str.to_int" | "to_int" | "ubv_to_int"
                | "sbv_to_int" | "bv2nat" | "@bvsize" | "int.pow2" | "int.log2" => Int,
                "abs" => s0?,
                "/" | "to_real" => Real,
                "str.++" | "str.at" | "str.substr" | "str.replace" | "str.replace_all" | "str.replace_re"
                | "str.replace_re_all" | "str.from_code" | "str.from_int" => Str,
                "str.to_re" | "re.++" | "re.union" | "re.inter" | "re.*" | "re.comp" | "re.diff" | "re.+" | "re.opt"
                | "re.range" => Re,
                "bvnot" | "bvneg" | "bvand" | "bvor" | "bvadd" | "bvmul" | "bvudiv" | "bvurem" | "bvshl" | "bvlshr"
                | "bvnand" | "bvnor" | "bvxor" | "bvxnor" | "bvsub" | "bvsdiv" | "bvsrem" | "bvsmod" | "bvashr" => s0?,
                "bvcomp" => Bv(1),
                "concat" => {
                    let mut n = 0;
                    for x in &s {
                        match x {
                            Bv(k) => n += k,
                            _ => return None,
                        }
                    }
                    Bv(n)
                }
                "@bbterm" | "@pbbterm" => Bv(s.len()),
                "select" => match s0? {
                    Arr(_, b) => (*b).clone(),
                    _ => return None,
                },
                "store" => s0?,
                _ => return None,
            })
        }
    }
}
