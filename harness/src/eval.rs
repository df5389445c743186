//! Independent SMT-LIB evaluator (the oracle). Three-valued: `Unk` where the value is not decided.
use crate::rng::mix;
use crate::sorts::*;
use crate::sx::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a as i128
}
impl Q {
    pub fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Q> {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return None;
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Some(Q { n: s * (n / g), d: s * (d / g) })
    }
    pub fn add(self, o: Q) -> Option<Q> {
        Q::new(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?)
    }
    pub fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Q) -> Option<Q> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Q) -> Option<Q> {
        Q::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?)
    }
    pub fn cmp(self, o: Q) -> Option<std::cmp::Ordering> {
        Some(self.n.checked_mul(o.d)?.cmp(&o.n.checked_mul(self.d)?))
    }
    pub fn is_int(self) -> bool {
        self.d == 1
    }
    pub fn floor(self) -> i128 {
        self.n.div_euclid(self.d)
    }
}

#[derive(Clone, Debug)]
pub enum V {
    B(bool),
    N(Q),
    S(Rc<[u32]>),
    Bv(usize, u128),
    U(Rc<str>, u64),
    Re(Rc<Re>),
    F(Rc<Clo>),
    Unk,
}
#[derive(Debug)]
pub struct Clo {
    pub params: Vec<(Rc<str>, St)>,
    pub body: Sx,
    pub env: Vec<(Rc<str>, V)>,
    /// uninterpreted function constant of a higher-order sort / declared name
    pub name: Option<(Rc<str>, u64)>,
    pub ret: St,
}
#[derive(Debug)]
pub enum Re {
    None,
    All,
    AllChar,
    Lit(Rc<[u32]>),
    Cat(Vec<Rc<Re>>),
    Union(Vec<Rc<Re>>),
    Inter(Vec<Rc<Re>>),
    Star(Rc<Re>),
    Comp(Rc<Re>),
    Range(u32, u32),
}
pub fn re_match(r: &Re, s: &[u32]) -> bool {
    match r {
        Re::None => false,
        Re::All => true,
        Re::AllChar => s.len() == 1,
        Re::Lit(x) => &x[..] == s,
        Re::Range(a, b) => s.len() == 1 && *a <= s[0] && s[0] <= *b,
        Re::Union(v) => v.iter().any(|x| re_match(x, s)),
        Re::Inter(v) => v.iter().all(|x| re_match(x, s)),
        Re::Comp(x) => !re_match(x, s),
        Re::Cat(v) => {
            let mut pos: Vec<usize> = vec![0];
            for x in v {
                let mut np = vec![];
                for e in 0..=s.len() {
                    if pos.iter().any(|&p| p <= e && re_match(x, &s[p..e])) {
                        np.push(e)
                    }
                }
                pos = np;
            }
            pos.contains(&s.len())
        }
        Re::Star(x) => {
            let mut ok = vec![false; s.len() + 1];
            ok[0] = true;
            for e in 1..=s.len() {
                ok[e] = (0..e).any(|p| ok[p] && re_match(x, &s[p..e]));
            }
            ok[s.len()]
        }
    }
}

/// An interpretation: values of symbols and functions are derived from `seed` unless fixed.
#[derive(Clone, Default)]
pub struct Interp {
    pub seed: u64,
    pub fixed: HashMap<Rc<str>, V>,
    pub dom: u64,
    pub span: i64,
    /// denominators for reals
    pub den: i64,
    pub strs: Vec<Rc<[u32]>>,
    /// assume that every real-sorted symbol takes an integral value (never used for verdicts)
    pub steps: std::cell::Cell<u64>,
    /// integers range over {0, 1}
    pub bits: bool,
}
pub const BUDGET: u64 = 200_000;

fn h(seed: u64, xs: &[u64]) -> u64 {
    let mut r = mix(seed);
    for x in xs {
        r = mix(r ^ mix(*x));
    }
    r
}
fn hs(s: &str) -> u64 {
    let mut r: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        r = (r ^ b as u64).wrapping_mul(0x100000001b3);
    }
    r
}
pub fn hval(v: &V) -> Option<u64> {
    Some(match v {
        V::B(b) => *b as u64 + 10,
        V::N(q) => h(1, &[q.n as u64, (q.n >> 64) as u64, q.d as u64]),
        V::S(s) => h(2, &s.iter().map(|&c| c as u64).collect::<Vec<_>>()),
        V::Bv(w, x) => h(3, &[*w as u64, *x as u64, (*x >> 64) as u64]),
        V::U(_, k) => h(4, &[*k]),
        V::F(c) => match &c.name {
            Some((_, k)) => h(5, &[*k]),
            None => return None,
        },
        _ => return None,
    })
}
pub fn mask(w: usize) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn veq(a: &V, b: &V, it: &Interp) -> Option<bool> {
    match (a, b) {
        (V::B(x), V::B(y)) => Some(x == y),
        (V::N(x), V::N(y)) => Some(x == y),
        (V::S(x), V::S(y)) => Some(x == y),
        (V::Bv(w, x), V::Bv(v, y)) => Some(w == v && x == y),
        (V::U(s, x), V::U(t, y)) => Some(s == t && x == y),
        (V::F(x), V::F(y)) => {
            if let (Some(p), Some(q)) = (&x.name, &y.name) {
                if p.1 == q.1 {
                    return Some(true);
                }
            }
            // extensional comparison over finite domains
            if x.params.len() != y.params.len() {
                return None;
            }
            let doms: Vec<(Vec<V>, bool)> = x.params.iter().map(|(_, s)| it.domain(s)).collect();
            let mut exh = true;
            let mut total = 1usize;
            for (d, e) in &doms {
                exh &= e;
                total = total.saturating_mul(d.len());
            }
            if total > 256 {
                return None;
            }
            let mut unk = false;
            for mut k in 0..total {
                let args: Vec<V> = doms
                    .iter()
                    .map(|(d, _)| {
                        let v = d[k % d.len()].clone();
                        k /= d.len();
                        v
                    })
                    .collect();
                let (p, q) = (it.call(x, &args), it.call(y, &args));
                match veq(&p, &q, it) {
                    Some(false) => return Some(false),
                    None => unk = true,
                    _ => {}
                }
            }
            if unk || !exh {
                None
            } else {
                Some(true)
            }
        }
        _ => None,
    }
}
fn b3(v: &V) -> Option<bool> {
    match v {
        V::B(b) => Some(*b),
        _ => None,
    }
}
fn mb(o: Option<bool>) -> V {
    o.map_or(V::Unk, V::B)
}
fn num(v: &V) -> Option<Q> {
    match v {
        V::N(q) => Some(*q),
        _ => None,
    }
}
fn st(v: &V) -> Option<Rc<[u32]>> {
    match v {
        V::S(s) => Some(s.clone()),
        _ => None,
    }
}
fn int_of(v: &V) -> Option<i128> {
    num(v).filter(|q| q.is_int()).map(|q| q.n)
}
pub fn find_sub(s: &[u32], t: &[u32], from: usize) -> Option<usize> {
    if from > s.len() {
        return None;
    }
    (from..=s.len()).find(|&i| i + t.len() <= s.len() && &s[i..i + t.len()] == t)
}
pub fn parse_str(lit: &str) -> Vec<u32> {
    // SMT-LIB 2.6 string literal with "" and \u escapes
    let inner: Vec<char> = lit[1..lit.len() - 1].replace("\"\"", "\"").chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < inner.len() {
        if inner[i] == '\\' && i + 1 < inner.len() && inner[i + 1] == 'u' {
            // \u{h..} 1-5 digits or \uhhhh
            if i + 2 < inner.len() && inner[i + 2] == '{' {
                if let Some(e) = (i + 3..inner.len().min(i + 9)).find(|&j| inner[j] == '}') {
                    let hx: String = inner[i + 3..e].iter().collect();
                    if !hx.is_empty() && hx.len() <= 5 && hx.chars().all(|c| c.is_ascii_hexdigit()) {
                        let v = u32::from_str_radix(&hx, 16).unwrap();
                        if v <= 0x2FFFF {
                            out.push(v);
                            i = e + 1;
                            continue;
                        }
                    }
                }
            } else if i + 6 <= inner.len() {
                let hx: String = inner[i + 2..i + 6].iter().collect();
                if hx.chars().all(|c| c.is_ascii_hexdigit()) {
                    out.push(u32::from_str_radix(&hx, 16).unwrap());
                    i += 6;
                    continue;
                }
            }
        }
        out.push(inner[i] as u32);
        i += 1;
    }
    out
}

impl Interp {
    pub fn new(seed: u64) -> Self {
        let r = mix(seed ^ 77);
        Interp {
            seed,
            fixed: HashMap::new(),
            dom: 1 + (r % 3),
            span: [1, 2, 3, 5, 9, 40][(r >> 8) as usize % 6],
            den: [1, 1, 2, 3, 4][(r >> 16) as usize % 5],
            strs: vec![],
            steps: Default::default(),
            bits: false,
        }
    }
    pub fn value(&self, s: &St, r: u64) -> V {
        match s {
            St::Bool => V::B(r & 1 == 1),
            St::Int if self.bits => V::N(Q::int((r >> 5 & 1) as i128)),
            St::Int => {
                let m = 2 * self.span as u64 + 1;
                V::N(Q::int((r % m) as i128 - self.span as i128))
            }
            St::Real => {
                let m = 2 * self.span as u64 * self.den as u64 + 1;
                let n = (r % m) as i128 - (self.span * self.den) as i128;
                V::N(Q::new(n, self.den as i128).unwrap())
            }
            St::Bv(w) => {
                let x = ((mix(r) as u128) << 64) | mix(r ^ 5) as u128;
                let x = match r % 7 {
                    0 => 0,
                    1 => u128::MAX,
                    2 => 1u128 << ((r >> 8) as usize % *w.max(&1)).min(127),
                    3 => (r >> 8) as u128 % 4,
                    _ => x,
                };
                V::Bv(*w, x & mask(*w))
            }
            St::Str => {
                if !self.strs.is_empty() && r % 4 != 0 {
                    return V::S(self.strs[(r >> 4) as usize % self.strs.len()].clone());
                }
                let n = (r >> 3) % 5;
                let mut v = vec![];
                for i in 0..n {
                    v.push(97 + ((r >> (10 + 4 * i)) % 3) as u32);
                }
                V::S(Rc::from(v))
            }
            St::U(n) => V::U(n.clone(), r % self.dom),
            St::Arr(..) => V::U(Rc::from("$arr"), r % 4),
            St::Fun(a, ret) => V::F(Rc::new(Clo {
                params: a.iter().enumerate().map(|(i, s)| (Rc::from(format!("$p{i}").as_str()), s.clone())).collect(),
                body: a_("$"),
                env: vec![],
                name: Some((Rc::from("$hof"), r % 5)),
                ret: (**ret).clone(),
            })),
            St::Re => V::Re(crate::words::random_re(&mut crate::rng::Rng::new(r), &[97, 98], (r >> 20) as usize % 3)),
        }
    }
    /// (values, exhaustive)
    pub fn domain(&self, s: &St) -> (Vec<V>, bool) {
        match s {
            St::Bool => (vec![V::B(false), V::B(true)], true),
            St::U(n) => ((0..self.dom).map(|i| V::U(n.clone(), i)).collect(), true),
            St::Bv(w) if *w <= 4 => ((0..1u128 << w).map(|x| V::Bv(*w, x)).collect(), true),
            St::Int if self.bits => ([0, 1].iter().map(|&x| V::N(Q::int(x))).collect(), true),
            St::Int => ([0, 1, -1, 2, -2, 3, 7].iter().map(|&x| V::N(Q::int(x))).collect(), false),
            St::Real => (
                [(0, 1), (1, 1), (-1, 1), (1, 2), (-3, 2), (2, 1)]
                    .iter()
                    .map(|&(x, y)| V::N(Q::new(x, y).unwrap()))
                    .collect(),
                false,
            ),
            _ => ((0..3u64).map(|i| self.value(s, mix(i))).collect(), false),
        }
    }
    pub fn app_u(&self, name: &str, args: &[V], ret: &St) -> V {
        let mut hh = vec![hs(name)];
        for x in args {
            match hval(x) {
                Some(k) => hh.push(k),
                None => return V::Unk,
            }
        }
        self.value(ret, h(self.seed, &hh))
    }
    pub fn call(&self, c: &Clo, args: &[V]) -> V {
        if let Some((n, k)) = &c.name {
            let mut v = vec![V::N(Q::int(*k as i128))];
            v.extend(args.iter().cloned());
            return self.app_u(n, &v, &c.ret);
        }
        V::Unk
    }
}
fn a_(s: &str) -> Sx {
    a(s)
}

pub struct Ev<'a> {
    pub d: &'a Decls,
    pub it: &'a Interp,
    pub env: Vec<(Rc<str>, V)>,
    pub scope: Scope,
}
impl<'a> Ev<'a> {
    pub fn new(d: &'a Decls, it: &'a Interp) -> Self {
        it.steps.set(0);
        Ev { d, it, env: vec![], scope: vec![] }
    }
    pub fn truth(&mut self, t: &Sx) -> Option<bool> {
        b3(&self.eval(t))
    }
    /// truth of a clause (list of literals)
    pub fn clause(&mut self, c: &[Sx]) -> Option<bool> {
        let mut unk = false;
        for x in c {
            match self.truth(x) {
                Some(true) => return Some(true),
                None => unk = true,
                _ => {}
            }
        }
        if unk {
            None
        } else {
            Some(false)
        }
    }
    fn quant(&mut self, op: &str, bs: &[(Rc<str>, St)], body: &Sx) -> V {
        // returns truth of forall/exists
        let want = op == "exists";
        let doms: Vec<(Vec<V>, bool)> = bs.iter().map(|(_, s)| self.it.domain(s)).collect();
        let mut total = 1usize;
        let mut exh = true;
        for (dd, e) in &doms {
            total = total.saturating_mul(dd.len());
            exh &= e;
        }
        let lim = 1024;
        if total > lim {
            exh = false;
        }
        let n = self.env.len();
        let m = self.scope.len();
        let mut unk = false;
        for j in 0..total.min(lim) {
            let mut k = j;
            for (i, (x, s)) in bs.iter().enumerate() {
                let dd = &doms[i].0;
                self.env.push((x.clone(), dd[k % dd.len()].clone()));
                self.scope.push((x.clone(), s.clone()));
                k /= dd.len();
            }
            let r = b3(&self.eval(body));
            self.env.truncate(n);
            self.scope.truncate(m);
            match r {
                Some(b) if b == want => return V::B(want),
                None => unk = true,
                _ => {}
            }
        }
        if unk || !exh {
            V::Unk
        } else {
            V::B(!want)
        }
    }
    fn apply(&mut self, fv: &V, args: &[V]) -> V {
        match fv {
            V::F(c) if c.name.is_some() => self.it.call(c, args),
            V::F(c) => {
                if c.params.len() != args.len() {
                    return V::Unk;
                }
                let save = std::mem::replace(&mut self.env, c.env.clone());
                let ssave = std::mem::replace(&mut self.scope, vec![]);
                for ((n, s), v) in c.params.iter().zip(args) {
                    self.env.push((n.clone(), v.clone()));
                    self.scope.push((n.clone(), s.clone()));
                }
                let r = self.eval(&c.body.clone());
                self.env = save;
                self.scope = ssave;
                r
            }
            _ => V::Unk,
        }
    }
    fn feq(&mut self, x: &V, y: &V) -> Option<bool> {
        if let (V::F(p), V::F(q)) = (x, y) {
            if p.name.is_none() || q.name.is_none() {
                if p.params.len() != q.params.len() {
                    return None;
                }
                let doms: Vec<(Vec<V>, bool)> = p.params.iter().map(|(_, s)| self.it.domain(s)).collect();
                let total: usize = doms.iter().map(|x| x.0.len()).product();
                let exh = doms.iter().all(|x| x.1);
                if total > 128 {
                    return None;
                }
                let mut unk = false;
                for mut k in 0..total {
                    let args: Vec<V> = doms
                        .iter()
                        .map(|(d, _)| {
                            let v = d[k % d.len()].clone();
                            k /= d.len();
                            v
                        })
                        .collect();
                    let (r, s) = (self.apply(x, &args), self.apply(y, &args));
                    match self.feq(&r, &s) {
                        Some(false) => return Some(false),
                        None => unk = true,
                        _ => {}
                    }
                }
                return if unk || !exh { None } else { Some(true) };
            }
        }
        veq(x, y, self.it)
    }
    pub fn eval(&mut self, t: &Sx) -> V {
        let n = self.it.steps.get() + 1;
        self.it.steps.set(n);
        if n > BUDGET {
            return V::Unk;
        }
        self.eval_(t).unwrap_or(V::Unk)
    }
    fn eval_(&mut self, t: &Sx) -> Option<V> {
        match t {
            Sx::A(x) => {
                if let Some((_, v)) = self.env.iter().rev().find(|(n, _)| n == x) {
                    return Some(v.clone());
                }
                if let Some(v) = self.it.fixed.get(x) {
                    return Some(v.clone());
                }
                if let Some((args, r)) = self.d.get(x) {
                    if args.is_empty() {
                        return Some(self.it.app_u(x, &[], r));
                    }
                    return Some(V::F(Rc::new(Clo {
                        params: args
                            .iter()
                            .enumerate()
                            .map(|(i, s)| (Rc::from(format!("$p{i}").as_str()), s.clone()))
                            .collect(),
                        body: l(std::iter::once(Sx::A(x.clone()))
                            .chain((0..args.len()).map(|i| a(&format!("$p{i}"))))
                            .collect()),
                        env: vec![],
                        name: None,
                        ret: r.clone(),
                    })));
                }
                let s = &**x;
                match s {
                    "true" => return Some(V::B(true)),
                    "false" => return Some(V::B(false)),
                    "re.none" => return Some(V::Re(Rc::new(Re::None))),
                    "re.all" => return Some(V::Re(Rc::new(Re::All))),
                    "re.allchar" => return Some(V::Re(Rc::new(Re::AllChar))),
                    _ => {}
                }
                if is_num(s) {
                    return Some(V::N(Q::int(s.parse().ok()?)));
                }
                if is_dec(s) {
                    let (i, fr) = s.split_once('.').unwrap();
                    let d = 10i128.checked_pow(fr.len() as u32)?;
                    let i: i128 = i.parse().ok()?;
                    let fr: i128 = fr.parse().ok()?;
                    return Some(V::N(Q::new(i.checked_mul(d)?.checked_add(fr)?, d)?));
                }
                if s.starts_with('-') || s.contains('/') {
                    if let Some((n, d, _)) = gmp(s) {
                        return Some(V::N(Q::new(n, d)?));
                    }
                }
                if let Some(b) = s.strip_prefix("#b") {
                    return Some(V::Bv(b.len(), u128::from_str_radix(b, 2).ok()?));
                }
                if let Some(b) = s.strip_prefix("#x") {
                    return Some(V::Bv(4 * b.len(), u128::from_str_radix(b, 16).ok()?));
                }
                if s.starts_with('"') {
                    return Some(V::S(Rc::from(parse_str(s))));
                }
                None
            }
            Sx::L(v) => {
                if v.is_empty() {
                    return None;
                }
                let args = &v[1..];
                let hd = match &v[0] {
                    Sx::L(hv) => {
                        if hv.first().and_then(|x| x.atom()) == Some("_") && hv.len() >= 2 {
                            let name = hv[1].atom()?.to_string();
                            let idx: Vec<usize> = hv[2..]
                                .iter()
                                .map(|x| x.atom().and_then(|s| s.parse().ok()))
                                .collect::<Option<_>>()?;
                            let vs: Vec<V> = args.iter().map(|x| self.eval(x)).collect();
                            return self.indexed(&name, &idx, &vs);
                        }
                        let fv = self.eval(&v[0]);
                        let vs: Vec<V> = args.iter().map(|x| self.eval(x)).collect();
                        return Some(self.apply(&fv, &vs));
                    }
                    Sx::A(h) => h.clone(),
                };
                match &*hd {
                    "_" => {
                        let n = v.get(1)?.atom()?;
                        let w: usize = v.get(2)?.atom()?.parse().ok()?;
                        let x: u128 = n.strip_prefix("bv")?.parse().ok()?;
                        if w > 128 {
                            return None;
                        }
                        return Some(V::Bv(w, x & mask(w)));
                    }
                    "forall" | "exists" | "choice" | "lambda" => {
                        let bs: Vec<(Rc<str>, St)> = bindings(&args[0])?
                            .into_iter()
                            .map(|(n, s)| sort_of_sx(&s).map(|s| (n, s)))
                            .collect::<Option<_>>()?;
                        let body = args.last()?;
                        match &*hd {
                            "lambda" => {
                                let mut sc = self.scope.clone();
                                sc.extend(bs.iter().cloned());
                                let ret = sort_of(body, self.d, &mut sc)?;
                                return Some(V::F(Rc::new(Clo {
                                    params: bs,
                                    body: body.clone(),
                                    env: self.env.clone(),
                                    name: None,
                                    ret,
                                })));
                            }
                            "choice" => {
                                let (dd, exh) = self.it.domain(&bs[0].1);
                                if !exh || bs.len() != 1 {
                                    return None;
                                }
                                let mut sat = 0u64;
                                for (i, x) in dd.iter().enumerate() {
                                    self.env.push((bs[0].0.clone(), x.clone()));
                                    self.scope.push(bs[0].clone());
                                    let r = b3(&self.eval(body));
                                    self.env.pop();
                                    self.scope.pop();
                                    match r {
                                        Some(true) if !self.it.bits => return Some(x.clone()),
                                        Some(true) => sat |= 1 << i,
                                        None => return None,
                                        _ => {}
                                    }
                                }
                                if self.it.bits && bs[0].1 == St::Int {
                                    let b = match sat {
                                        1 => 0,
                                        2 => 1,
                                        _ => mix(self.it.seed ^ sat) >> 7 & 1,
                                    };
                                    return Some(dd[b as usize].clone());
                                }
                                let k = sat.trailing_zeros() as usize;
                                return Some(dd[if k < dd.len() { k } else { 0 }].clone());
                            }
                            _ => return Some(self.quant(&hd, &bs, body)),
                        }
                    }
                    "let" => {
                        let bs = bindings(&args[0])?;
                        let vals: Vec<(Rc<str>, V)> = bs.into_iter().map(|(n, e)| (n, self.eval(&e))).collect();
                        let n = self.env.len();
                        let m = self.scope.len();
                        let ss: Vec<_> = bindings(&args[0])?
                            .into_iter()
                            .map(|(n, e)| sort_of(&e, self.d, &mut self.scope.clone()).map(|s| (n, s)))
                            .collect::<Option<_>>()?;
                        self.scope.extend(ss);
                        self.env.extend(vals);
                        let r = self.eval(args.last()?);
                        self.env.truncate(n);
                        self.scope.truncate(m);
                        return Some(r);
                    }
                    "!" => return Some(self.eval(&args[0])),
                    _ => {}
                }
                if let Some((_, fv)) = self.env.iter().rev().find(|(n, _)| *n == hd) {
                    let fv = fv.clone();
                    let vs: Vec<V> = args.iter().map(|x| self.eval(x)).collect();
                    return Some(self.apply(&fv, &vs));
                }
                if let Some((fa, r)) = self.d.get(&hd) {
                    let vs: Vec<V> = args.iter().map(|x| self.eval(x)).collect();
                    if fa.is_empty() {
                        let fv = self.eval(&v[0]);
                        return Some(self.apply(&fv, &vs));
                    }
                    return Some(self.it.app_u(&hd, &vs, r));
                }
                // short-circuit connectives in Kleene logic
                match &*hd {
                    "and" | "or" => {
                        let z = &*hd == "or";
                        let mut unk = false;
                        for x in args {
                            match b3(&self.eval(x)) {
                                Some(b) if b == z => return Some(V::B(z)),
                                None => unk = true,
                                _ => {}
                            }
                        }
                        return Some(if unk { V::Unk } else { V::B(!z) });
                    }
                    "=>" => {
                        let mut unk = false;
                        for (i, x) in args.iter().enumerate() {
                            let last = i + 1 == args.len();
                            match b3(&self.eval(x)) {
                                Some(b) if b == last => return Some(V::B(true)),
                                None => unk = true,
                                _ => {}
                            }
                        }
                        return Some(if unk { V::Unk } else { V::B(false) });
                    }
                    "ite" => {
                        let c = b3(&self.eval(args.first()?));
                        return Some(match c {
                            Some(true) => self.eval(args.get(1)?),
                            Some(false) => self.eval(args.get(2)?),
                            None => {
                                let (x, y) = (self.eval(args.get(1)?), self.eval(args.get(2)?));
                                if veq(&x, &y, self.it) == Some(true) {
                                    x
                                } else {
                                    V::Unk
                                }
                            }
                        });
                    }
                    _ => {}
                }
                // identical terms are equal even if their value is unknown
                if &*hd == "=" && args.windows(2).all(|w| w[0] == w[1]) {
                    return Some(V::B(true));
                }
                let vs: Vec<V> = args.iter().map(|x| self.eval(x)).collect();
                self.prim(&hd, &vs)
            }
        }
    }
    fn prim(&mut self, op: &str, vs: &[V]) -> Option<V> {
        let cmpn = |f: &dyn Fn(std::cmp::Ordering) -> bool| -> Option<V> {
            let mut unk = false;
            for w in vs.windows(2) {
                match (num(&w[0]), num(&w[1])) {
                    (Some(x), Some(y)) => match x.cmp(y) {
                        Some(o) => {
                            if !f(o) {
                                return Some(V::B(false));
                            }
                        }
                        None => unk = true,
                    },
                    _ => unk = true,
                }
            }
            Some(if unk { V::Unk } else { V::B(true) })
        };
        use std::cmp::Ordering::*;
        Some(match op {
            "not" => mb(b3(&vs[0]).map(|b| !b)),
            "xor" => {
                let mut r = false;
                for x in vs {
                    r ^= b3(x)?;
                }
                V::B(r)
            }
            "=" => {
                let mut unk = false;
                for i in 0..vs.len() - 1 {
                    let (x, y) = (vs[i].clone(), vs[i + 1].clone());
                    match self.feq(&x, &y) {
                        Some(false) => return Some(V::B(false)),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk {
                    V::Unk
                } else {
                    V::B(true)
                }
            }
            "distinct" => {
                let mut unk = false;
                for i in 0..vs.len() {
                    for j in i + 1..vs.len() {
                        let (x, y) = (vs[i].clone(), vs[j].clone());
                        match self.feq(&x, &y) {
                            Some(true) => return Some(V::B(false)),
                            None => unk = true,
                            _ => {}
                        }
                    }
                }
                if unk {
                    V::Unk
                } else {
                    V::B(true)
                }
            }
            "+" => {
                let mut r = Q::int(0);
                for x in vs {
                    r = r.add(num(x)?)?;
                }
                V::N(r)
            }
            "*" => {
                if vs.iter().any(|x| matches!(num(x), Some(q) if q.n == 0)) {
                    return Some(V::N(Q::int(0)));
                }
                let mut r = Q::int(1);
                for x in vs {
                    r = r.mul(num(x)?)?;
                }
                V::N(r)
            }
            "-" => {
                let f0 = num(vs.first()?)?;
                if vs.len() == 1 {
                    V::N(f0.neg())
                } else {
                    let mut r = f0;
                    for x in &vs[1..] {
                        r = r.sub(num(x)?)?;
                    }
                    V::N(r)
                }
            }
            "/" => {
                let mut r = num(vs.first()?)?;
                for x in &vs[1..] {
                    let y = num(x)?;
                    if y.n == 0 {
                        r = num(&self.it.app_u("$rdiv0", &[V::N(r)], &St::Real))?;
                    } else {
                        r = r.mul(Q::new(y.d, y.n)?)?;
                    }
                }
                V::N(r)
            }
            "div" => {
                let mut r = int_of(vs.first()?)?;
                for x in &vs[1..] {
                    let y = int_of(x)?;
                    if y == 0 {
                        r = int_of(&self.it.app_u("$idiv0", &[V::N(Q::int(r))], &St::Int))?;
                    } else {
                        r = r.checked_div_euclid(y)?;
                    }
                }
                V::N(Q::int(r))
            }
            "mod" => {
                let (x, y) = (int_of(vs.first()?)?, int_of(vs.get(1)?)?);
                if y == 0 {
                    self.it.app_u("$imod0", &[V::N(Q::int(x))], &St::Int)
                } else {
                    V::N(Q::int(x.checked_rem_euclid(y)?))
                }
            }
            "abs" => {
                let x = num(vs.first()?)?;
                V::N(if x.n < 0 { x.neg() } else { x })
            }
            "<" => return cmpn(&|o| o == Less),
            "<=" => return cmpn(&|o| o != Greater),
            ">" => return cmpn(&|o| o == Greater),
            ">=" => return cmpn(&|o| o != Less),
            "to_real" => V::N(num(&vs[0])?),
            "to_int" => V::N(Q::int(num(&vs[0])?.floor())),
            "is_int" => V::B(num(&vs[0])?.is_int()),
            "int.pow2" => {
                let x = int_of(&vs[0])?;
                if x < 0 {
                    V::N(Q::int(0))
                } else if x < 120 {
                    V::N(Q::int(1i128 << x))
                } else {
                    return None;
                }
            }
            "int.ispow2" => {
                let x = int_of(&vs[0])?;
                V::B(x > 0 && x & (x - 1) == 0)
            }
            "int.log2" => {
                let x = int_of(&vs[0])?;
                if x <= 0 {
                    V::N(Q::int(0))
                } else {
                    V::N(Q::int(127 - x.leading_zeros() as i128))
                }
            }
            "select" => return Some(V::Unk),
            "store" => return Some(V::Unk),
            "@bbterm" => {
                let mut x = 0u128;
                if vs.len() > 128 {
                    return None;
                }
                for (i, b) in vs.iter().enumerate() {
                    if b3(b)? {
                        x |= 1 << i;
                    }
                }
                V::Bv(vs.len(), x)
            }
            "@pbbterm" => {
                let mut x = 0u128;
                if vs.len() > 128 {
                    return None;
                }
                for (i, b) in vs.iter().enumerate() {
                    match int_of(b)? {
                        1 => x |= 1 << i,
                        0 => {}
                        _ => return None,
                    }
                }
                V::Bv(vs.len(), x)
            }
            "@bvsize" => match &vs[0] {
                V::Bv(w, _) => V::N(Q::int(*w as i128)),
                _ => return None,
            },
            _ if op.starts_with("bv") || op == "concat" || op == "ubv_to_int" || op == "sbv_to_int" => {
                return self.bv(op, vs)
            }
            _ if op.starts_with("str.") || op.starts_with("re.") => return self.string(op, vs),
            _ => return None,
        })
    }
    fn bv(&mut self, op: &str, vs: &[V]) -> Option<V> {
        let mut xs: Vec<(usize, u128)> = vec![];
        for v in vs {
            match v {
                V::Bv(w, x) if *w <= 128 => xs.push((*w, *x)),
                _ => return None,
            }
        }
        let w = xs.first()?.0;
        let m = mask(w);
        let sg = |x: u128| -> i128 {
            if w == 128 {
                x as i128
            } else if w > 0 && x >> (w - 1) & 1 == 1 {
                (x as i128).wrapping_sub(1i128.wrapping_shl(w as u32))
            } else {
                x as i128
            }
        };
        let fold = |f: &dyn Fn(u128, u128) -> u128| V::Bv(w, xs[1..].iter().fold(xs[0].1, |r, y| f(r, y.1) & m));
        let udiv = |x: u128, y: u128| if y == 0 { m } else { x / y };
        let urem = |x: u128, y: u128| if y == 0 { x } else { x % y };
        let neg = |x: u128| x.wrapping_neg() & m;
        let msb = |x: u128| x >> (w - 1) & 1 == 1;
        let y = xs.get(1).map(|p| p.1).unwrap_or(0);
        let x = xs[0].1;
        Some(match op {
            "bvnot" => V::Bv(w, !x & m),
            "bvneg" => V::Bv(w, neg(x)),
            "bvand" => fold(&|a, b| a & b),
            "bvor" => fold(&|a, b| a | b),
            "bvxor" => fold(&|a, b| a ^ b),
            "bvadd" => fold(&|a, b| a.wrapping_add(b)),
            "bvmul" => fold(&|a, b| a.wrapping_mul(b)),
            "bvsub" => V::Bv(w, x.wrapping_sub(y) & m),
            "bvnand" => V::Bv(w, !(x & y) & m),
            "bvnor" => V::Bv(w, !(x | y) & m),
            "bvxnor" => V::Bv(w, !(x ^ y) & m),
            "bvcomp" => V::Bv(1, (x == y) as u128),
            "bvudiv" => V::Bv(w, udiv(x, y)),
            "bvurem" => V::Bv(w, urem(x, y)),
            "bvshl" => V::Bv(w, if y >= w as u128 { 0 } else { (x << y) & m }),
            "bvlshr" => V::Bv(w, if y >= w as u128 { 0 } else { x >> y }),
            "bvashr" => {
                let s = y.min(w as u128);
                let base = if s >= 128 { 0 } else { x >> s };
                let fill = if msb(x) { m & !(if s >= w as u128 { 0 } else { m >> s }) } else { 0 };
                V::Bv(w, if s >= w as u128 { fill } else { base | fill })
            }
            "bvsdiv" => V::Bv(
                w,
                match (msb(x), msb(y)) {
                    (false, false) => udiv(x, y),
                    (true, false) => neg(udiv(neg(x), y)),
                    (false, true) => neg(udiv(x, neg(y))),
                    (true, true) => udiv(neg(x), neg(y)),
                },
            ),
            "bvsrem" => V::Bv(
                w,
                match (msb(x), msb(y)) {
                    (false, false) => urem(x, y),
                    (true, false) => neg(urem(neg(x), y)),
                    (false, true) => urem(x, neg(y)),
                    (true, true) => neg(urem(neg(x), neg(y))),
                },
            ),
            "bvsmod" => {
                let (ax, ay) = (if msb(x) { neg(x) } else { x }, if msb(y) { neg(y) } else { y });
                let u = urem(ax, ay);
                V::Bv(
                    w,
                    if u == 0 {
                        u
                    } else {
                        match (msb(x), msb(y)) {
                            (false, false) => u,
                            (true, false) => neg(u).wrapping_add(y) & m,
                            (false, true) => u.wrapping_add(y) & m,
                            (true, true) => neg(u),
                        }
                    },
                )
            }
            "bvult" => V::B(x < y),
            "bvule" => V::B(x <= y),
            "bvugt" => V::B(x > y),
            "bvuge" => V::B(x >= y),
            "bvslt" => V::B(sg(x) < sg(y)),
            "bvsle" => V::B(sg(x) <= sg(y)),
            "bvsgt" => V::B(sg(x) > sg(y)),
            "bvsge" => V::B(sg(x) >= sg(y)),
            "ubv_to_int" | "bv2nat" => {
                if w >= 127 {
                    return None;
                }
                V::N(Q::int(x as i128))
            }
            "sbv_to_int" if w >= 127 => return None,
            "sbv_to_int" => V::N(Q::int(sg(x))),
            "concat" => {
                let mut tw = 0;
                let mut r = 0u128;
                for (w, x) in &xs {
                    tw += w;
                    if tw > 128 {
                        return None;
                    }
                    r = if *w >= 128 { *x } else { (r << w) | x };
                }
                V::Bv(tw, r)
            }
            _ => return None,
        })
    }
    fn indexed(&mut self, op: &str, idx: &[usize], vs: &[V]) -> Option<V> {
        if idx.is_empty() || (matches!(op, "extract" | "re.loop") && idx.len() < 2) {
            return None;
        }
        match (op, vs.first()?) {
            ("int_to_bv" | "int2bv", V::N(q)) => {
                let w = idx[0];
                if w > 126 {
                    return None;
                }
                Some(V::Bv(w, q.n.rem_euclid(1i128 << w) as u128))
            }
            ("re.^", V::Re(r)) => Some(V::Re(Rc::new(Re::Cat(vec![r.clone(); idx[0]])))),
            ("re.loop", V::Re(r)) => {
                let mut u = vec![];
                if idx[1] > 12 {
                    return None;
                }
                for k in idx[0]..=idx[1] {
                    u.push(Rc::new(Re::Cat(vec![r.clone(); k])));
                }
                Some(V::Re(Rc::new(Re::Union(u))))
            }
            (_, V::Bv(w, x)) => {
                let (w, x) = (*w, *x);
                if w > 128 || w == 0 {
                    return None;
                }
                Some(match op {
                    "extract" => {
                        let (i, j) = (idx[0], idx[1]);
                        if !(w > i && i >= j) {
                            return None;
                        }
                        V::Bv(i - j + 1, (x >> j) & mask(i - j + 1))
                    }
                    "zero_extend" => {
                        if w + idx[0] > 128 {
                            return None;
                        }
                        V::Bv(w + idx[0], x)
                    }
                    "sign_extend" => {
                        let n = w + idx[0];
                        if n > 128 {
                            return None;
                        }
                        V::Bv(n, if x >> (w - 1) & 1 == 1 { (x | !mask(w)) & mask(n) } else { x })
                    }
                    "rotate_left" | "rotate_right" => {
                        let k = idx[0] % w;
                        let k = if op == "rotate_left" { k } else { (w - k) % w };
                        V::Bv(w, if k == 0 { x } else { ((x << k) | (x >> (w - k))) & mask(w) })
                    }
                    "repeat" => {
                        if w * idx[0] > 128 || idx[0] == 0 {
                            return None;
                        }
                        let mut r = 0;
                        for _ in 0..idx[0] {
                            r = if w == 128 { x } else { (r << w) | x };
                        }
                        V::Bv(w * idx[0], r)
                    }
                    "@bit_of" if idx[0] < w => V::B(x >> idx[0] & 1 == 1),
                    "@int_of" if idx[0] < w => V::N(Q::int((x >> idx[0] & 1) as i128)),
                    _ => return None,
                })
            }
            _ => None,
        }
    }
    fn string(&mut self, op: &str, vs: &[V]) -> Option<V> {
        let s = |i: usize| vs.get(i).and_then(st);
        let n = |i: usize| vs.get(i).and_then(int_of);
        let re = |i: usize| match vs.get(i) {
            Some(V::Re(r)) => Some(r.clone()),
            _ => None,
        };
        let mk = |v: Vec<u32>| Some(V::S(Rc::from(v)));
        let mkre = |r: Re| Some(V::Re(Rc::new(r)));
        let res = || -> Option<Vec<Rc<Re>>> {
            vs.iter()
                .map(|v| match v {
                    V::Re(r) => Some(r.clone()),
                    _ => None,
                })
                .collect()
        };
        match op {
            "str.++" => {
                let mut r = vec![];
                for i in 0..vs.len() {
                    r.extend_from_slice(&s(i)?);
                }
                mk(r)
            }
            "str.len" => Some(V::N(Q::int(s(0)?.len() as i128))),
            "str.at" => {
                let (x, i) = (s(0)?, n(1)?);
                mk(if i >= 0 && (i as usize) < x.len() { vec![x[i as usize]] } else { vec![] })
            }
            "str.substr" => {
                let (x, i, k) = (s(0)?, n(1)?, n(2)?);
                mk(if i < 0 || i >= x.len() as i128 || k <= 0 {
                    vec![]
                } else {
                    let e = (i + k).min(x.len() as i128) as usize;
                    x[i as usize..e].to_vec()
                })
            }
            "str.prefixof" => Some(V::B(s(1)?.starts_with(&s(0)?))),
            "str.suffixof" => Some(V::B(s(1)?.ends_with(&s(0)?))),
            "str.contains" => Some(V::B(find_sub(&s(0)?, &s(1)?, 0).is_some())),
            "str.indexof" => {
                let (x, y, i) = (s(0)?, s(1)?, n(2)?);
                if i < 0 || i > x.len() as i128 {
                    return Some(V::N(Q::int(-1)));
                }
                Some(V::N(Q::int(find_sub(&x, &y, i as usize).map_or(-1, |k| k as i128))))
            }
            "str.replace" => {
                let (x, y, z) = (s(0)?, s(1)?, s(2)?);
                match find_sub(&x, &y, 0) {
                    None => mk(x.to_vec()),
                    Some(i) => {
                        let mut r = x[..i].to_vec();
                        r.extend_from_slice(&z);
                        r.extend_from_slice(&x[i + y.len()..]);
                        mk(r)
                    }
                }
            }
            "str.replace_all" => {
                let (x, y, z) = (s(0)?, s(1)?, s(2)?);
                if y.is_empty() {
                    return mk(x.to_vec());
                }
                let mut r = vec![];
                let mut p = 0;
                while let Some(i) = find_sub(&x, &y, p) {
                    r.extend_from_slice(&x[p..i]);
                    r.extend_from_slice(&z);
                    p = i + y.len();
                }
                r.extend_from_slice(&x[p..]);
                mk(r)
            }
            "str.<" => Some(V::B(s(0)?[..] < s(1)?[..])),
            "str.<=" => Some(V::B(s(0)?[..] <= s(1)?[..])),
            "str.is_digit" => {
                let x = s(0)?;
                Some(V::B(x.len() == 1 && (48..58).contains(&x[0])))
            }
            "str.to_code" => {
                let x = s(0)?;
                Some(V::N(Q::int(if x.len() == 1 { x[0] as i128 } else { -1 })))
            }
            "str.from_code" => {
                let x = n(0)?;
                mk(if (0..=0x2FFFF).contains(&x) { vec![x as u32] } else { vec![] })
            }
            "str.to_int" => {
                let x = s(0)?;
                if x.is_empty() || !x.iter().all(|c| (48..58).contains(c)) {
                    return Some(V::N(Q::int(-1)));
                }
                let mut r = 0i128;
                for c in x.iter() {
                    r = r.checked_mul(10)?.checked_add((c - 48) as i128)?;
                }
                Some(V::N(Q::int(r)))
            }
            "str.from_int" => {
                let x = n(0)?;
                mk(if x < 0 { vec![] } else { x.to_string().chars().map(|c| c as u32).collect() })
            }
            "str.in_re" => {
                let x = s(0)?;
                if x.len() > 24 {
                    return None;
                }
                Some(V::B(re_match(&*re(1)?, &x)))
            }
            "str.to_re" => mkre(Re::Lit(s(0)?)),
            "re.++" => mkre(Re::Cat(res()?)),
            "re.union" => mkre(Re::Union(res()?)),
            "re.inter" => mkre(Re::Inter(res()?)),
            "re.*" => mkre(Re::Star(re(0)?)),
            "re.+" => mkre(Re::Cat(vec![re(0)?, Rc::new(Re::Star(re(0)?))])),
            "re.opt" => mkre(Re::Union(vec![re(0)?, Rc::new(Re::Lit(Rc::from(vec![])))])),
            "re.comp" => mkre(Re::Comp(re(0)?)),
            "re.diff" => {
                let v = res()?;
                let mut r = v.first()?.clone();
                for x in &v[1..] {
                    r = Rc::new(Re::Inter(vec![r, Rc::new(Re::Comp(x.clone()))]));
                }
                Some(V::Re(r))
            }
            "re.range" => {
                let (x, y) = (s(0)?, s(1)?);
                if x.len() == 1 && y.len() == 1 {
                    mkre(Re::Range(x[0], y[0]))
                } else {
                    mkre(Re::None)
                }
            }
            _ => None,
        }
    }
}
