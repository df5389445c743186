//! Constant evaluation (`evaluate`) and integer remainder simplification.
use super::Ctx;
use crate::engine::*;
use crate::eval::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

const WIDTHS: &[usize] = &[1, 1, 2, 3, 4, 5, 7, 8, 8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128];
const SIBS: &[&str] = &["evaluate", "mod_simplify"];

/// literal of a value
pub fn lit(v: &V, s: &St) -> Option<Sx> {
    Some(match (v, s) {
        (V::B(b), _) => {
            if *b {
                tt()
            } else {
                ff()
            }
        }
        (V::N(q), St::Int) if q.is_int() => a(&q.n.to_string()),
        (V::N(q), St::Real) => {
            if q.is_int() {
                a(&format!("{}.0", q.n))
            } else {
                a(&format!("{}/{}", q.n, q.d))
            }
        }
        (V::Bv(w, x), _) => {
            if *w % 4 == 0 && x % 3 == 0 {
                a(&format!("#x{:0k$x}", x, k = w / 4))
            } else if x % 3 == 1 {
                f(&format!("(_ bv{} {})", x, w), &[])
            } else {
                a(&format!("#b{:0w$b}", x, w = w))
            }
        }
        _ => return None,
    })
}
fn bvlit(r: &mut Rng, w: usize) -> Sx {
    let m = mask(w);
    let x = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => m,
        3 => 1u128 << (w - 1),
        4 => m >> 1,
        5 => (w as u128 + r.below(3) as u128).wrapping_sub(1),
        6 => r.below(9) as u128,
        _ => (r.next() as u128) << 64 | r.next() as u128,
    } & m;
    lit(&V::Bv(w, x), &St::Bv(w)).unwrap()
}
struct G<'a> {
    r: &'a mut Rng,
    /// chance that a leaf is a variable (of `vars`)
    vars: bool,
}
impl G<'_> {
    fn leaf(&mut self, s: &St) -> Sx {
        let r = &mut *self.r;
        if self.vars && r.chance(1, 5) {
            match s {
                St::Bool => return a("p"),
                St::Int => return a("x"),
                St::Real => return a("u"),
                St::Bv(w) if [1, 4, 8, 32].contains(w) => return a(&format!("bx{w}")),
                _ => {}
            }
        }
        match s {
            St::Bool => {
                if r.coin() {
                    tt()
                } else {
                    ff()
                }
            }
            St::Int => {
                let n = match r.below(6) {
                    0 => r.range(-3, 3),
                    1 => r.range(-70, 70),
                    2 => 1 << r.below(40),
                    3 => -(1 << r.below(40)),
                    4 => (1 << r.below(40)) + r.range(-1, 1),
                    _ => r.range(-12, 12),
                };
                if r.coin() {
                    a(&n.to_string())
                } else {
                    int(n as i128)
                }
            }
            St::Real => {
                let q = Q::new(r.range(-20, 20) as i128, *r.pick(&[1i128, 1, 2, 3, 4, 10])).unwrap();
                match r.below(3) {
                    0 if q.d == 2 => {
                        let t = a(&format!("{}.5", q.n.abs() / 2));
                        if q.n < 0 {
                            app("-", &[t])
                        } else {
                            t
                        }
                    }
                    _ => lit(&V::N(q), s).unwrap(),
                }
            }
            St::Bv(w) => bvlit(r, *w),
            _ => panic!(),
        }
    }
    fn t(&mut self, s: &St, d: usize) -> Sx {
        if d == 0 || self.r.chance(1, 8) {
            return self.leaf(s);
        }
        let d = d - 1;
        if self.r.chance(1, 14) {
            return app("ite", &[self.t(&St::Bool, d), self.t(s, d), self.t(s, d)]);
        }
        let w0 = *self.r.pick(WIDTHS);
        match s {
            St::Bool => match self.r.below(12) {
                0 => not(&self.t(s, d)),
                1 | 2 => {
                    let op = *self.r.pick(&["and", "or", "xor", "=>"]);
                    let n = 2 + self.r.below(3);
                    let v: Vec<Sx> = (0..n).map(|_| self.t(s, d)).collect();
                    app(op, &v)
                }
                3 | 4 => {
                    let t = match self.r.below(4) {
                        0 => St::Bool,
                        1 => St::Int,
                        2 => St::Real,
                        _ => St::Bv(w0),
                    };
                    let op = *self.r.pick(&["=", "=", "distinct"]);
                    let n = if t == St::Bool && op == "distinct" { 2 } else { 2 + self.r.below(2) };
                    let mut v: Vec<Sx> = (0..n).map(|_| self.t(&t, d)).collect();
                    if self.r.coin() {
                        v[1] = v[0].clone();
                    }
                    app(op, &v)
                }
                5 | 6 => {
                    let t = if self.r.coin() { St::Int } else { St::Real };
                    let op = *self.r.pick(&["<", "<=", ">", ">="]);
                    let n = 2 + self.r.below(2);
                    let mut v: Vec<Sx> = (0..n).map(|_| self.t(&t, d)).collect();
                    if self.r.chance(1, 3) {
                        v[1] = v[0].clone();
                    }
                    app(op, &v)
                }
                7 => app("is_int", &[self.t(&St::Real, d)]),
                8 => app("int.ispow2", &[self.t(&St::Int, d)]),
                9 => {
                    let i = self.r.below(w0);
                    let x = self.t(&St::Bv(w0), d);
                    l(vec![f(&format!("(_ @bit_of {i})"), &[]), x])
                }
                _ => {
                    let op = *self.r.pick(&["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"]);
                    let x = self.t(&St::Bv(w0), d);
                    let y = if self.r.chance(1, 5) { x.clone() } else { self.t(&St::Bv(w0), d) };
                    app(op, &[x, y])
                }
            },
            St::Int => match self.r.below(14) {
                0 => app("-", &[self.t(s, d)]),
                1..=3 => {
                    let op = *self.r.pick(&["+", "-", "*"]);
                    let n = 2 + self.r.below(3);
                    let v: Vec<Sx> = (0..n).map(|_| self.t(s, d)).collect();
                    app(op, &v)
                }
                4 => {
                    let n = 2 + self.r.chance(1, 5) as usize;
                    let v: Vec<Sx> = (0..n).map(|_| self.t(s, d)).collect();
                    app("div", &v)
                }
                5 => app("mod", &[self.t(s, d), self.t(s, d)]),
                6 => app("abs", &[self.t(s, d)]),
                7 => {
                    let e = self.r.range(-3, 50);
                    app("int.pow2", &[a(&e.to_string())])
                }
                8 => app("int.log2", &[self.t(s, d)]),
                9 => app("to_int", &[self.t(&St::Real, d)]),
                10 | 11 => app(*self.r.pick(&["ubv_to_int", "sbv_to_int"]), &[self.t(&St::Bv(w0), d)]),
                12 => app("@bvsize", &[self.t(&St::Bv(w0), d)]),
                _ => {
                    let i = self.r.below(w0);
                    let x = self.t(&St::Bv(w0), d);
                    l(vec![f(&format!("(_ @int_of {i})"), &[]), x])
                }
            },
            St::Real => match self.r.below(7) {
                0 => app("-", &[self.t(s, d)]),
                1..=3 => {
                    let op = *self.r.pick(&["+", "-", "*"]);
                    let n = 2 + self.r.below(3);
                    let v: Vec<Sx> = (0..n).map(|_| self.t(s, d)).collect();
                    app(op, &v)
                }
                4 => {
                    let n = 2 + self.r.chance(1, 5) as usize;
                    let v: Vec<Sx> = (0..n).map(|_| self.t(s, d)).collect();
                    app("/", &v)
                }
                5 => app("to_real", &[self.t(&St::Int, d)]),
                _ => {
                    // mixed arithmetic (Int/Real subtyping is part of the default configuration)
                    app("+", &[self.t(s, d), self.t(&St::Real, d)])
                }
            },
            St::Bv(w) => {
                let w = *w;
                match self.r.below(13) {
                    0 => app(*self.r.pick(&["bvnot", "bvneg"]), &[self.t(s, d)]),
                    1 | 2 => {
                        let op = *self.r.pick(&["bvand", "bvor", "bvxor", "bvadd", "bvmul"]);
                        let n = 2 + self.r.below(3);
                        let v: Vec<Sx> = (0..n).map(|_| self.t(s, d)).collect();
                        app(op, &v)
                    }
                    3..=6 => {
                        let op = *self.r.pick(&[
                            "bvsub", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr", "bvnand",
                            "bvnor", "bvxnor",
                        ]);
                        app(op, &[self.t(s, d), self.t(s, d)])
                    }
                    7 if w == 1 => app("bvcomp", &[self.t(&St::Bv(w0), d), self.t(&St::Bv(w0), d)]),
                    7 | 8 if w >= 2 => {
                        let k = 1 + self.r.below(w - 1);
                        if w >= 3 && self.r.chance(1, 4) {
                            let k2 = 1 + self.r.below(w - k);
                            if w - k - k2 > 0 {
                                return app(
                                    "concat",
                                    &[self.t(&St::Bv(k), d), self.t(&St::Bv(k2), d), self.t(&St::Bv(w - k - k2), d)],
                                );
                            }
                        }
                        app("concat", &[self.t(&St::Bv(k), d), self.t(&St::Bv(w - k), d)])
                    }
                    9 => {
                        // extract w bits of something wider
                        let extra = if self.r.chance(1, 4) { 0 } else { self.r.below(129 - w) };
                        let j = self.r.below(extra + 1);
                        let x = self.t(&St::Bv(w + extra), d);
                        l(vec![f(&format!("(_ extract {} {})", j + w - 1, j), &[]), x])
                    }
                    10 => {
                        let k = self.r.below(w);
                        let op = *self.r.pick(&["zero_extend", "sign_extend"]);
                        let x = self.t(&St::Bv(w - k), d);
                        l(vec![f(&format!("(_ {op} {k})"), &[]), x])
                    }
                    11 => {
                        let op = *self.r.pick(&["rotate_left", "rotate_right"]);
                        let k = *self.r.pick(&[0, 1, w - 1, w, w + 1, 2 * w + 1, 3]);
                        let x = self.t(s, d);
                        l(vec![f(&format!("(_ {op} {k})"), &[]), x])
                    }
                    _ => match self.r.below(4) {
                        0 => {
                            let ds: Vec<usize> = (1..=w).filter(|k| w % k == 0).collect();
                            let k = *self.r.pick(&ds);
                            let x = self.t(&St::Bv(w / k), d);
                            l(vec![f(&format!("(_ repeat {k})"), &[]), x])
                        }
                        1 => {
                            let x = self.t(&St::Int, d);
                            l(vec![f(&format!("(_ int_to_bv {w})"), &[]), x])
                        }
                        2 if w <= 17 => {
                            let v: Vec<Sx> = (0..w).map(|_| self.t(&St::Bool, d.min(1))).collect();
                            app("@bbterm", &v)
                        }
                        _ if w <= 17 => {
                            let v: Vec<Sx> = (0..w).map(|_| a(if self.r.coin() { "1" } else { "0" })).collect();
                            app("@pbbterm", &v)
                        }
                        _ => self.leaf(s),
                    },
                }
            }
            _ => panic!(),
        }
    }
}
fn sort(r: &mut Rng) -> St {
    match r.below(6) {
        0 => St::Bool,
        1 => St::Int,
        2 => St::Real,
        _ => St::Bv(*r.pick(WIDTHS)),
    }
}
/// a division by a zero anywhere (its value is not fixed by SMT-LIB)
fn partial(t: &Sx, d: &Decls) -> bool {
    if let Some((h, args)) = t.op() {
        if ["div", "mod", "/"].contains(&h) {
            let it = Interp::new(1);
            let mut ev = Ev::new(d, &it);
            for x in &args[1..] {
                match ev.eval(x) {
                    V::N(q) if q.n != 0 => {}
                    _ => return true,
                }
            }
        }
    }
    t.list().map_or(false, |v| v.iter().any(|x| partial(x, d)))
}
fn world12() -> World {
    let mut w = world();
    let mut d = (*w.d).clone();
    for n in [1usize, 4, 8, 32] {
        d.fun(&format!("bx{n}"), &[], St::Bv(n));
    }
    w.d = Rc::new(d);
    w
}
/// the recorded finding: `evaluate` computes (mod a b), a < 0, with the sign of a
fn negmod(t: &Sx, d: &Decls) -> bool {
    if t.is_op("mod") && t.args().len() == 2 {
        let it = Interp::new(1);
        let mut ev = Ev::new(d, &it);
        match (ev.eval(&t.args()[0]), ev.eval(&t.args()[1])) {
            (V::N(a), V::N(b)) if a.n >= 0 || b.n == 0 || a.n % b.n == 0 => {}
            _ => return true,
        }
    }
    t.list().map_or(false, |v| v.iter().any(|x| negmod(x, d)))
}
fn classify(c: &Case) -> Option<&'static str> {
    (c.rule == "evaluate" && c.concl.iter().any(|t| negmod(t, &c.decls))).then_some("neg-mod")
}
pub fn run(c: &mut Ctx) {
    let w = world12();
    if c.worker == 0 {
        let t = f("(= (mod (- 7) (- 3)) -1)", &[]);
        let case = Case::new(&w.d, "witness", "evaluate", vec![], vec![t], vec![]);
        if case.run().accepted() {
            c.rep.known.insert(
                "unsound:evaluate:negmod".into(),
                "evaluate accepts (= (mod (- 7) (- 3)) -1); in SMT-LIB the value is 2".into(),
            );
        }
    }
    let n = c.iters(9000);
    let k = Knobs { mutants: 3, tries: 6 };
    for i in 0..n {
        if i % 64 == 0 && c.late() {
            break;
        }
        let s = sort(&mut c.rng);
        let vars = c.rng.chance(1, 4);
        let depth = 1 + c.rng.below(3);
        let t = G { r: &mut c.rng, vars }.t(&s, depth);
        if negmod(&t, &w.d) {
            c.rep.count("known-class:neg-mod");
            continue;
        }
        if c.rng.chance(1, 12) {
            // mod_simplify
            let (x, y) = (c.rng.range(-40, 40) as i128, c.rng.range(-9, 9) as i128);
            if y == 0 {
                continue;
            }
            let g = |r: &mut Rng, n: i128| if r.coin() { int(n) } else { a(&n.to_string()) };
            let lhs = app("mod", &[g(&mut c.rng, x), g(&mut c.rng, y)]);
            let rhs = g(&mut c.rng, x.rem_euclid(y));
            let case = Case::new(&w.d, "mod", "mod_simplify", vec![], vec![eq(&lhs, &rhs)], vec![]);
            drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, classify, true);
            continue;
        }
        let it = Interp::new(c.rng.next());
        let v = Ev::new(&w.d, &it).eval(&t);
        let Some(val) = lit(&v, &s) else {
            c.rep.count("no-value");
            continue;
        };
        let must = !vars && !partial(&t, &w.d);
        let tag = t.op().map_or("leaf", |(h, _)| HEADS.iter().find(|x| **x == h).copied().unwrap_or("other"));
        let case = Case::new(&w.d, tag, "evaluate", vec![], vec![eq(&t, &val)], vec![]);
        drive(&case, &mut c.rng, &mut c.rep, &k, SIBS, classify, must);
        if must {
            // a wrong value
            let mut rr = c.rng.clone();
            let wrong = match &s {
                St::Bool => not(&val),
                _ => G { r: &mut c.rng, vars: false }.leaf(&s),
            };
            let mut c2 = case.clone();
            c2.concl = vec![eq(&t, &wrong)];
            judge(&c2, &mut rr, &mut c.rep, &k, classify);
        }
    }
}
const HEADS: &[&str] = &[
    "not", "and", "or", "xor", "=>", "=", "distinct", "<", "<=", ">", ">=", "is_int", "int.ispow2", "bvult", "bvule", "bvugt",
    "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "ite", "+", "-", "*", "div", "mod", "abs", "int.pow2", "int.log2", "to_int",
    "ubv_to_int", "sbv_to_int", "@bvsize", "/", "to_real", "bvnot", "bvneg", "bvand", "bvor", "bvxor", "bvadd", "bvmul", "bvsub",
    "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr", "bvnand", "bvnor", "bvxnor", "bvcomp", "concat",
    "@bbterm", "@pbbterm",
];
