//! String and regular-expression rules.
use super::Ctx;
use crate::engine::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

fn w() -> Rc<Decls> {
    let mut d = Decls::new();
    for n in ["x", "y", "z", "v", "|s t|"] {
        d.fun(n, &[], St::Str);
    }
    for n in ["n", "L"] {
        d.fun(n, &[], St::Int);
    }
    for n in ["ra", "rb"] {
        d.fun(n, &[], St::Re);
    }
    d.fun("g", &[St::Str], St::Str);
    Rc::new(d)
}
#[derive(Clone, PartialEq)]
enum Co {
    C(char),
    T(Sx),
}
const CH: &[char] = &['a', 'b', 'c', 'a', 'b', 'é', '"', '\u{1F600}', ' '];
fn ch(r: &mut Rng) -> char {
    let n = if r.chance(1, 4) { CH.len() } else { 3 };
    CH[r.below(n)]
}
fn strlit(r: &mut Rng, s: &[char]) -> Sx {
    let mut o = String::from("\"");
    for c in s {
        match (c, r.below(12)) {
            (_, 0) => o.push_str(&format!("\\u{{{:x}}}", *c as u32)),
            (c, 1) if (*c as u32) < 0x10000 => o.push_str(&format!("\\u{:04x}", *c as u32)),
            ('"', _) => o.push_str("\"\""),
            (c, _) => o.push(*c),
        }
    }
    o.push('"');
    a(&o)
}
fn opaque(r: &mut Rng) -> Sx {
    let v = a(*r.pick(&["x", "y", "z", "v", "|s t|"]));
    match r.below(9) {
        0 => f("(g ?0)", &[&v]),
        1 => f("(str.at ?0 n)", &[&v]),
        2 => {
            let w = word(r, 2);
            f("(g ?0)", &[&strlit(r, &w)])
        }
        3 => f("(str.substr ?0 0 n)", &[&v]),
        _ => v,
    }
}
fn word(r: &mut Rng, max: usize) -> Vec<char> {
    (0..r.below(max + 1)).map(|_| ch(r)).collect()
}
fn chars(v: &[char]) -> Vec<Co> {
    v.iter().map(|c| Co::C(*c)).collect()
}
fn comps(r: &mut Rng, min: usize, max: usize) -> Vec<Co> {
    let n = min + r.below(max - min + 1);
    (0..n).map(|_| if r.coin() { Co::C(ch(r)) } else { Co::T(opaque(r)) }).collect()
}
/// some term with these components
fn spell(r: &mut Rng, v: &[Co]) -> Sx {
    if v.is_empty() {
        return strlit(r, &[]);
    }
    let mut parts: Vec<Sx> = vec![];
    let mut i = 0;
    while i < v.len() {
        if r.chance(1, 16) {
            parts.push(strlit(r, &[]));
        }
        match &v[i] {
            Co::T(t) => {
                parts.push(t.clone());
                i += 1;
            }
            Co::C(_) => {
                let mut s = vec![];
                while let Some(Co::C(c)) = v.get(i) {
                    s.push(*c);
                    i += 1;
                    if r.chance(1, 4) {
                        break;
                    }
                }
                parts.push(strlit(r, &s));
            }
        }
    }
    while parts.len() > 2 && r.chance(1, 3) {
        let i = r.below(parts.len() - 1);
        let k = (2 + r.below(2)).min(parts.len() - i);
        let t = app("str.++", &parts[i..i + k]);
        parts.splice(i..i + k, [t]);
    }
    if parts.len() == 1 {
        parts.pop().unwrap()
    } else {
        app("str.++", &parts)
    }
}
fn bl(b: bool) -> Sx {
    if b {
        tt()
    } else {
        ff()
    }
}
fn cat(x: &[Co], y: &[Co], rev: bool) -> Vec<Co> {
    let (x, y) = if rev { (y, x) } else { (x, y) };
    x.iter().chain(y).cloned().collect()
}
fn num(n: usize) -> Sx {
    a(&n.to_string())
}
fn split_skolem(t: &Sx, s: &Sx, rev: bool) -> Sx {
    let tpl = if rev {
        "(ite (>= (str.len ?0) (str.len ?1)) (str.substr ?0 0 (- (str.len ?0) (str.len ?1))) (str.substr ?1 0 (- (str.len ?1) (str.len ?0))))"
    } else {
        "(ite (>= (str.len ?0) (str.len ?1)) (str.substr ?0 (str.len ?1) (- (str.len ?0) (str.len ?1))) (str.substr ?1 (str.len ?0) (- (str.len ?1) (str.len ?0))))"
    };
    f(tpl, &[t, s])
}
fn overlap(s: &[char], t: &[char]) -> usize {
    // how many letters of s can certainly be skipped before t can start
    if s.len() < 2 || s.iter().zip(t).all(|(x, y)| x == y) {
        0
    } else {
        1 + overlap(&s[1..], t)
    }
}
fn re(r: &mut Rng, d: usize) -> Sx {
    if d == 0 {
        return match r.below(8) {
            0 => a("re.allchar"),
            1 => a(*r.pick(&["ra", "rb", "ra", "re.none", "re.all"])),
            2 => f("(re.range ?0 ?1)", &[&strlit(r, &['a']), &strlit(r, &['b'])]),
            3 => f("(str.to_re ?0)", &[&a(*r.pick(&["x", "y"]))]),
            _ => {
                let w = word(r, 2);
                f("(str.to_re ?0)", &[&strlit(r, &w)])
            }
        };
    }
    match r.below(6) {
        0 => f("(re.* ?0)", &[&re(r, d - 1)]),
        1 => f("(re.union ?0 ?1)", &[&re(r, d - 1), &re(r, d - 1)]),
        2 => f("(re.inter ?0 ?1)", &[&re(r, d - 1), &re(r, d - 1)]),
        3 | 4 => {
            let n = 2 + r.below(2);
            let v: Vec<Sx> = (0..n).map(|_| re(r, d - 1)).collect();
            app("re.++", &v)
        }
        _ => re(r, 0),
    }
}
/// a regular expression whose words all have length n
fn fixed_re(r: &mut Rng, d: usize, n: usize) -> Sx {
    if n == 1 && r.coin() {
        return match r.below(4) {
            0 => a("re.allchar"),
            1 => f("(re.range ?0 ?1)", &[&strlit(r, &['a']), &strlit(r, &['c'])]),
            _ => f("(str.to_re ?0)", &[&strlit(r, &['b'])]),
        };
    }
    if d > 0 {
        match r.below(5) {
            0 => {
                let mut v = vec![fixed_re(r, d - 1, n), fixed_re(r, d - 1, n)];
                if r.chance(1, 3) {
                    let i = r.below(3);
                    v.insert(i, a("re.none"));
                }
                return app("re.union", &v);
            }
            1 => {
                let mut v = vec![fixed_re(r, d - 1, n), fixed_re(r, d - 1, n)];
                if r.chance(1, 3) {
                    let i = r.below(3);
                    v.insert(i, a("re.all"));
                }
                return app("re.inter", &v);
            }
            2 | 3 => {
                let k = r.below(n + 1);
                return app("re.++", &[fixed_re(r, d - 1, k), fixed_re(r, d - 1, n - k)]);
            }
            _ => {}
        }
    }
    let s: Vec<char> = (0..n).map(|_| ch(r)).collect();
    f("(str.to_re ?0)", &[&strlit(r, &s)])
}
fn single(v: &[Sx]) -> Sx {
    if v.len() == 1 {
        v[0].clone()
    } else {
        app("re.++", v)
    }
}
fn subject(r: &mut Rng) -> Sx {
    let n = 1 + r.below(2);
    let v = comps(r, n, n);
    spell(r, &v)
}
fn decomposed(t: &Sx, n: &Sx, rev: bool) -> Sx {
    f(
        if rev {
            "(and (= ?0 (str.++ (str.substr ?0 0 ?1) (str.substr ?0 ?1 (- (str.len ?0) ?1)))) (= (str.len (str.substr ?0 ?1 (- (str.len ?0) ?1))) ?1))"
        } else {
            "(and (= ?0 (str.++ (str.substr ?0 0 ?1) (str.substr ?0 ?1 (- (str.len ?0) ?1)))) (= (str.len (str.substr ?0 0 ?1)) ?1))"
        },
        &[t, n],
    )
}
fn instance(r: &mut Rng, d: &Rc<Decls>) -> (Case, bool) {
    let rev = r.coin();
    let side = if rev { "suffix" } else { "prefix" };
    let mk = |tag: &'static str, rule: &str, ps: Vec<Sx>, c: Sx, args: Vec<Sx>| {
        Case::new(d, tag, rule, ps.into_iter().map(|p| vec![p]).collect(), vec![c], args)
    };
    let mut must = true;
    let c = match r.below(18) {
        0 | 1 => {
            let p = comps(r, 0, 3);
            let (x, y) = (comps(r, 0, 3), comps(r, 0, 3));
            let (fs, ft) = (cat(&p, &x, rev), cat(&p, &y, rev));
            if fs.is_empty() || ft.is_empty() {
                must = false;
            }
            let n = fs.len().min(ft.len());
            let (cs, ct) = if rev {
                let k = (0..n).take_while(|i| fs[fs.len() - 1 - i] == ft[ft.len() - 1 - i]).count();
                (fs[..fs.len() - k].to_vec(), ft[..ft.len() - k].to_vec())
            } else {
                let k = (0..n).take_while(|i| fs[*i] == ft[*i]).count();
                (fs[k..].to_vec(), ft[k..].to_vec())
            };
            let prem = eq(&spell(r, &fs), &spell(r, &ft));
            mk("concat_eq", "concat_eq", vec![prem], eq(&spell(r, &cs), &spell(r, &ct)), vec![bl(rev)])
        }
        2 | 3 => {
            let (p, q) = (comps(r, 1, 3), comps(r, 1, 3));
            let (x, y) = (comps(r, 0, 3), comps(r, 0, 3));
            let prem = eq(&spell(r, &cat(&p, &x, rev)), &spell(r, &cat(&q, &y, rev)));
            let len = f("(= (str.len ?0) (str.len ?1))", &[&spell(r, &p), &spell(r, &q)]);
            mk("concat_unify", "concat_unify", vec![prem, len], eq(&spell(r, &p), &spell(r, &q)), vec![bl(rev)])
        }
        4 | 5 => {
            let p = comps(r, 0, 3);
            let (mut x, mut y) = (comps(r, 0, 2), comps(r, 0, 2));
            let (c1, c2) = (ch(r), ch(r));
            must = c1 != c2;
            let k = if rev { x.len() } else { 0 };
            x.insert(k, Co::C(c1));
            if r.chance(1, 4) && !p.is_empty() {
                y.clear();
                must = true;
            } else {
                let k = if rev { y.len() } else { 0 };
                y.insert(k, Co::C(c2));
            }
            let (mut s, mut t) = (spell(r, &cat(&p, &x, rev)), spell(r, &cat(&p, &y, rev)));
            if r.coin() {
                std::mem::swap(&mut s, &mut t);
            }
            mk("concat_conflict", "concat_conflict", vec![eq(&s, &t)], ff(), vec![bl(rev)])
        }
        6 => {
            let (p, x, y) = (comps(r, 1, 2), comps(r, 0, 2), comps(r, 0, 2));
            let c = ch(r);
            let prem = eq(&spell(r, &cat(&p, &x, rev)), &spell(r, &cat(&[Co::C(c)], &y, rev)));
            let t1 = spell(r, &p);
            let len = f("(not (= (str.len ?0) 0))", &[&t1]);
            let cs = strlit(r, &[c]);
            let t2 = if r.chance(1, 4) { spell(r, &p) } else { t1.clone() };
            let tpl = if rev {
                "(= ?0 (str.++ (str.substr ?2 0 (- (str.len ?2) 1)) ?1))"
            } else {
                "(= ?0 (str.++ ?1 (str.substr ?2 1 (- (str.len ?2) 1))))"
            };
            mk("concat_csplit", &format!("concat_csplit_{side}"), vec![prem, len], f(tpl, &[&t2, &cs, &t1]), vec![])
        }
        7 | 8 => {
            let (p, q) = (comps(r, 1, 2), comps(r, 1, 2));
            let (x, y) = (comps(r, 0, 2), comps(r, 0, 2));
            let prem = eq(&spell(r, &cat(&p, &x, rev)), &spell(r, &cat(&q, &y, rev)));
            let (t1, s1) = (spell(r, &p), spell(r, &q));
            let k = split_skolem(&t1, &s1, rev);
            let lp = r.coin();
            let len = f(
                if lp { "(> (str.len ?0) (str.len ?1))" } else { "(not (= (str.len ?0) (str.len ?1)))" },
                &[&t1, &s1],
            );
            let (xs, ys) = if rev {
                (app("str.++", &[k.clone(), s1.clone()]), app("str.++", &[k.clone(), t1.clone()]))
            } else {
                (app("str.++", &[s1.clone(), k.clone()]), app("str.++", &[t1.clone(), k.clone()]))
            };
            let tail = f("(and ?0 (not (= ?1 \"\")) (> (str.len ?1) 0))", &[
                &if lp { eq(&t1, &xs) } else { f("(or ?0 ?1)", &[&eq(&t1, &xs), &eq(&s1, &ys)]) },
                &k,
            ]);
            let rule = format!("concat_{}_{side}", if lp { "lprop" } else { "split" });
            mk("concat_split", &rule, vec![prem, len], tail, vec![])
        }
        9..=11 => {
            let p = comps(r, 1, 2);
            let t1 = spell(r, &p);
            let w2 = word(r, 3);
            let w1: Vec<char> = (0..1 + r.below(4)).map(|_| ch(r)).collect();
            let mut t2 = spell(r, &chars(&w2));
            let t3 = subject(r);
            let mut s0 = spell(r, &chars(&w1));
            if r.chance(1, 6) {
                t2 = opaque(r);
                must = false;
            }
            if r.chance(1, 6) {
                s0 = {
                    let v = comps(r, 1, 3);
                    spell(r, &v)
                };
                must = false;
            }
            let whole = s0.atom().is_some() && r.chance(1, 3);
            let s = if whole {
                s0.clone()
            } else {
                let mut v = vec![s0.clone()];
                for _ in 0..1 + r.below(2) {
                    v.push(subject(r));
                }
                if rev {
                    v.reverse();
                }
                app("str.++", &v)
            };
            let mut t = vec![t1.clone(), t2, t3];
            if rev {
                t.reverse();
            }
            let (mut o1, mut o2) = (w1.clone(), w2.clone());
            if rev {
                o1.reverse();
                o2.reverse();
            }
            let mut n = 1 + overlap(&o1[1..], &o2);
            if r.chance(1, 6) {
                n += 1;
                must = false;
            }
            let len = f("(not (= (str.len ?0) 0))", &[&t1]);
            let c = if rev {
                let oc = f("(str.substr ?0 (- (str.len ?0) ?1) ?1)", &[&s0, &num(n)]);
                f("(= ?0 (str.++ (str.substr ?0 0 (- (str.len ?0) (str.len ?1))) ?1))", &[&t1, &oc])
            } else {
                let oc = f("(str.substr ?0 0 ?1)", &[&s0, &num(n)]);
                f("(= ?0 (str.++ ?1 (str.substr ?0 (str.len ?1) (- (str.len ?0) (str.len ?1)))))", &[&t1, &oc])
            };
            mk("concat_cprop", &format!("concat_cprop_{side}"), vec![eq(&app("str.++", &t), &s), len], c, vec![])
        }
        12 => {
            let t = subject(r);
            let n = match r.below(6) {
                0 => parse("(str.len x)"),
                1 => a("n"),
                2 => {
                    must = false;
                    parse("(- 1)")
                }
                _ => num(r.below(4)),
            };
            must &= !rev && is_num(n.atom().unwrap_or(""));
            let c = decomposed(&t, &n, rev);
            mk("string_decompose", "string_decompose", vec![f("(>= (str.len ?0) ?1)", &[&t, &n])], c, vec![bl(rev)])
        }
        13 => {
            let t = subject(r);
            if rev {
                let c = f("(or (and (= (str.len ?0) 0) (= ?0 \"\")) (> (str.len ?0) 0))", &[&t]);
                mk("string_length_pos", "string_length_pos", vec![], c, vec![t])
            } else {
                let (p, c) = (f("(not (= ?0 \"\"))", &[&t]), f("(not (= (str.len ?0) 0))", &[&t]));
                mk("string_length_non_empty", "string_length_non_empty", vec![p], c, vec![])
            }
        }
        14 => {
            let t = subject(r);
            if r.coin() {
                let (x, y) = (re(r, 2), re(r, 2));
                let (p, q) = (f("(str.in_re ?0 ?1)", &[&t, &x]), f("(str.in_re ?0 ?1)", &[&t, &y]));
                mk("re_inter", "re_inter", vec![p, q], f("(str.in_re ?0 (re.inter ?1 ?2))", &[&t, &x, &y]), vec![])
            } else {
                // only words: no Skolem terms
                let n = 2 + r.below(3);
                let mut res = vec![];
                let mut parts = vec![];
                for _ in 0..n {
                    let t = if r.coin() {
                        a(*r.pick(&["x", "y"]))
                    } else {
                        let mut v = word(r, 2);
                        v.push('a');
                        strlit(r, &v)
                    };
                    res.push(f("(str.to_re ?0)", &[&t]));
                    parts.push(t);
                }
                let p = f("(str.in_re ?0 ?1)", &[&t, &app("re.++", &res)]);
                mk("re_concat_unfold_pos", "re_concat_unfold_pos", vec![p], eq(&t, &app("str.++", &parts)), vec![])
            }
        }
        15 => {
            let mut t = subject(r);
            if r.chance(1, 6) {
                t = f("(str.++ (str.at ?0 L) x)", &[&strlit(r, &['b', 'c'])]);
            }
            must = !t.contains_atom("L");
            if r.coin() {
                let x = re(r, 1);
                let s = f("(re.* ?0)", &[&x]);
                let p = f("(not (str.in_re ?0 ?1))", &[&t, &s]);
                let c = f("(and (not (= ?0 \"\")) (forall ((L Int)) (or (<= L 0) (< (str.len ?0) L) (not (str.in_re (str.substr ?0 0 L) ?1)) (not (str.in_re (str.substr ?0 L (- (str.len ?0) L)) ?2)))))", &[&t, &x, &s]);
                mk("re_unfold_neg_star", "re_unfold_neg", vec![p], c, vec![])
            } else {
                let n = 2 + r.below(2);
                let v: Vec<Sx> = (0..n).map(|_| re(r, 1)).collect();
                let p = f("(not (str.in_re ?0 ?1))", &[&t, &app("re.++", &v)]);
                let c = f("(forall ((L Int)) (or (< L 0) (< (str.len ?0) L) (not (str.in_re (str.substr ?0 0 L) ?1)) (not (str.in_re (str.substr ?0 L (- (str.len ?0) L)) ?2))))", &[&t, &v[0], &single(&v[1..])]);
                mk("re_unfold_neg_concat", "re_unfold_neg", vec![p], c, vec![])
            }
        }
        _ => {
            let t = subject(r);
            let n = r.below(4);
            let fx = if r.chance(1, 8) {
                must = false;
                if r.coin() {
                    re(r, 2)
                } else {
                    // words of two lengths
                    let mut v: Vec<Sx> = (0..2 + r.below(2)).map(|_| fixed_re(r, 1, n)).collect();
                    let i = r.below(v.len());
                    let m = if r.coin() || n == 0 { n + 1 } else { n - 1 };
                    v[i] = fixed_re(r, 1, m);
                    app(*r.pick(&["re.union", "re.union", "re.inter"]), &v)
                }
            } else {
                fixed_re(r, 2, n)
            };
            let k = 1 + r.below(2);
            let mut v: Vec<Sx> = (0..k).map(|_| re(r, 1)).collect();
            let i = if rev { v.len() } else { 0 };
            v.insert(i, fx.clone());
            let p = f("(not (str.in_re ?0 ?1))", &[&t, &app("re.++", &v)]);
            v.remove(i);
            let rest = single(&v);
            let n = num(n);
            let c = if rev {
                f("(or (not (str.in_re (str.substr ?0 (- (str.len ?0) ?1) ?1) ?2)) (not (str.in_re (str.substr ?0 0 (- (str.len ?0) ?1)) ?3)))", &[&t, &n, &fx, &rest])
            } else {
                f("(or (not (str.in_re (str.substr ?0 0 ?1) ?2)) (not (str.in_re (str.substr ?0 ?1 (- (str.len ?0) ?1)) ?3)))", &[&t, &n, &fx, &rest])
            };
            mk("re_unfold_neg_fixed", &format!("re_unfold_neg_concat_fixed_{side}"), vec![p], c, vec![])
        }
    };
    (c, must)
}
const SIBS: &[&str] = &[
    "concat_eq", "concat_unify", "concat_conflict", "concat_csplit_prefix", "concat_csplit_suffix", "concat_split_prefix",
    "concat_split_suffix", "concat_lprop_prefix", "concat_lprop_suffix", "concat_cprop_prefix", "concat_cprop_suffix",
    "string_decompose", "string_length_pos", "string_length_non_empty", "re_inter", "re_unfold_neg",
    "re_unfold_neg_concat_fixed_prefix", "re_unfold_neg_concat_fixed_suffix",
];
fn class(c: &Case) -> Option<&'static str> {
    if c.rule == "string_decompose" && c.prems.len() == 1 && c.prems[0].len() == 1 {
        let (t, n) = (c.prems[0][0].args().first()?.args().first()?, c.prems[0][0].args().get(1)?);
        let rev = c.args.first() == Some(&tt());
        // only the conclusion the rule is meant to have is the known finding
        if c.concl.len() != 1 || c.concl[0] != decomposed(t, n, rev) {
            return None;
        }
        if rev {
            return Some("decompose:rev");
        }
        if n.atom().map_or(true, |x| !is_num(x)) {
            return Some("decompose:negative");
        }
    }
    None
}
pub fn run(c: &mut Ctx) {
    let d = w();
    let k = Knobs { mutants: 6, tries: 3 };
    if c.worker == 0 {
        // a known finding each: accepted although wrong
        let known: &[(&str, &str, &str, &str, &[&str])] = &[
            (
                "unsound:decompose:rev",
                "string_decompose",
                "(>= (str.len \"abc\") 1)",
                "(and (= \"abc\" (str.++ (str.substr \"abc\" 0 1) (str.substr \"abc\" 1 (- (str.len \"abc\") 1)))) (= (str.len (str.substr \"abc\" 1 (- (str.len \"abc\") 1))) 1))",
                &["true"],
            ),
            (
                "unsound:decompose:negative",
                "string_decompose",
                "(>= (str.len \"abc\") (- 1))",
                "(and (= \"abc\" (str.++ (str.substr \"abc\" 0 (- 1)) (str.substr \"abc\" (- 1) (- (str.len \"abc\") (- 1))))) (= (str.len (str.substr \"abc\" 0 (- 1))) (- 1)))",
                &["false"],
            ),
            // whatever the choice term is: it is a word of (re.++ (re.range "b" "b") "c") and "abc" is "a" k "c"
            (
                "unsound:unfold_pos:component",
                "re_concat_unfold_pos",
                "(str.in_re \"abc\" (re.++ (str.to_re \"a\") (re.range \"b\" \"b\") (str.to_re \"c\")))",
                "(and (= \"abc\" (str.++ \"a\" ?0 \"c\")) (and (str.in_re ?0 (re.++ (re.range \"b\" \"b\") (str.to_re \"c\"))) true))",
                &[],
            ),
        ];
        let ch = parse("(choice ((x String)) (exists ((k_0 String) (R_0 RegLan) (R_1 RegLan)) (and (= \"abc\" (str.++ k_0 x)) (str.in_re k_0 R_0) (str.in_re x R_1))))");
        for (sig, rule, p, co, args) in known {
            let case = Case::new(&d, "known", rule, vec![vec![parse(p)]], vec![f(co, &[&ch])], args.iter().map(|s| a(s)).collect());
            if case.run().accepted() {
                c.rep.known.insert(sig.to_string(), format!("{rule} accepts {}", case.concl[0]));
            }
        }
    }
    for _ in 0..c.iters(2500) {
        if c.late() {
            break;
        }
        let (x, must) = instance(&mut c.rng, &d);
        if must {
            drive(&x, &mut c.rng, &mut c.rep, &k, SIBS, class, true);
        } else {
            c.rep.count(&format!("weird:{}", x.tag));
            judge(&x, &mut c.rng, &mut c.rep, &k, class);
        }
    }
}
