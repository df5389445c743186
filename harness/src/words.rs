//! Search for string interpretations that satisfy word equations and memberships among the premises.
//! It only guides the choice of interpretations, the evaluator always decides.
use crate::eval::*;
use crate::rng::Rng;
use crate::run::Case;
use crate::sorts::*;
use crate::sx::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Word = Rc<[u32]>;
pub type Env = HashMap<Rc<str>, Word>;
#[derive(Clone)]
enum P {
    W(Word),
    V(Rc<str>),
}
/// components of a string term; None if it has others than constants and words
fn pattern(t: &Sx, d: &Decls, out: &mut Vec<P>) -> Option<()> {
    match t {
        Sx::A(x) if x.starts_with('"') => out.push(P::W(Rc::from(parse_str(x)))),
        Sx::A(x) => match d.get(x) {
            Some((a, St::Str)) if a.is_empty() => out.push(P::V(x.clone())),
            _ => return None,
        },
        _ => {
            let (h, a) = t.op()?;
            if h != "str.++" {
                return None;
            }
            for x in a {
                pattern(x, d, out)?;
            }
        }
    }
    Some(())
}
fn solve(w: &[u32], p: &[P], env: &mut Env, out: &mut Vec<Env>, cap: usize) {
    if out.len() >= cap {
        return;
    }
    match p.split_first() {
        None => {
            if w.is_empty() {
                out.push(env.clone());
            }
        }
        Some((P::W(x), rest)) => {
            if w.starts_with(x) {
                solve(&w[x.len()..], rest, env, out, cap);
            }
        }
        Some((P::V(v), rest)) => {
            if let Some(x) = env.get(v).cloned() {
                if w.starts_with(&x) {
                    solve(&w[x.len()..], rest, env, out, cap);
                }
                return;
            }
            for k in 0..=w.len() {
                env.insert(v.clone(), Rc::from(&w[..k]));
                solve(&w[k..], rest, env, out, cap);
                env.remove(v);
            }
        }
    }
}
/// a random member of the language, if one is found
fn member(re: &Re, r: &mut Rng, al: &[u32], depth: usize) -> Option<Vec<u32>> {
    if depth == 0 {
        return None;
    }
    Some(match re {
        Re::None => return None,
        Re::All => (0..r.below(4)).map(|_| *r.pick(al)).collect(),
        Re::AllChar => vec![*r.pick(al)],
        Re::Lit(x) => x.to_vec(),
        Re::Range(a, b) => {
            if a > b {
                return None;
            }
            vec![a + r.below((b - a + 1).min(4) as usize) as u32]
        }
        Re::Cat(v) => {
            let mut o = vec![];
            for x in v {
                o.extend(member(x, r, al, depth - 1)?);
            }
            o
        }
        Re::Union(v) => {
            if v.is_empty() {
                return None;
            }
            let i = r.below(v.len());
            member(&v[i], r, al, depth - 1)?
        }
        Re::Star(x) => {
            let mut o = vec![];
            for _ in 0..r.below(4) {
                o.extend(member(x, r, al, depth - 1)?);
            }
            o
        }
        Re::Inter(_) | Re::Comp(_) => {
            let x: Vec<u32> = (0..r.below(4)).map(|_| *r.pick(al)).collect();
            if !re_match(re, &x) {
                return None;
            }
            x
        }
    })
}
fn letters(t: &Sx, out: &mut Vec<u32>) {
    match t {
        Sx::A(x) if x.starts_with('"') => {
            for c in parse_str(x) {
                if !out.contains(&c) && out.len() < 5 {
                    out.push(c);
                }
            }
        }
        Sx::L(v) => v.iter().for_each(|x| letters(x, out)),
        _ => {}
    }
}
pub fn random_re(r: &mut Rng, al: &[u32], depth: usize) -> Rc<Re> {
    let sub = |r: &mut Rng| random_re(r, al, depth - 1);
    Rc::new(match if depth == 0 { r.below(4) } else { r.below(8) } {
        0 => Re::AllChar,
        1 | 2 => Re::Lit((0..r.below(3)).map(|_| *r.pick(al)).collect::<Vec<_>>().into()),
        3 => match r.below(3) {
            0 => Re::None,
            1 => Re::All,
            _ => Re::Range(97, 98),
        },
        4 => Re::Cat(vec![sub(r), sub(r)]),
        5 => Re::Union(vec![sub(r), sub(r)]),
        6 => Re::Star(sub(r)),
        _ => Re::Inter(vec![sub(r), Rc::new(Re::All)]),
    })
}
pub fn models(c: &Case, r: &mut Rng, n: usize) -> Vec<HashMap<Rc<str>, V>> {
    let used = |x: &str| c.concl.iter().chain(c.prems.iter().flatten()).any(|t| t.contains_atom(x));
    let consts: Vec<(Rc<str>, St)> = c
        .decls
        .funs
        .iter()
        .filter(|(n, a, s)| a.is_empty() && matches!(s, St::Str | St::Re | St::Int) && used(n))
        .map(|(n, _, s)| (n.clone(), s.clone()))
        .collect();
    let mut al = vec![97, 98];
    for t in c.concl.iter().chain(c.prems.iter().flatten()) {
        letters(t, &mut al);
    }
    let word = |r: &mut Rng, al: &[u32]| -> Word {
        let n = r.below(5);
        (0..n).map(|_| *r.pick(al)).collect::<Vec<_>>().into()
    };
    let mut out = vec![];
    for _ in 0..n {
        let mut fixed: HashMap<Rc<str>, V> = HashMap::new();
        for (x, s) in &consts {
            match s {
                St::Re => {
                    let dep = r.below(3);
                    fixed.insert(x.clone(), V::Re(random_re(r, &al, dep)));
                }
                St::Int => {
                    fixed.insert(x.clone(), V::N(Q::int(r.range(-1, 5) as i128)));
                }
                _ => {}
            }
        }
        let mut env = Env::new();
        for p in c.prems.iter().filter(|p| p.len() == 1) {
            let t = &p[0];
            if t.is_op("=") && t.args().len() == 2 {
                let (mut x, mut y) = (&t.args()[0], &t.args()[1]);
                if r.coin() {
                    std::mem::swap(&mut x, &mut y);
                }
                let mut py = vec![];
                if pattern(y, &c.decls, &mut py).is_none() {
                    std::mem::swap(&mut x, &mut y);
                    py.clear();
                    if pattern(y, &c.decls, &mut py).is_none() {
                        continue;
                    }
                }
                // choose the words of x
                for (v, s) in &consts {
                    if *s == St::Str && x.contains_atom(v) && !env.contains_key(v) {
                        env.insert(v.clone(), word(r, &al));
                    }
                }
                let mut it = Interp::new(7);
                it.fixed = fixed.clone();
                for (v, w) in &env {
                    it.fixed.insert(v.clone(), V::S(w.clone()));
                }
                if let V::S(w) = Ev::new(&c.decls, &it).eval(x) {
                    let mut sols = vec![];
                    solve(&w, &py, &mut env.clone(), &mut sols, 24);
                    if !sols.is_empty() {
                        env = r.pick(&sols).clone();
                    }
                }
            } else if t.is_op("str.in_re") {
                let mut it = Interp::new(7);
                it.fixed = fixed.clone();
                let re = Ev::new(&c.decls, &it).eval(&t.args()[1]);
                let mut py = vec![];
                if let (V::Re(re), Some(())) = (re, pattern(&t.args()[0], &c.decls, &mut py)) {
                    if let Some(w) = member(&re, r, &al, 5) {
                        let mut sols = vec![];
                        solve(&w, &py, &mut env.clone(), &mut sols, 24);
                        if !sols.is_empty() {
                            env = r.pick(&sols).clone();
                        }
                    }
                }
            }
        }
        for (x, s) in &consts {
            if *s == St::Str {
                let w = env.get(x).cloned().unwrap_or_else(|| word(r, &al));
                fixed.insert(x.clone(), V::S(w));
            }
        }
        out.push(fixed);
    }
    out
}
