//! Independent binder renaming.
use crate::rng::Rng;
use crate::sorts::*;
use crate::sx::*;
use std::rc::Rc;

/// Renames every binder (with some probability) to a fresh name `z!k`.
pub fn rename(t: &Sx, r: &mut Rng, next: &mut usize) -> Sx {
    go(t, r, next, &mut vec![], false)
}
/// Renames every binder.
pub fn rename_all(t: &Sx, r: &mut Rng, next: &mut usize) -> Sx {
    go(t, r, next, &mut vec![], true)
}
fn go(t: &Sx, r: &mut Rng, next: &mut usize, env: &mut Vec<(Rc<str>, Rc<str>)>, all: bool) -> Sx {
    match t {
        Sx::A(x) => match env.iter().rev().find(|(n, _)| n == x) {
            Some((_, y)) => Sx::A(y.clone()),
            None => t.clone(),
        },
        Sx::L(v) => {
            let h = v.first().and_then(|x| x.atom());
            if v.len() == 3 && matches!(h, Some("forall" | "exists" | "choice" | "lambda" | "let")) {
                if let Some(bs) = bindings(&v[1]) {
                    let n = env.len();
                    let is_let = h == Some("let");
                    let vals: Vec<Sx> =
                        bs.iter().map(|b| if is_let { go(&b.1, r, next, env, all) } else { b.1.clone() }).collect();
                    let names: Vec<Rc<str>> = bs
                        .iter()
                        .map(|b| {
                            if all || r.chance(2, 3) {
                                *next += 1;
                                Rc::from(format!("z!{}", *next).as_str())
                            } else {
                                b.0.clone()
                            }
                        })
                        .collect();
                    for (b, n) in bs.iter().zip(&names) {
                        env.push((b.0.clone(), n.clone()));
                    }
                    let body = go(&v[2], r, next, env, all);
                    env.truncate(n);
                    let bl = names.into_iter().zip(vals).map(|(n, s)| l(vec![Sx::A(n), s])).collect();
                    return l(vec![v[0].clone(), l(bl), body]);
                }
            }
            l(v.iter().map(|x| go(x, r, next, env, all)).collect())
        }
    }
}
/// Free symbols occurring in a term (all atoms not bound), for scoping checks.
pub fn free_atoms(t: &Sx, out: &mut std::collections::BTreeSet<Rc<str>>) {
    fn go(t: &Sx, env: &mut Vec<Rc<str>>, out: &mut std::collections::BTreeSet<Rc<str>>) {
        match t {
            Sx::A(x) => {
                if !env.contains(x) {
                    out.insert(x.clone());
                }
            }
            Sx::L(v) => {
                let h = v.first().and_then(|x| x.atom());
                if v.len() == 3 && matches!(h, Some("forall" | "exists" | "choice" | "lambda" | "let")) {
                    if let Some(bs) = bindings(&v[1]) {
                        let n = env.len();
                        if h == Some("let") {
                            for b in &bs {
                                go(&b.1, env, out);
                            }
                        }
                        for b in &bs {
                            env.push(b.0.clone());
                        }
                        go(&v[2], env, out);
                        env.truncate(n);
                        return;
                    }
                }
                v.iter().for_each(|x| go(x, env, out));
            }
        }
    }
    go(t, &mut vec![], out)
}
