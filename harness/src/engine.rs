//! The generic single-step engine: valid instances must be accepted, and whatever is accepted must
//! have no countermodel.
use crate::gen::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;

pub struct Knobs {
    pub mutants: usize,
    pub tries: usize,
}
/// known-defect classifier: a step that falls in a listed finding's exact class
pub type Classify = fn(&Case) -> Option<&'static str>;

pub struct Family {
    pub name: &'static str,
    pub gen: fn(&mut Rng, &World) -> Option<Case>,
    pub siblings: &'static [&'static str],
    pub weight: usize,
}

pub fn no_class(_: &Case) -> Option<&'static str> {
    None
}

/// Checks one case that is expected to be accepted (if `must`), and its mutants.
pub fn drive(c: &Case, r: &mut Rng, rep: &mut Report, k: &Knobs, sib: &[&str], cl: Classify, must: bool) -> bool {
    crate::watch::set(|| c.text());
    let out = c.run();
    rep.seen(&c.proof());
    rep.count(&format!("inst:{}:{}", c.rule, out.kind()));
    match &out {
        Out::Panic(p) => {
            if must && cl(c).is_none() {
                rep.violation(
                    &format!("incomplete:{}:{}", c.rule, c.tag),
                    format!("valid instance of {} ({}) made the checker panic: {}", c.rule, c.tag, p),
                    c.text(),
                );
            }
        }
        Out::Reject(..) | Out::NoEmpty | Out::ParseErr(_) | Out::Valid => {
            if must && cl(c).is_none() {
                rep.violation(
                    &format!("incomplete:{}:{}", c.rule, c.tag),
                    format!("valid instance of {} ({}) was not accepted: {:?}", c.rule, c.tag, out),
                    c.text(),
                );
            }
        }
        Out::Holey => {
            rep.count("accepted");
            rep.sample(|| c.proof());
            if let Some(m) = c.countermodel(r, k.tries) {
                if cl(c).is_none() {
                    rep.violation(
                        &format!("unsound:{}", c.rule),
                        format!("accepted {} step ({}) has a countermodel: {}", c.rule, c.tag, m),
                        c.text(),
                    );
                }
            }
        }
    }
    if k.mutants == 0 {
        return out.accepted();
    }
    let don = donors(c, &[]);
    let m = Mutator { siblings: sib, pool: vec![] };
    for _ in 0..k.mutants {
        if let Some(mc) = mutate(c, r, &m, &don) {
            judge(&mc, r, rep, k, cl);
        }
    }
    out.accepted()
}
/// Soundness only: if accepted there must be no countermodel.
pub fn judge(mc: &Case, r: &mut Rng, rep: &mut Report, k: &Knobs, cl: Classify) -> bool {
    crate::watch::set(|| mc.text());
    let o = mc.run();
    rep.evals += 1;
    rep.count(&format!("mut:{}", o.kind()));
    if let Out::Panic(p) = &o {
        rep.count(&format!("panic:{}", p.rsplit(" @ ").next().unwrap_or("")));
    }
    if o.accepted() {
        rep.seen(&mc.proof());
        rep.count(&format!("mutacc:{}", mc.rule));
        if let Some(w) = mc.countermodel(r, k.tries) {
            match cl(mc) {
                None => rep.violation(
                    &format!("unsound:{}", mc.rule),
                    format!("accepted {} step (mutant of {}) has a countermodel: {}", mc.rule, mc.tag, w),
                    mc.text(),
                ),
                Some(k) => rep.count(&format!("known-class:{}", k)),
            }
        }
        return true;
    }
    false
}
