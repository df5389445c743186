//! Overall verdicts: holes, unknown rules, allowed rules, rejected steps, the empty clause.
use super::c07;
use super::c28::decls;
use super::Ctx;
use crate::proof::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use std::collections::HashSet;
use std::rc::Rc;

const UNKNOWN: &[&str] = &["foo", "Hole", "holey", "trust", "lia", "true1", "th-resolution", "assume", "|a b|", "anchor", "subproofs"];

/// how a command stands on its own
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Good,
    Hole,
    /// the rule is not known (and nothing else is wrong)
    Unknown,
    /// fails under its (known) rule
    Bad,
    /// fails whether or not its rule is known, unless the rule is allowed
    BadDischarge,
    /// an unasserted top-level assumption: no option tolerates it
    BadAssume,
}
struct M {
    p: Prf,
    st: Vec<St>,
    fresh: usize,
}
impl M {
    fn id(&mut self) -> String {
        self.fresh += 1;
        format!("m{}", self.fresh)
    }
    fn insert(&mut self, at: usize, c: Cmd, s: St) {
        self.p.cmds.insert(at, c);
        self.st.insert(at, s);
    }
    /// position where a step may be put: not between assumptions of a subproof, not first or last in it
    fn spot(&self, r: &mut Rng, top: bool) -> Option<usize> {
        let dep = self.p.depths();
        let n = self.p.cmds.len();
        let c: Vec<usize> = (0..=n)
            .filter(|&i| {
                let d = if i < n { dep[i] } else { 0 };
                if d == 0 {
                    return true;
                }
                if top {
                    return false;
                }
                // the commands around it: no assumption may follow, and the implicit premise of a
                // closing step must stay the last command
                let prev = i.checked_sub(1).map(|k| &self.p.cmds[k]);
                let next = &self.p.cmds[i];
                let closes = match next {
                    Cmd::Step(s) => self.p.cmds.iter().any(|c| matches!(c, Cmd::Anchor(i, _) if *i == s.id)),
                    _ => false,
                };
                !matches!(next, Cmd::Assume(..)) && !closes && prev.is_some()
            })
            .collect();
        if c.is_empty() {
            None
        } else {
            Some(*r.pick(&c))
        }
    }
    fn closing(&self, i: usize) -> bool {
        let Some(id) = self.p.cmds[i].id() else { return false };
        self.p.cmds.iter().any(|c| matches!(c, Cmd::Anchor(x, _) if x == id))
    }
    /// a closing step of a subproof that has assumptions
    fn discharging(&self, i: usize) -> bool {
        let dep = self.p.depths();
        let Some(id) = self.p.cmds[i].id() else { return false };
        let Some(a) = self.p.cmds.iter().position(|c| matches!(c, Cmd::Anchor(x, _) if x == id)) else { return false };
        (a..i).any(|k| matches!(self.p.cmds[k], Cmd::Assume(..)) && dep[k] == dep[i])
    }
    fn edit(&mut self, r: &mut Rng, rep: &mut crate::report::Report) {
        let n = self.p.cmds.len();
        let k = r.below(17);
        rep.count(&format!("edit:{}", k));
        match k {
            // the rule of a step
            0..=4 => {
                let at: Vec<usize> = (0..n).filter(|&i| matches!(self.p.cmds[i], Cmd::Step(_)) && self.st[i] == St::Good).collect();
                if at.is_empty() {
                    return;
                }
                let i = *r.pick(&at);
                let (cl, di) = (self.closing(i), self.discharging(i));
                let Cmd::Step(s) = &mut self.p.cmds[i] else { return };
                match k {
                    0 | 1 => {
                        let lia = r.chance(1, 3);
                        s.rule = if lia { "lia_generic" } else { "hole" }.into();
                        self.st[i] = if !s.dis.is_empty() && r.coin() {
                            St::BadDischarge
                        } else {
                            s.dis.clear();
                            if cl && lia || di {
                                St::Bad
                            } else {
                                St::Hole
                            }
                        };
                        if !lia && r.chance(1, 3) {
                            s.args = vec![parse("(no such (term) 1 \"x\")"), a("#b01"), a("nothing"), parse("(forall x)"), a("assume"), a(":kw")];
                        }
                    }
                    2 => {
                        s.rule = r.pick(UNKNOWN).to_string();
                        self.st[i] = if !s.dis.is_empty() && r.coin() {
                            St::BadDischarge
                        } else {
                            s.dis.clear();
                            St::Unknown
                        };
                    }
                    _ => {
                        let rule = *r.pick(&["true", "false", "not_not", "subproof", "bind", "and_pos", "la_generic", "not_or"]);
                        // never right for what the generated steps conclude
                        if s.cl == vec![tt()] || s.cl == vec![not(&ff())] || s.rule == rule {
                            return;
                        }
                        if cl && matches!(rule, "subproof" | "bind") || matches!(rule, "and_pos" | "la_generic" | "not_not") && s.cl.len() > 1 {
                            return;
                        }
                        s.rule = rule.into();
                        self.st[i] = St::Bad;
                    }
                }
            }
            // an extra step somewhere
            5..=8 => {
                let Some(i) = self.spot(r, false) else { return };
                let id = self.id();
                let (rule, cl, s) = match k {
                    5 => ("true", vec![ff()], St::Bad),
                    6 => (*r.pick(UNKNOWN), vec![ff()], St::Unknown),
                    7 => (*r.pick(&["hole", "lia_generic"]), vec![ff()], St::Hole),
                    _ => ("true", vec![tt()], St::Good),
                };
                self.insert(i, Cmd::Step(Step { id, cl, rule: rule.into(), ..Step::default() }), s);
            }
            // an extra assumption at the top level
            9 => {
                let Some(i) = self.spot(r, true) else { return };
                let id = self.id();
                if !self.p.asserts.is_empty() && r.coin() {
                    let t = r.pick(&self.p.asserts).clone();
                    self.insert(i, Cmd::Assume(id, t), St::Good);
                } else {
                    let t = app("R", &[a("a''"), app("f", &[app("f", &[a("a''")])])]);
                    self.insert(i, Cmd::Assume(id, t), St::BadAssume);
                }
            }
            // the empty clause disappears
            10 => {
                let dep = self.p.depths();
                if let Some(i) = self.p.cmds.iter().position(|c| c.id() == Some("end")).filter(|i| dep[*i] == 0) {
                    self.p.cmds.remove(i);
                    self.st.remove(i);
                }
            }
            // more after the empty clause
            11 => {
                let id = self.id();
                self.insert(n, Cmd::Step(Step { id, cl: vec![tt()], rule: "true".into(), ..Step::default() }), St::Good);
            }
            // an empty clause by hole
            12 => {
                let Some(i) = self.spot(r, false) else { return };
                let id = self.id();
                self.insert(i, Cmd::Step(Step { id, rule: "hole".into(), ..Step::default() }), St::Hole);
            }
            // the empty clause derived in a subproof only
            13 | 14 => {
                let Some(e) = self.p.cmds.iter().position(|c| c.id() == Some("end")) else { return };
                if self.st[e] != St::Good {
                    return;
                }
                let Cmd::Step(s) = self.p.cmds[e].clone() else { return };
                if self.p.depths()[e] != 0 {
                    return;
                }
                let (x, h) = (self.id(), self.id());
                let mut cs = vec![
                    (Cmd::Anchor(x.clone(), vec![]), St::Good),
                    (Cmd::Assume(h.clone(), a("p'")), St::Good),
                    (Cmd::Step(s), St::Good),
                ];
                if k == 14 {
                    // ... and concluded by an inner subproof
                    let (y, z) = (self.id(), self.id());
                    cs.insert(2, (Cmd::Anchor(y.clone(), vec![]), St::Good));
                    if r.coin() {
                        let v = self.id();
                        cs.insert(3, (Cmd::Step(Step { id: v, cl: vec![tt()], rule: "true".into(), ..Step::default() }), St::Good));
                    }
                    cs.push((Cmd::Step(Step { id: y, cl: vec![], rule: "hole".into(), ..Step::default() }), St::Hole));
                    let _ = z;
                }
                cs.push((
                    Cmd::Step(Step { id: x, cl: vec![not(&a("p'")), ff()], rule: "subproof".into(), dis: vec![h], ..Step::default() }),
                    St::Good,
                ));
                self.p.cmds.remove(e);
                self.st.remove(e);
                for (i, (c, s)) in cs.into_iter().enumerate() {
                    self.insert(e + i, c, s);
                }
            }
            // a bad subproof: a closing step that may not close
            15 => {
                let Some(i) = self.spot(r, false) else { return };
                let (x, y) = (self.id(), self.id());
                let rule = *r.pick(&["true", "refl", "resolution", "cong", "trans", "lia_generic"]);
                self.insert(i, Cmd::Anchor(x.clone(), vec![]), St::Good);
                self.insert(i + 1, Cmd::Step(Step { id: y, cl: vec![tt()], rule: "true".into(), ..Step::default() }), St::Good);
                self.insert(i + 2, Cmd::Step(Step { id: x, cl: vec![tt()], rule: rule.into(), ..Step::default() }), St::Bad);
            }
            // a subproof closed by a hole or an unknown rule
            _ => {
                let Some(i) = self.spot(r, false) else { return };
                let (x, y) = (self.id(), self.id());
                let u = r.coin();
                let rule = if u { *r.pick(UNKNOWN) } else { "hole" };
                self.insert(i, Cmd::Anchor(x.clone(), vec![]), St::Good);
                self.insert(i + 1, Cmd::Step(Step { id: y, cl: vec![tt()], rule: "true".into(), ..Step::default() }), St::Good);
                let cl = if r.coin() { vec![] } else { vec![ff()] };
                self.insert(i + 2, Cmd::Step(Step { id: x, cl, rule: rule.into(), ..Step::default() }), if u { St::Unknown } else { St::Hole });
            }
        }
    }
    fn expect(&self, ignore: bool, allowed: &HashSet<String>) -> Out {
        let mut holey = false;
        for (c, s) in self.p.cmds.iter().zip(&self.st) {
            let rule = match c {
                Cmd::Step(s) => s.rule.trim_matches('|'),
                _ => "assume",
            };
            let ok = matches!(c, Cmd::Step(_)) && allowed.contains(rule);
            let fail = match s {
                _ if ok => {
                    holey = true;
                    false
                }
                St::Good => false,
                St::Hole => {
                    holey = true;
                    false
                }
                St::Unknown if ignore => {
                    holey = true;
                    false
                }
                _ => true,
            };
            if fail {
                return Out::Reject(c.id().unwrap().to_string(), rule.to_string(), String::new());
            }
        }
        let empty = self.p.toplevel().into_iter().any(|i| matches!(&self.p.cmds[i], Cmd::Step(s) if s.cl.is_empty()));
        match (empty, holey) {
            (false, _) => Out::NoEmpty,
            (true, true) => Out::Holey,
            (true, false) => Out::Valid,
        }
    }
}
pub fn run(c: &mut Ctx) {
    let d = Rc::new(decls());
    let n = c.iters(700);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let (p, _) = c07::make(r, &d, 0);
        let Some(p) = refute(&p, r) else { continue };
        let st = vec![St::Good; p.cmds.len()];
        let base = M { p, st, fresh: 0 };
        for round in 0..5 {
            let mut m = M { p: base.p.clone(), st: base.st.clone(), fresh: 0 };
            if round > 0 {
                for _ in 0..1 + r.below(3) {
                    m.edit(r, &mut c.rep);
                }
            }
            let rules: Vec<String> = m
                .p
                .cmds
                .iter()
                .filter_map(|c| match c {
                    Cmd::Step(s) => Some(s.rule.trim_matches('|').to_string()),
                    _ => None,
                })
                .collect();
            for v in 0..3 {
                let ignore = v > 0 && r.coin();
                let mut allowed: HashSet<String> = HashSet::new();
                if v > 0 && r.coin() && !rules.is_empty() {
                    for _ in 0..1 + r.below(3) {
                        allowed.insert(match r.below(5) {
                            0 => r.pick(UNKNOWN).to_string(),
                            1 => r.pick(&["hole", "assume", "anchor", "true", "Resolution"]).to_string(),
                            _ => r.pick(&rules).clone(),
                        });
                    }
                }
                let o = Opts {
                    checker: carcara::checker::Config { ignore_unknown_rules: ignore, allowed_rules: allowed.clone(), ..Default::default() },
                    ..Opts::default()
                };
                let opts = format!("ignore_unknown={} allowed={:?}", ignore, allowed);
                let text = || format!("{}\n{}", opts, m.p.text());
                crate::watch::set(text);
                let got = m.p.run(&o);
                let want = m.expect(ignore, &allowed);
                c.rep.seen(&text());
                c.rep.count(&format!("want:{}", want.kind()));
                let ok = match (&got, &want) {
                    (Out::Reject(a, _, _), Out::Reject(b, _, _)) => a == b,
                    (a, b) => a.kind() == b.kind(),
                };
                c.rep.sample(text);
                if !ok {
                    c.rep.violation(
                        &format!("verdict:{}:{}", want.kind(), got.kind()),
                        format!("expected {:?}, got {:?} ({})", want, got, opts),
                        text(),
                    );
                }
            }
        }
    }
}
