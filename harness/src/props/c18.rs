//! What the real scheduler hands to each thread.
use super::c28::decls;
use super::Ctx;
use crate::par;
use crate::proof::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use carcara::ast::ProofCommand;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

struct At {
    depth: usize,
    order: usize,
    /// the commands of every enclosing list, outermost first
    lists: Vec<*const ProofCommand>,
    parent: Option<usize>,
    last: bool,
    ctx: Option<usize>,
}
fn index<'a>(
    cmds: &'a [ProofCommand],
    lists: &mut Vec<*const ProofCommand>,
    parent: Option<usize>,
    all: &mut Vec<&'a ProofCommand>,
    at: &mut HashMap<*const ProofCommand, At>,
) {
    lists.push(cmds.as_ptr());
    for (k, c) in cmds.iter().enumerate() {
        let order = all.len();
        all.push(c);
        let ctx = match c {
            ProofCommand::Subproof(s) => Some(s.context_id),
            _ => None,
        };
        let depth = lists.len() - 1;
        at.insert(c as *const _, At { depth, order, lists: lists.clone(), parent, last: k + 1 == cmds.len(), ctx });
        if let ProofCommand::Subproof(s) = c {
            index(&s.commands, lists, Some(order), all, at);
        }
    }
    lists.pop();
}
pub fn judge(i: &par::Inst, n: usize, rep: &mut Report) -> Result<String, String> {
    let (s, usage) = par::official(i, n)?;
    let (mut all, mut at) = (vec![], HashMap::new());
    index(&i.proof.commands, &mut vec![], None, &mut all, &mut at);
    let mut done = vec![0usize; all.len()];
    let nsub = at.values().filter(|x| x.ctx.is_some()).count();
    let mut opened = vec![0usize; nsub];
    if s.loads.len() != n {
        return Err(format!("{} schedules for {n} threads", s.loads.len()));
    }
    let mut shape = String::new();
    for (t, load) in s.loads.iter().enumerate() {
        let mut it = load.iter(&i.proof.commands);
        let mut prev: Option<usize> = None;
        let mut seen: Vec<usize> = vec![];
        let mut steps = 0;
        while let Some(c) = it.next() {
            let Some(a) = at.get(&(c as *const _)) else { return Err(format!("thread {t} got a command that is not part of the proof")) };
            let name = || format!("thread {t}, command {} ({})", a.order, c.id());
            if prev.is_some_and(|p| p >= a.order) {
                return Err(format!("{}: after command {}", name(), prev.unwrap()));
            }
            prev = Some(a.order);
            rep.count("commands-scheduled");
            // the contexts around it have been opened by this thread, and only those are open
            let mut p = a.parent;
            while let Some(q) = p {
                if !seen.contains(&q) {
                    return Err(format!("{}: the subproof at command {q} was not opened", name()));
                }
                p = at[&(all[q] as *const _)].parent;
            }
            match c {
                ProofCommand::Subproof(sp) => {
                    if it.depth() != a.depth + 1 {
                        return Err(format!("{}: opened at depth {} instead of {}", name(), it.depth(), a.depth + 1));
                    }
                    if it.current_subproof().map(|x| x.as_ptr()) != Some(sp.commands.as_ptr()) {
                        return Err(format!("{}: another subproof is current after opening", name()));
                    }
                    if sp.context_id >= nsub {
                        return Err(format!("{}: context id {} of {nsub}", name(), sp.context_id));
                    }
                    opened[sp.context_id] += 1;
                    seen.push(a.order);
                }
                _ => {
                    steps += 1;
                    done[a.order] += 1;
                    if it.depth() != a.depth {
                        return Err(format!("{}: at depth {} instead of {}", name(), it.depth(), a.depth));
                    }
                    if it.is_in_subproof() != (a.depth > 0) || it.is_end_step() != (a.depth > 0 && a.last) {
                        return Err(format!("{}: in a subproof: {}, its end: {}", name(), it.is_in_subproof(), it.is_end_step()));
                    }
                    let cur = it.current_subproof().map(|x| x.as_ptr());
                    if cur != (a.depth > 0).then(|| a.lists[a.depth]) {
                        return Err(format!("{}: the current subproof is another one", name()));
                    }
                    // whatever may be referred to resolves to the right command
                    for (d, list) in a.lists.iter().enumerate() {
                        let got = it.get_premise((d, 0)) as *const ProofCommand;
                        if got != *list {
                            return Err(format!("{}: level {d} of the proof stack is another subproof", name()));
                        }
                    }
                    if let ProofCommand::Step(st) = c {
                        for &(d, k) in st.premises.iter().chain(&st.discharge) {
                            // SAFETY-free check by address: element k of the list at level d
                            let want = a.lists[d].wrapping_add(k);
                            if it.get_premise((d, k)) as *const ProofCommand != want {
                                return Err(format!("{}: premise ({d}, {k}) is another command", name()));
                            }
                        }
                    }
                }
            }
        }
        shape.push_str(&format!("{steps},"));
    }
    for (k, c) in all.iter().enumerate() {
        let want = if matches!(c, ProofCommand::Subproof(_)) { 0 } else { 1 };
        if done[k] != want {
            return Err(format!("command {k} ({}) is checked {} times", c.id(), done[k]));
        }
    }
    if usage != opened {
        return Err(format!("context usage {usage:?}, but the contexts are opened {opened:?} times"));
    }
    Ok(shape)
}
/// any tree of subproofs, any weights
fn tree(r: &mut Rng) -> Prf {
    let d = Rc::new(decls());
    let mut p = Prf::new(&d);
    let mut next = 0;
    let deep = r.chance(1, 4);
    let max = if r.chance(1, 10) { 300 } else { 40 };
    let size = 1 + r.below(max);
    let mut open: Vec<(String, usize)> = vec![];
    let mut ids: Vec<Vec<String>> = vec![vec![]];
    let rules = ["hole", "true", "la_generic", "qnt_cnf", "resolution", "refl", "nosuch", "xor_neg1", "strict_resolution"];
    let one = r.chance(1, 4).then(|| *r.pick(&rules));
    let mut budget = size;
    while budget > 0 || !open.is_empty() {
        budget = budget.saturating_sub(1);
        let k = r.below(10);
        if budget > 0 && (k < 2 || deep && k < 5) && open.len() < 40 {
            next += 1;
            let id = format!("a{next}");
            let args = if r.coin() { vec![AArg::Var(format!("v{next}"), super::c28::u())] } else { vec![] };
            p.cmds.push(Cmd::Anchor(id.clone(), args));
            open.push((id, 0));
            ids.push(vec![]);
            if r.chance(1, 3) {
                next += 1;
                let h = format!("h{next}");
                p.cmds.push(Cmd::Assume(h.clone(), tt()));
                ids.last_mut().unwrap().push(h);
                open.last_mut().unwrap().1 += 1;
            }
            continue;
        }
        if !open.is_empty() && (k > 6 || budget == 0) {
            let (id, n) = open.last().unwrap().clone();
            // at least one command before the last step
            if n > 0 || r.coin() {
                open.pop();
                let own = ids.pop().unwrap();
                let prems = own.iter().filter(|_| r.chance(1, 4)).cloned().collect();
                p.cmds.push(Cmd::Step(Step { id: id.clone(), cl: vec![tt()], rule: "hole".into(), prems, ..Step::default() }));
                ids.last_mut().unwrap().push(id);
                if let Some(o) = open.last_mut() {
                    o.1 += 1;
                }
                continue;
            }
        }
        next += 1;
        let id = format!("s{next}");
        let seen: Vec<String> = ids.iter().flatten().cloned().collect();
        let mut prems = vec![];
        if !seen.is_empty() {
            for _ in 0..r.below(4) {
                prems.push(r.pick(&seen).clone());
            }
        }
        let rule = one.unwrap_or_else(|| *r.pick(&rules));
        p.cmds.push(Cmd::Step(Step { id: id.clone(), cl: vec![tt()], rule: rule.into(), prems, ..Step::default() }));
        ids.last_mut().unwrap().push(id);
        if let Some(o) = open.last_mut() {
            o.1 += 1;
        }
    }
    p
}
fn each(r: &mut Rng, rep: &mut Report, pb: &str, pf: &str, o: &Opts, runs: usize) {
    let i = match par::load(pb, pf, o) {
        Ok(i) => i,
        Err(e) => {
            rep.count(&format!("not-parsed:{}", e.kind()));
            return;
        }
    };
    for k in 0..runs {
        let n = if k == 0 { 1 + r.below(4) } else { 1 + r.below(64) };
        let text = format!("threads={n}\n{pb}\n---- proof\n{pf}");
        crate::watch::set(|| text.clone());
        rep.seen(&text);
        match judge(&i, n, rep) {
            Ok(shape) => {
                rep.count(&format!("threads-used:{}", shape.split(',').filter(|x| !x.is_empty() && *x != "0").count().min(20)));
                rep.sample(|| format!("{n} threads, steps per thread {shape}\n{pf}"));
            }
            Err(e) => {
                rep.violation("schedule", format!("{n} threads: {e}"), text);
                return;
            }
        }
    }
}
pub fn run(c: &mut Ctx) {
    let n = c.iters(1500);
    for _ in 0..n {
        if c.late() {
            break;
        }
        let p = if c.rng.chance(1, 5) { super::c17::nest(&mut c.rng) } else { tree(&mut c.rng) };
        each(&mut c.rng, &mut c.rep, &p.problem(), &p.proof(), &Opts::default(), 6);
    }
    let r = RefCell::new(Rng::new(c.rng.next()));
    c.workloads(&["C07", "C14", "C15", "C01", "C16"], 250, move |_, pb, pf, o, _, rep| each(&mut r.borrow_mut(), rep, pb, pf, o, 3));
}
