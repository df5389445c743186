//! C23: slicing isolates a step faithfully.
use super::c20::{check_proof, mixed, site};
use super::c22::print;
use super::Ctx;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use carcara::ast::*;
use carcara::{parser, slice};
use std::collections::{HashMap, HashSet};
use std::io::Cursor;

/// A command with everything that identifies it independently of where it is.
struct Node {
    /// ids of the enclosing subproofs and of the command
    key: Vec<String>,
    assume: bool,
    clause: Vec<Rc<Term>>,
    rule: String,
    args: Vec<Rc<Term>>,
    prems: Vec<usize>,
    dis: Vec<usize>,
    prev: Option<usize>,
    /// anchors around it, from the outside
    anchors: Vec<Vec<AnchorArg>>,
    /// the ends of the enclosing subproofs, from the outside
    ends: Vec<usize>,
}

fn flatten(cs: &[ProofCommand]) -> Result<Vec<Node>, String> {
    fn go(cs: &[ProofCommand], path: &mut Vec<String>, anchors: &mut Vec<Vec<AnchorArg>>, frames: &mut Vec<Vec<usize>>, out: &mut Vec<Node>) -> Result<(), String> {
        for (i, c) in cs.iter().enumerate() {
            let find = |&(d, j): &(usize, usize)| {
                if d + 1 == frames.len() && j >= i {
                    return Err(format!("{} refers forward", c.id()));
                }
                frames.get(d).and_then(|f| f.get(j)).copied().ok_or(format!("{} refers to nothing at {d},{j}", c.id()))
            };
            let mut key = path.clone();
            key.push(c.id().to_string());
            match c {
                ProofCommand::Subproof(s) => {
                    path.push(c.id().to_string());
                    anchors.push(s.args.clone());
                    frames.push(vec![]);
                    go(&s.commands, path, anchors, frames, out)?;
                    let last = frames.pop().unwrap();
                    path.pop();
                    anchors.pop();
                    frames.last_mut().unwrap().push(*last.last().ok_or("empty subproof")?);
                }
                ProofCommand::Assume { term, .. } => {
                    out.push(Node { key, assume: true, clause: vec![term.clone()], rule: String::new(), args: vec![], prems: vec![], dis: vec![], prev: None, anchors: anchors.clone(), ends: vec![] });
                    let n = out.len() - 1;
                    frames.last_mut().unwrap().push(n);
                }
                ProofCommand::Step(s) => {
                    let prems = s.premises.iter().map(find).collect::<Result<_, _>>()?;
                    let dis = s.discharge.iter().map(find).collect::<Result<_, _>>()?;
                    let end = frames.len() > 1 && i + 1 == cs.len();
                    let prev = if end { Some(*frames.last().unwrap().last().ok_or("no previous step")?) } else { None };
                    if end {
                        key.pop();
                    }
                    out.push(Node { key, assume: false, clause: s.clause.clone(), rule: s.rule.clone(), args: s.args.clone(), prems, dis, prev, anchors: anchors.clone(), ends: vec![] });
                    let n = out.len() - 1;
                    frames.last_mut().unwrap().push(n);
                }
            }
        }
        Ok(())
    }
    let mut out = vec![];
    go(cs, &mut vec![], &mut vec![], &mut vec![vec![]], &mut out)?;
    let at: HashMap<Vec<String>, usize> = out.iter().enumerate().map(|(i, n)| (n.key.clone(), i)).collect();
    if at.len() != out.len() {
        return Err("commands with the same name in the same place".into());
    }
    for i in 0..out.len() {
        let k = out[i].key.clone();
        // an end step has the key of its subproof, but is inside it
        let n = out[i].anchors.len();
        out[i].ends = (1..=n).map(|j| at[&k[..j]]).collect();
    }
    Ok(out)
}

fn distances(ns: &[Node], from: usize) -> HashMap<usize, usize> {
    let mut d = HashMap::from([(from, 0)]);
    let mut todo = std::collections::VecDeque::from([from]);
    while let Some(i) = todo.pop_front() {
        for &j in ns[i].prems.iter().chain(&ns[i].dis).chain(&ns[i].prev) {
            if !d.contains_key(&j) {
                d.insert(j, d[&i] + 1);
                todo.push_back(j);
            }
        }
    }
    d
}

fn judge(old: &[Node], target: usize, dist: usize, new: &[Node], asserts: &[Rc<Term>]) -> Result<(usize, usize), (String, String)> {
    let bad = |s: &str, w: String| Err((s.to_string(), w));
    let name = |n: &Node| n.key.join("/");
    let all = new;
    let Some((end, new)) = new.split_last() else { return bad("empty", String::new()) };
    if !end.clause.is_empty() || end.rule != "hole" || end.key.len() != 1 || end.prems.is_empty() {
        return bad("end", format!("the last step is {} {:?}", end.rule, end.clause));
    }
    let at: HashMap<&[String], usize> = old.iter().enumerate().map(|(i, n)| (&n.key[..], i)).collect();
    let now: HashMap<&[String], &Node> = new.iter().map(|n| (&n.key[..], n)).collect();
    let keys = |ns: &[Node], v: &[usize]| -> Vec<Vec<String>> { v.iter().map(|&i| ns[i].key.clone()).collect() };
    let d = distances(old, target);
    let mut same = HashSet::new();
    for n in new {
        let Some(&i) = at.get(&n.key[..]) else { return bad("made-up", format!("{} is not in the proof", name(n))) };
        let o = &old[i];
        if n.assume != o.assume || n.clause != o.clause || n.anchors != o.anchors && o.prev.is_none() {
            return bad("changed", format!("{} changed", name(n)));
        }
        let prev = |ns: &[Node], n: &Node| n.prev.map(|p| ns[p].key.clone());
        if n.assume || n.rule == o.rule && n.args == o.args && keys(new, &n.prems) == keys(old, &o.prems) && keys(new, &n.dis) == keys(old, &o.dis) && prev(new, n) == prev(old, o) && n.anchors == o.anchors {
            same.insert(i);
        } else if n.rule != "hole" {
            return bad("changed", format!("{} ({}) has other premises, arguments or discharged assumptions", name(n), n.rule));
        }
    }
    for (&i, &k) in &d {
        if k <= dist && !same.contains(&i) {
            return bad("missing", format!("{} at distance {k} is not kept as it is", name(&old[i])));
        }
        if k <= dist.saturating_add(1) && !now.contains_key(&old[i].key[..]) {
            return bad("missing", format!("{} at distance {k} is missing", name(&old[i])));
        }
    }
    for e in &old[target].ends {
        if !same.contains(e) {
            return bad("context", format!("the subproof {} around the step is not kept", name(&old[*e])));
        }
    }
    // nothing else is kept as a real step
    if let Some(&i) = same.iter().find(|&i| !old[*i].assume && old[*i].rule != "hole" && !old[target].ends.contains(i) && !d.get(i).is_some_and(|k| *k <= dist)) {
        return bad("extra", format!("{} ({}) is kept although it is not within the distance", name(&old[i]), old[i].rule));
    }
    // the step is still used, so that what only keeps used steps keeps it
    let used = distances(all, all.len() - 1);
    if !used.keys().any(|&i| all[i].key == old[target].key) {
        return bad("unused", format!("the last step of the slice does not depend on {}", name(&old[target])));
    }
    let tops: Vec<_> = new.iter().filter(|n| n.assume && n.key.len() == 1).map(|n| n.clause[0].clone()).collect();
    if tops != asserts {
        return bad("asserts", format!("assumptions {tops:?}, sliced problem asserts {asserts:?}"));
    }
    Ok((same.len(), new.len()))
}

pub fn try_slices(pb: &str, pf: &str, o: &Opts, orig: &Out, n: usize, r: &mut Rng, rep: &mut Report) {
    let loaded = guarded(|| {
        parser::parse_instance(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), o.rules.clone().map(Cursor::new), o.parser.clone())
    });
    let Ok(Ok((problem, proof, rules, mut pool))) = loaded else {
        return;
    };
    let Ok(old) = flatten(&proof.commands) else {
        rep.count("not flattened");
        return;
    };
    let mut first: HashMap<&str, usize> = HashMap::new();
    let mut count: HashMap<&str, usize> = HashMap::new();
    for (i, nd) in old.iter().enumerate() {
        // the command found for an id is the first one; subproofs start at their anchor
        let id = nd.key.last().unwrap().as_str();
        first.entry(id).or_insert(i);
        *count.entry(id).or_default() += 1;
    }
    let failing = if let Out::Reject(s, rule, _) = orig { Some((s.clone(), rule.clone())) } else { None };
    for _ in 0..n {
        let id = match &failing {
            Some((s, _)) => s.clone(),
            None if r.chance(1, 12) => "no-such-step".into(),
            None => old[r.below(old.len())].key.last().unwrap().clone(),
        };
        if count.get(id.as_str()).is_some_and(|c| *c > 1) {
            rep.count("ambiguous id");
            if failing.is_some() {
                return;
            }
            continue;
        }
        let dist = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 7, 1000, usize::MAX]);
        let input = || format!("{pb}---- proof\n{pf}---- slice at {id}, distance {dist}{}", o.rules.clone().map(|r| format!("\n---- rules\n{r}")).unwrap_or_default());
        crate::watch::set(input);
        rep.evals += 1;
        macro_rules! bad {
            ($sig:expr, $what:expr) => {{
                rep.violation($sig, $what, input());
                continue;
            }};
        }
        let target = first.get(id.as_str()).copied();
        let sliceable = target.is_some_and(|t| !old[t].assume);
        let got = match guarded(|| slice::slice(&proof, &id, &mut pool, dist)) {
            Err(p) => bad!(&format!("panic:{}", site(&p)), format!("slicing panics: {p}")),
            Ok(g) => g,
        };
        let (sliced, asserts) = match (got, sliceable) {
            (None, false) => {
                rep.count("refused");
                continue;
            }
            (Some(_), false) => bad!("sliced", format!("{id} is not a step, but it was sliced")),
            (None, true) => bad!("refused", format!("{id} is a step, but it can't be sliced")),
            (Some(x), true) => x,
        };
        let text = print(&mut pool, &problem, &sliced, false).unwrap_or_default();
        let new = match flatten(&sliced.commands) {
            Err(e) => bad!("malformed", format!("malformed slice: {e}\n{text}")),
            Ok(n) => n,
        };
        let target = target.unwrap();
        match judge(&old, target, dist, &new, &asserts) {
            Err((s, w)) => bad!(&s, format!("{w}\n{text}")),
            Ok((kept, all)) => {
                rep.add("steps kept as they are", kept as u64);
                rep.add("steps in slices", all as u64);
                rep.count(&format!("depth {}", old[target].ends.len()));
            }
        }
        // as the command line tool writes them
        let sliced_problem = {
            let mut v = format!("{}", problem.prelude).into_bytes();
            match guarded(|| write_asserts(&mut pool, &problem.prelude, &mut v, &asserts, false)) {
                Ok(Ok(_)) => String::from_utf8(v).unwrap(),
                e => bad!("print", format!("the sliced problem can not be printed: {e:?}")),
            }
        };
        let sharing = r.coin();
        let sliced_text = match print(&mut pool, &problem, &sliced, sharing) {
            Ok(t) => t,
            Err(e) => bad!("print", format!("the slice can not be printed: {e}")),
        };
        let direct_problem = Problem { prelude: problem.prelude.clone(), premises: asserts.iter().cloned().collect() };
        let direct = check_proof(&mut pool, &rules, &direct_problem, &sliced, &o.checker);
        let printed = check_plain(&sliced_problem, &sliced_text, o);
        for (how, v) in [("direct", direct), ("printed", printed)] {
            match (&failing, &v) {
                (None, Out::Holey) => rep.count(&format!("{how}:accepted")),
                (Some((s, rule)), Out::Reject(s2, rule2, _)) if s == s2 && rule == rule2 => rep.count(&format!("{how}:rejected")),
                (None, _) => rep.violation(&format!("{how}:{}", v.kind()), format!("was {}, the slice {v:?}\n{sliced_problem}{sliced_text}", orig.kind()), input()),
                (Some(_), _) => rep.violation(&format!("{how}:other"), format!("was {orig:?}, the slice {v:?}\n{sliced_problem}{sliced_text}"), input()),
            }
        }
        if rep.distinct.insert(crate::report::hash_str(&sliced_text)) {
            rep.sample(|| format!("{id} {dist}\n{sliced_text}"));
        }
    }
}

/// steps that use their predecessors several times
fn chain(r: &mut Rng) -> (String, String) {
    let n = 30 + r.below(60);
    let mut s = String::from("(step t0 (cl p) :rule hole)\n");
    for i in 1..n {
        let prems: Vec<String> = (0..2 + r.below(3)).map(|_| format!("t{}", i - 1 - r.below(i.min(3)))).collect();
        s += &format!("(step t{i} (cl p) :rule hole :premises ({}))\n", prems.join(" "));
    }
    s += &format!("(step end (cl) :rule hole :premises (t{}))\n", n - 1);
    ("(set-logic ALL)\n(declare-fun p () Bool)\n".into(), s)
}

pub fn run(cx: &mut Ctx) {
    let n = cx.iters(2500);
    for i in 0..n {
        if cx.late() {
            break;
        }
        let (pb, pf) = if i % 60 == 0 { chain(&mut cx.rng) } else { mixed(&mut cx.rng) };
        let o = Opts::default();
        let out = check_plain(&pb, &pf, &o);
        cx.rep.count(&format!("mixed:{}", out.kind()));
        if !out.accepted() {
            continue;
        }
        let mut r = Rng::new(cx.rng.next());
        try_slices(&pb, &pf, &o, &out, 4, &mut r, &mut cx.rep);
    }
    let mut r = Rng::new(cx.rng.next());
    cx.workloads(super::c17::ALL, 200, move |name, pb, pf, o, out, rep| {
        match out {
            Out::Valid | Out::Holey => {
                rep.count(&format!("accepted:{name}"));
                try_slices(pb, pf, o, out, 3, &mut r, rep)
            }
            Out::Reject(s, rule, _) if rule != "assume" && !s.is_empty() => {
                rep.count(&format!("rejected:{name}"));
                try_slices(pb, pf, o, out, 1, &mut r, rep)
            }
            _ => (),
        }
    });
}
