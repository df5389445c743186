//! C22: printing then parsing is the identity.
use super::Ctx;
use crate::front::*;
use crate::report::Report;
use crate::run::*;
use carcara::ast::*;
use carcara::parser;
use std::io::Cursor;

fn parse(pb: &str, pf: &str, o: &Opts, pool: &mut PrimitivePool) -> Result<(Problem, Proof), String> {
    match guarded(|| parser::parse_instance_with_pool(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), None, o.parser.clone(), pool)) {
        Ok(Ok((a, b, _))) => Ok((a, b)),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {p}")),
    }
}
pub fn print(pool: &mut PrimitivePool, pb: &Problem, pf: &Proof, sharing: bool) -> Result<String, String> {
    guarded(|| {
        let mut v = vec![];
        write_proof_to_dest(pool, &pb.prelude, pf, &mut v, sharing).map(|_| String::from_utf8(v).unwrap())
    })?
    .map_err(|e| e.to_string())
}
pub fn print_problem(pool: &mut PrimitivePool, pb: &Problem, sharing: bool) -> Result<String, String> {
    guarded(|| {
        let mut v = format!("{}", pb.prelude).into_bytes();
        write_asserts(pool, &pb.prelude, &mut v, &pb.premises.iter().cloned().collect(), sharing).map(|_| String::from_utf8(v).unwrap())
    })?
    .map_err(|e| e.to_string())
}
/// definitions as they can be reconstructed: the last one of each name
fn last_defs(p: &Proof) -> Vec<(String, Rc<Term>)> {
    let mut v: Vec<(String, Rc<Term>)> = vec![];
    for (n, t) in &p.constant_definitions {
        v.retain(|x| x.0 != *n);
        v.push((n.clone(), t.clone()));
    }
    v.sort_by(|x, y| x.0.cmp(&y.0));
    v
}
fn first_diff(a: &[ProofCommand], b: &[ProofCommand]) -> String {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return match (x, y) {
                (ProofCommand::Subproof(p), ProofCommand::Subproof(q)) => {
                    if p.args != q.args {
                        format!("anchor arguments {:?} vs {:?}", p.args, q.args)
                    } else {
                        first_diff(&p.commands, &q.commands)
                    }
                }
                _ => format!("{:?} vs {:?}", x, y),
            };
        }
    }
    format!("{} vs {} commands", a.len(), b.len())
}
pub struct What {
    /// the problem is printed and read back as well
    pub problem: bool,
    /// definitions never clash with variables
    pub defs: bool,
}
/// `None` if the original does not parse
pub fn round_trip(pb: &str, pf: &str, o: &Opts, w: &What, rep: &mut Report) -> Option<()> {
    let input = || format!("{pb}---- proof\n{pf}");
    crate::watch::set(input);
    let mut pool = PrimitivePool::new();
    let (p, f) = match parse(pb, pf, o, &mut pool) {
        Ok(x) => x,
        Err(e) => {
            rep.count("unparsed");
            let msg = e.clone();
            rep.count(&format!("unparsed:{}", msg.split('\'').next().unwrap_or("").chars().take(60).collect::<String>()));
            return None;
        }
    };
    rep.evals += 1;
    let mut bad = |sig: &str, what: String| rep.violation(sig, what, input());
    let mut plain = None;
    for sharing in [false, true] {
        let m = if sharing { "shared" } else { "unshared" };
        let t = match print(&mut pool, &p, &f, sharing) {
            Ok(t) => t,
            Err(e) => {
                bad(&format!("{m}:print"), format!("printing failed: {e}"));
                continue;
            }
        };
        // the same again, from scratch
        let mut pool2 = PrimitivePool::new();
        if let Ok((p2, f2)) = parse(pb, pf, o, &mut pool2) {
            match print(&mut pool2, &p2, &f2, sharing) {
                Ok(t2) if t2 == t => {}
                // sharing depends on what the pool holds: only a fresh start must agree
                Ok(_) if sharing => {
                    let mut pool3 = PrimitivePool::new();
                    let t3 = parse(pb, pf, o, &mut pool3).ok().and_then(|(p3, f3)| print(&mut pool3, &p3, &f3, sharing).ok());
                    let mut pool4 = PrimitivePool::new();
                    let t4 = parse(pb, pf, o, &mut pool4).ok().and_then(|(p3, f3)| print(&mut pool4, &p3, &f3, sharing).ok());
                    if t3 != t4 {
                        bad(&format!("{m}:deterministic"), "printing the same proof twice gives different texts".into());
                    }
                }
                x => bad(&format!("{m}:deterministic"), format!("printing the same proof twice gives different texts: {:?}", x.err())),
            }
        }
        // read back in the same pool: everything must be the same object
        match parse(pb, &t, o, &mut pool) {
            Err(e) => bad(&format!("{m}:reparse"), format!("printed proof does not parse: {e}\n{t}")),
            Ok((_, g)) => {
                if g.commands != f.commands {
                    bad(&format!("{m}:differs"), format!("printed proof reads back differently: {}\n{t}", first_diff(&f.commands, &g.commands)));
                }
                if w.defs && last_defs(&g) != last_defs(&f) {
                    bad(&format!("{m}:definitions"), format!("definitions read back differently: {:?} vs {:?}\n{t}", f.constant_definitions, g.constant_definitions));
                }
            }
        }
        // read back from nothing, and print again
        let mut pool3 = PrimitivePool::new();
        match parse(pb, &t, o, &mut pool3) {
            Err(e) => bad(&format!("{m}:reparse"), format!("printed proof does not parse alone: {e}\n{t}")),
            Ok((p3, f3)) => {
                let t3 = print(&mut pool3, &p3, &f3, false);
                if !sharing {
                    plain = Some(t.clone());
                }
                if plain.is_some() && t3.as_ref().ok() != plain.as_ref() {
                    bad(&format!("{m}:again"), format!("printing what was read back gives another text\n{:?}\n{:?}", plain, t3));
                }
            }
        }
    }
    if let Some(t) = plain {
        rep.distinct.insert(crate::report::hash_str(&t));
        rep.sample(|| t);
    }
    if !w.problem {
        return Some(());
    }
    let mut bad = |sig: &str, what: String| rep.violation(sig, what, input());
    for sharing in [false, true] {
        let t = match print_problem(&mut pool, &p, sharing) {
            Ok(t) => t,
            Err(e) => {
                bad("problem:print", format!("printing the problem failed: {e}"));
                continue;
            }
        };
        match parse(&t, "", o, &mut pool) {
            Err(e) => bad("problem:reparse", format!("printed problem does not parse: {e}\n{t}")),
            Ok((g, _)) => {
                let (x, y): (Vec<_>, Vec<_>) = (p.premises.iter().collect(), g.premises.iter().collect());
                if x != y {
                    let k = x.iter().zip(&y).find(|(x, y)| x != y);
                    bad("problem:differs", format!("printed problem reads back differently: {:?}\n{t}", k));
                }
                if format!("{}", p.prelude) != format!("{}", g.prelude) {
                    bad("problem:prelude", format!("printed prelude reads back differently\n{}\n{}", p.prelude, g.prelude));
                }
                // the proof still belongs to it
                match parse(&t, &print(&mut pool, &p, &f, false).unwrap_or_default(), o, &mut pool) {
                    Err(e) => bad("problem:proof", format!("printed proof does not parse with the printed problem: {e}\n{t}")),
                    Ok((_, g)) => {
                        if g.commands != f.commands {
                            bad("problem:proof", format!("the proof reads back differently with the printed problem: {}\n{t}", first_diff(&f.commands, &g.commands)));
                        }
                    }
                }
            }
        }
    }
    // single terms
    for t in p.premises.iter().take(3) {
        let s = format!("{}(assert {:#})\n", p.prelude, t);
        match parse(&s, "", o, &mut pool) {
            Err(e) => bad("term:reparse", format!("printed term does not parse: {e}\n{s}")),
            // (in a logic without integers, numerals of problems are reals, but printed decimals are too)
            Ok((g, _)) if g.premises.first() != Some(t) => bad("term:differs", format!("printed term reads back differently: {:#}\n{s}", g.premises.first().unwrap())),
            _ => {}
        }
    }
    Some(())
}
pub fn options(cx: &mut Ctx) -> parser::Config {
    let r = &mut cx.rng;
    parser::Config {
        apply_function_defs: r.coin(),
        expand_lets: r.coin(),
        allow_int_real_subtyping: r.chance(1, 6),
        strict: r.chance(1, 4),
        parse_hole_args: r.coin(),
    }
}
pub fn instance(cx: &mut Ctx) -> (Text, Opts) {
    let cfg = options(cx);
    let mut sig = Sig::random(&mut cx.rng);
    sig.gmp = cx.rng.coin();
    sig.strict = cfg.strict;
    sig.sub = cfg.allow_int_real_subtyping;
    sig.named = true;
    if cx.rng.chance(1, 8) {
        sig.lra = true;
        sig.sorts.clear();
        sig.funs.clear();
        for n in names(&mut cx.rng, 4) {
            let t = sig.sort(&mut cx.rng, 0);
            sig.funs.push((n, vec![], t));
        }
    }
    let sh = Shape { defs: cx.rng.coin(), hole_args: cfg.parse_hole_args, steps: 1 + cx.rng.below(12) };
    let (t, heads) = text(&mut cx.rng, sig, &sh);
    for (k, v) in heads {
        cx.rep.add(&format!("op:{k}"), v);
    }
    (t, Opts { parser: cfg, ..Opts::default() })
}
pub fn run(cx: &mut Ctx) {
    for _ in 0..cx.iters(2500) {
        if cx.late() {
            return;
        }
        let (t, o) = instance(cx);
        let w = What { problem: true, defs: true };
        if round_trip(&t.problem, &t.proof, &o, &w, &mut cx.rep).is_none() {
            cx.rep.count("generated-unparsed");
        }
    }
    cx.workloads(super::c17::ALL, 150, |_, pb, pf, o, out, rep| {
        if !matches!(out, Out::ParseErr(_)) {
            let o = Opts { parser: o.parser.clone(), ..Opts::default() };
            round_trip(pb, pf, &o, &What { problem: false, defs: false }, rep);
        }
    });
}
