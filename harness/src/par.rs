//! Running the parallel checker: official and hand-made schedules, observation of schedules.
use crate::rng::Rng;
use crate::run::*;
use carcara::ast::{PrimitivePool, Problem, Proof, ProofCommand};
use carcara::checker::{CheckerStatistics, ParallelProofChecker, Scheduler};
use carcara::{ast::rare_rules::Rules, benchmarking::OnlineBenchmarkResults, parser};
use std::io::Cursor;
use std::sync::Arc;
use std::time::Duration;

pub struct Inst {
    pub problem: Problem,
    pub proof: Proof,
    pub rules: Rules,
    pub pool: Arc<PrimitivePool>,
}
pub fn load(pb: &str, pf: &str, o: &Opts) -> Result<Inst, Out> {
    match guarded(|| {
        parser::parse_instance(
            Cursor::new(pb.to_string()),
            Cursor::new(pf.to_string()),
            o.rules.clone().map(Cursor::new),
            o.parser.clone(),
        )
    }) {
        Ok(Ok((problem, proof, rules, pool))) => Ok(Inst { problem, proof, rules, pool: Arc::new(pool) }),
        Ok(Err(e)) => Err(Out::ParseErr(e.to_string())),
        Err(p) => Err(Out::Panic(p)),
    }
}
/// the schedule of the real scheduler, and its context usage
pub fn official(i: &Inst, n: usize) -> Result<(Scheduler, Vec<usize>), String> {
    guarded(|| Scheduler::new(n, &i.proof))
}
/// Any assignment of the commands to threads: each thread gets the anchors it needs.
pub fn arbitrary(i: &Inst, n: usize, r: &mut Rng) -> (Scheduler, Vec<usize>) {
    let mut s = Scheduler { loads: vec![Default::default(); n] };
    let mut usage = vec![];
    // runs of commands stay together with this chance
    let stick = r.below(8) as u32;
    let mut cur = r.below(n);
    #[allow(clippy::too_many_arguments)]
    fn walk(
        cmds: &[ProofCommand],
        path: &mut Vec<(usize, usize, usize)>,
        open: &mut Vec<Vec<bool>>,
        s: &mut Scheduler,
        usage: &mut Vec<usize>,
        r: &mut Rng,
        stick: u32,
        cur: &mut usize,
    ) {
        let depth = path.len();
        let n = s.loads.len();
        for (k, c) in cmds.iter().enumerate() {
            if let ProofCommand::Subproof(sp) = c {
                if usage.len() <= sp.context_id {
                    usage.resize(sp.context_id + 1, 0);
                }
                path.push((depth, k, sp.context_id));
                open.push(vec![false; n]);
                walk(&sp.commands, path, open, s, usage, r, stick, cur);
                path.pop();
                let o = open.pop().unwrap();
                for (t, o) in o.iter().enumerate() {
                    if *o {
                        s.loads[t].push((depth + 1, usize::MAX));
                    }
                }
            } else {
                if !r.chance(stick, 8) {
                    *cur = r.below(n);
                }
                for (lvl, (d, k, ctx)) in path.iter().enumerate() {
                    if !open[lvl][*cur] {
                        open[lvl][*cur] = true;
                        s.loads[*cur].push((*d, *k));
                        usage[*ctx] += 1;
                    }
                }
                s.loads[*cur].push((depth, k));
            }
        }
    }
    walk(&i.proof.commands, &mut vec![], &mut vec![], &mut s, &mut usage, r, stick, &mut cur);
    for l in &mut s.loads {
        if l.last().is_some() {
            l.push((0, usize::MAX));
        }
    }
    (s, usage)
}
pub fn run(i: &Inst, sch: &(Scheduler, Vec<usize>), o: &Opts, stats: bool) -> Out {
    classify(guarded(|| {
        let mut c = ParallelProofChecker::new(i.pool.clone(), o.checker.clone(), &i.problem.prelude, &sch.1, 16 << 20, i.rules.clone());
        if stats {
            let mut st = CheckerStatistics {
                file_name: "",
                polyeq_time: Duration::ZERO,
                assume_time: Duration::ZERO,
                assume_core_time: Duration::ZERO,
                results: OnlineBenchmarkResults::new(),
            };
            c.check_with_stats(&i.problem, &i.proof, &sch.0, &mut st)
        } else {
            c.check(&i.problem, &i.proof, &sch.0)
        }
    }))
}
