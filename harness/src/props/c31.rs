//! C31: statistics say what was done, however they are collected.
use super::Ctx;
use crate::cli;
use crate::par;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use carcara::ast::*;
use carcara::benchmarking::*;
use carcara::checker::{CheckerStatistics, ParallelProofChecker, ProofChecker};
use rug::{Integer, Rational};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc as StdRc;
use std::time::{Duration, Instant};

// ---- samples ----
/// a unit of measurement in which samples are whole
trait Unit: MetricsUnit + std::fmt::Debug {
    const NAME: &'static str;
    /// one unit, as seen through `as_f64`
    const SIZE: f64;
    fn make(r: &mut Rng) -> (i128, Self);
    fn whole(&self) -> i128;
    /// means and deviations, in units
    fn mean_units(m: &Self::MeanType) -> f64 {
        m.as_f64() / Self::SIZE
    }
}
fn magnitude(r: &mut Rng) -> u64 {
    let bits = *r.pick(&[1, 4, 10, 20, 30, 40]);
    r.next() >> (64 - bits)
}
impl Unit for Duration {
    const NAME: &'static str = "Duration";
    const SIZE: f64 = 1e-9;
    fn make(r: &mut Rng) -> (i128, Self) {
        let n = magnitude(r);
        (n as i128, Duration::from_nanos(n))
    }
    fn whole(&self) -> i128 {
        self.as_nanos() as i128
    }
}
impl Unit for usize {
    const NAME: &'static str = "usize";
    const SIZE: f64 = 1.0;
    fn make(r: &mut Rng) -> (i128, Self) {
        let n = magnitude(r) as usize;
        (n as i128, n)
    }
    fn whole(&self) -> i128 {
        *self as i128
    }
}
impl Unit for f64 {
    const NAME: &'static str = "f64";
    const SIZE: f64 = 1.0 / 64.0;
    fn make(r: &mut Rng) -> (i128, Self) {
        let n = magnitude(r) as i64 * if r.coin() { 1 } else { -1 };
        (n as i128, n as f64 / 64.0)
    }
    fn whole(&self) -> i128 {
        (*self * 64.0) as i128
    }
}
/// the values all kinds of metrics must have
struct Truth {
    n: usize,
    total: i128,
    max: i128,
    min: i128,
    mean: f64,
    dev: f64,
    big: f64,
}
fn truth(v: &[i128]) -> Truth {
    let n = v.len();
    let total: i128 = v.iter().sum();
    let mean = Rational::from((Integer::from(total), Integer::from(n as u64)));
    let mut sq = Rational::new();
    for x in v {
        let d = Rational::from(Integer::from(*x)) - &mean;
        sq += Rational::from(&d * &d);
    }
    let var = sq / Integer::from(std::cmp::max(2, n) as u64 - 1);
    Truth {
        n,
        total,
        max: *v.iter().max().unwrap(),
        min: *v.iter().min().unwrap(),
        mean: mean.to_f64(),
        dev: var.to_f64().sqrt(),
        big: v.iter().map(|x| x.unsigned_abs() as f64).fold(0.0, f64::max),
    }
}
fn right<K, T: Unit, M: Metrics<K, T>>(m: &M, t: &Truth) -> Result<(), String> {
    if m.is_empty() {
        return Err("is empty".into());
    }
    if m.count() != t.n {
        return Err(format!("counts {} samples instead of {}", m.count(), t.n));
    }
    if m.total().whole() != t.total {
        return Err(format!("the total is {:?} instead of {} units", m.total(), t.total));
    }
    if m.max().1.whole() != t.max || m.min().1.whole() != t.min {
        return Err(format!("the extremes are {:?} and {:?} instead of {} and {} units", m.max().1, m.min().1, t.max, t.min));
    }
    // durations are rounded to nanoseconds
    let mean = T::mean_units(&m.mean());
    if (mean - t.mean).abs() > 1.0 + 1e-9 * t.big {
        return Err(format!("the mean is {mean} instead of {} units", t.mean));
    }
    let dev = T::mean_units(&m.standard_deviation());
    if !((dev - t.dev).abs() <= 20.0 + 1e-6 * t.big) {
        return Err(format!("the standard deviation is {dev} instead of {} units", t.dev));
    }
    Ok(())
}
/// merges neighbours in a random order
fn merge<X>(r: &mut Rng, mut v: Vec<X>, f: impl Fn(X, X) -> X) -> X {
    while v.len() > 1 {
        let i = r.below(v.len() - 1);
        let b = v.remove(i + 1);
        let a = v.remove(i);
        v.insert(i, f(a, b));
    }
    v.pop().unwrap()
}
fn samples<T: Unit>(r: &mut Rng, rep: &mut Report) {
    let n = *r.pick(&[1, 2, 3, 4, 5, 7, 20, 100, 1000]);
    let mut base: Vec<(i128, T)> = (0..1 + r.below(n)).map(|_| T::make(r)).collect();
    if r.chance(1, 6) {
        base.truncate(1);
    }
    // ties
    let v: Vec<(i128, T)> = (0..n).map(|i| if r.chance(3, 4) && i < base.len() { base[i] } else { *r.pick(&base) }).collect();
    let groups = 1 + r.below(8);
    let mut on: Vec<OnlineMetrics<usize, T>> = (0..groups).map(|_| OnlineMetrics::new()).collect();
    let mut off: Vec<OfflineMetrics<usize, T>> = (0..groups).map(|_| OfflineMetrics::new()).collect();
    let solo = r.chance(1, 4);
    let mut at = vec![];
    for (i, (_, x)) in v.iter().enumerate() {
        let g = if solo && i + 1 < groups { i } else { r.below(groups) };
        on[g].add_sample(&i, *x);
        off[g].add_sample(&i, *x);
        at.push(g);
    }
    let sizes: Vec<usize> = (0..groups).map(|g| at.iter().filter(|x| **x == g).count()).collect();
    let t = truth(&v.iter().map(|x| x.0).collect::<Vec<_>>());
    let on = merge(r, on, |a, b| a.combine(b));
    let mut off = merge(r, off, |a, b| a.combine(b));
    let input = || format!("{} samples {:?} in groups {:?}", T::NAME, v.iter().map(|x| x.0).collect::<Vec<_>>(), at);
    rep.evals += 1;
    rep.distinct.insert(crate::report::hash_str(&input()));
    rep.count(&format!("samples:{}", T::NAME));
    rep.count(&format!("groups with 0, 1, more samples: {}, {}, {}", sizes.iter().any(|x| *x == 0), sizes.iter().any(|x| *x == 1), sizes.iter().any(|x| *x > 1)));
    for (what, x) in [("online", right(&on, &t)), ("offline", right(&off, &t))] {
        if let Err(e) = x {
            rep.violation(&format!("metrics:{what}"), format!("{what} metrics over {}: {e}", T::NAME), input());
        }
    }
    for (what, k) in [("online max", on.max()), ("online min", on.min()), ("offline max", off.max()), ("offline min", off.min())] {
        if v[k.0].1 != k.1 {
            rep.violation("metrics:key", format!("the key of the {what} is that of another sample"), input());
        }
    }
    let mut s: Vec<i128> = v.iter().map(|x| x.0).collect();
    s.sort();
    let q = off.quartiles().map(|x| x.1.whole());
    if q != [n / 20, n / 4, n / 2, n * 3 / 4, n * 19 / 20].map(|i| s[i]) {
        rep.violation("metrics:quartiles", format!("quartiles {q:?}"), input());
    }
}

// ---- recorded events ----
#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Step(String, String, String, Duration),
    Assume(String, String, bool, Duration),
    Depth(usize),
    Run(String, usize, Meas),
    Holey,
    Error,
}
#[derive(Debug, Clone, PartialEq, Default)]
struct Meas([Duration; 8], Vec<Duration>);
impl Meas {
    fn real(&self) -> RunMeasurement {
        let [parsing, checking, elaboration, scheduling, total, polyeq, assume, assume_core] = self.0;
        RunMeasurement { parsing, checking, elaboration, scheduling, total, polyeq, assume, assume_core, elaboration_pipeline: self.1.clone() }
    }
    fn of(m: &RunMeasurement) -> Self {
        Meas([m.parsing, m.checking, m.elaboration, m.scheduling, m.total, m.polyeq, m.assume, m.assume_core], m.elaboration_pipeline.clone())
    }
}
/// remembers every event
#[derive(Default)]
struct Rec(Vec<Ev>);
impl CollectResults for Rec {
    fn add_step_measurement(&mut self, f: &str, i: &str, r: &str, t: Duration) {
        self.0.push(Ev::Step(f.into(), i.into(), r.into(), t));
    }
    fn add_assume_measurement(&mut self, f: &str, i: &str, e: bool, t: Duration) {
        self.0.push(Ev::Assume(f.into(), i.into(), e, t));
    }
    fn add_polyeq_depth(&mut self, d: usize) {
        self.0.push(Ev::Depth(d));
    }
    fn add_run_measurement(&mut self, (f, n): &(String, usize), m: RunMeasurement) {
        self.0.push(Ev::Run(f.clone(), *n, Meas::of(&m)));
    }
    fn register_holey(&mut self) {
        self.0.push(Ev::Holey);
    }
    fn register_error(&mut self, _: &carcara::Error) {
        self.0.push(Ev::Error);
    }
    fn combine(mut a: Self, b: Self) -> Self {
        a.0.extend(b.0);
        a
    }
}
/// all collectors at once
#[derive(Default)]
struct Tee(Rec, OnlineBenchmarkResults, CsvBenchmarkResults);
impl CollectResults for Tee {
    fn add_step_measurement(&mut self, f: &str, i: &str, r: &str, t: Duration) {
        self.0.add_step_measurement(f, i, r, t);
        self.1.add_step_measurement(f, i, r, t);
        self.2.add_step_measurement(f, i, r, t);
    }
    fn add_assume_measurement(&mut self, f: &str, i: &str, e: bool, t: Duration) {
        self.0.add_assume_measurement(f, i, e, t);
        self.1.add_assume_measurement(f, i, e, t);
        self.2.add_assume_measurement(f, i, e, t);
    }
    fn add_polyeq_depth(&mut self, d: usize) {
        self.0.add_polyeq_depth(d);
        self.1.add_polyeq_depth(d);
        self.2.add_polyeq_depth(d);
    }
    fn add_run_measurement(&mut self, id: &(String, usize), m: RunMeasurement) {
        let k = Meas::of(&m);
        self.0.add_run_measurement(id, m);
        self.1.add_run_measurement(id, k.real());
        self.2.add_run_measurement(id, k.real());
    }
    fn register_holey(&mut self) {
        self.0.register_holey();
        self.1.register_holey();
        self.2.register_holey();
    }
    fn register_error(&mut self, e: &carcara::Error) {
        self.0.register_error(e);
        self.1.register_error(e);
        self.2.register_error(e);
    }
    fn combine(a: Self, b: Self) -> Self {
        Tee(Rec::combine(a.0, b.0), CollectResults::combine(a.1, b.1), CollectResults::combine(a.2, b.2))
    }
}
fn same<K, T: Unit>(what: &str, m: &OnlineMetrics<K, T>, v: &[T]) -> Result<(), String>
where
    OnlineMetrics<K, T>: Metrics<K, T>,
{
    if v.is_empty() {
        return if m.is_empty() { Ok(()) } else { Err(format!("{what}: not empty")) };
    }
    right(m, &truth(&v.iter().map(|x| x.whole()).collect::<Vec<_>>())).map_err(|e| format!("{what}: {e}"))
}
/// do the collected results say what the events say?
fn online(evs: &[Ev], o: &OnlineBenchmarkResults) -> Result<(), String> {
    let mut steps: Vec<(String, String, String, Duration)> = vec![];
    let (mut runs, mut depths, mut easy, mut all) = (vec![], vec![], 0, 0);
    for e in evs {
        match e {
            Ev::Step(f, i, r, t) => steps.push((f.clone(), i.clone(), r.clone(), *t)),
            Ev::Assume(f, i, e, t) => {
                steps.push((f.clone(), i.clone(), "assume".into(), *t));
                all += 1;
                easy += usize::from(*e);
            }
            Ev::Depth(d) => depths.push(*d),
            Ev::Run(f, n, m) => runs.push((f.clone(), *n, m.clone())),
            _ => (),
        }
    }
    let times = |g: &dyn Fn(&(String, String, String, Duration)) -> bool| steps.iter().filter(|s| g(s)).map(|s| s.3).collect::<Vec<_>>();
    same("step times", &o.step_time, &times(&|_| true))?;
    let mut names: Vec<String> = steps.iter().map(|s| s.0.clone()).collect();
    names.sort();
    names.dedup();
    if o.step_time_by_file.len() != names.len() {
        return Err("the files are not those that were measured".into());
    }
    for f in names {
        let m = o.step_time_by_file.get(&f).ok_or("a file is missing")?;
        same(&format!("file {f}"), m, &times(&|s| s.0 == f))?;
    }
    let mut names: Vec<String> = steps.iter().map(|s| s.2.clone()).collect();
    names.sort();
    names.dedup();
    if o.step_time_by_rule.len() != names.len() {
        return Err("the rules are not those that were measured".into());
    }
    for f in names {
        let m = o.step_time_by_rule.get(&f).ok_or("a rule is missing")?;
        same(&format!("rule {f}"), m, &times(&|s| s.2 == f))?;
    }
    if !steps.is_empty() {
        let (k, t) = o.step_time.max();
        let k = k.to_string();
        if !steps.iter().any(|s| s.3 == *t && format!("{}:{} ({})", s.0, s.1, s.2) == k) {
            return Err(format!("the worst step is said to be {k}"));
        }
    }
    for (i, (what, m)) in [("parsing", &o.parsing), ("checking", &o.checking), ("elaborating", &o.elaborating), ("scheduling", &o.scheduling), ("total", &o.total), ("polyeq", &o.polyeq_time), ("assume", &o.assume_time), ("assume core", &o.assume_core_time)]
        .into_iter()
        .enumerate()
    {
        same(what, m, &runs.iter().map(|r| r.2 .0[i]).collect::<Vec<_>>())?;
        if !runs.is_empty() && !runs.iter().any(|r| (r.0.as_str(), r.1, r.2 .0[i]) == (m.max().0 .0.as_str(), m.max().0 .1, m.max().1)) {
            return Err(format!("{what}: the worst run is not that run"));
        }
    }
    same("accounted for", &o.total_accounted_for, &runs.iter().map(|r| r.2 .0[0] + r.2 .0[1] + r.2 .0[2]).collect::<Vec<_>>())?;
    for (what, m, i) in [("polyeq ratio", &o.polyeq_time_ratio, 5), ("assume ratio", &o.assume_time_ratio, 6)] {
        if m.count() != runs.len() {
            return Err(format!("{what}: {} values", m.count()));
        }
        if let Some(x) = runs.iter().map(|r| r.2 .0[i].as_secs_f64() / r.2 .0[1].as_secs_f64()).fold(None, |a: Option<f64>, x| Some(a.map_or(x, |a| a.max(x)))) {
            if (m.max().1 - x).abs() > 1e-9 * x.abs() {
                return Err(format!("{what}: the largest is {} instead of {x}", m.max().1));
            }
        }
    }
    same("depths", &o.polyeq_depths, &depths)?;
    if (o.num_assumes, o.num_easy_assumes) != (all, easy) {
        return Err(format!("{} assumes, {} of them easy, instead of {all} and {easy}", o.num_assumes, o.num_easy_assumes));
    }
    if o.is_holey != evs.contains(&Ev::Holey) || o.had_error != evs.contains(&Ev::Error) {
        return Err(format!("holey: {}, errors: {}", o.is_holey, o.had_error));
    }
    if o.is_empty() != runs.is_empty() {
        return Err("emptiness".into());
    }
    Ok(())
}
type Rows = Vec<Vec<String>>;
fn rows(t: &str) -> Option<(Vec<String>, Rows)> {
    let mut ls = t.lines().map(|l| l.split(',').map(str::to_string).collect::<Vec<_>>());
    let head = ls.next()?;
    let v: Rows = ls.collect();
    if v.iter().any(|r| r.len() != head.len()) {
        return None;
    }
    Some((head, v))
}
fn csv(evs: &[Ev], c: CsvBenchmarkResults) -> Result<(), String> {
    let errors = evs.iter().filter(|e| **e == Ev::Error).count();
    if c.num_errors() != errors {
        return Err(format!("{} errors instead of {errors}", c.num_errors()));
    }
    if c.is_holey() != evs.contains(&Ev::Holey) {
        return Err(format!("holey: {}", c.is_holey()));
    }
    let (mut x, mut y) = (vec![], vec![]);
    c.write_csv(&mut x, &mut y).map_err(|e| e.to_string())?;
    let (head, mut got) = rows(&String::from_utf8(x).unwrap()).ok_or("runs: rows of different lengths")?;
    let mut want: Rows = vec![];
    for e in evs {
        if let Ev::Run(f, n, Meas(m, p)) = e {
            let ns = |d: Duration| d.as_nanos().to_string();
            let ratio = |d: Duration| (d.as_secs_f64() / m[1].as_secs_f64()).to_string();
            let mut v = vec![f.clone(), n.to_string(), ns(m[0]), ns(m[1]), ns(m[2]), ns(m[0] + m[1] + m[2]), ns(m[4]), ns(m[5]), ratio(m[5]), ns(m[6]), ratio(m[6])];
            v.extend(p.iter().map(|d| ns(*d)));
            want.push(v);
        }
    }
    if !want.is_empty() && head.len() != want[0].len() {
        return Err(format!("runs: {} columns", head.len()));
    }
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("runs: rows {got:?} instead of {want:?}"));
    }
    let (_, mut got) = rows(&String::from_utf8(y).unwrap()).ok_or("steps: rows of different lengths")?;
    let mut want: Rows = evs
        .iter()
        .filter_map(|e| match e {
            Ev::Step(_, _, r, t) => Some(vec![r.clone(), t.as_nanos().to_string()]),
            Ev::Assume(_, _, _, t) => Some(vec!["assume".to_string(), t.as_nanos().to_string()]),
            _ => None,
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("steps: {} rows instead of {}, or with other contents", got.len(), want.len()));
    }
    Ok(())
}
fn events(r: &mut Rng, rep: &mut Report) {
    let n = *r.pick(&[0, 1, 3, 10, 40, 200]);
    let groups = 1 + r.below(6);
    let pipe = r.below(4);
    let mut evs: Vec<Ev> = vec![];
    let mut run = 0;
    for _ in 0..n {
        let file = r.pick(&["a.proof", "b.alethe", "dir/c d", ""]).to_string();
        let id = r.pick(&["t1", "t1.t2", "h", "|x y|"]).to_string();
        let t = Duration::from_nanos(magnitude(r));
        evs.push(match r.below(14) {
            0..=5 => Ev::Step(file, id, r.pick(&["refl", "and", "anchor(subproof)", "assume"]).to_string(), t),
            6..=8 => Ev::Assume(file, id, r.coin(), t),
            9 => Ev::Depth(magnitude(r) as usize),
            10 | 11 => {
                run += 1;
                let mut m = Meas::default();
                for d in &mut m.0 {
                    *d = Duration::from_nanos(1 + magnitude(r));
                }
                m.1 = (0..pipe).map(|_| Duration::from_nanos(magnitude(r))).collect();
                Ev::Run(file, run, m)
            }
            12 if r.chance(1, 4) => Ev::Holey,
            13 if r.chance(1, 4) => Ev::Error,
            _ => Ev::Step(file, id, "cong".into(), t),
        });
    }
    let mut on: Vec<OnlineBenchmarkResults> = (0..groups).map(|_| Default::default()).collect();
    let mut cs: Vec<CsvBenchmarkResults> = (0..groups).map(|_| Default::default()).collect();
    fn feed<C: CollectResults>(c: &mut C, e: &Ev) {
        match e {
            Ev::Step(f, i, r, t) => c.add_step_measurement(f, i, r, *t),
            Ev::Assume(f, i, e, t) => c.add_assume_measurement(f, i, *e, *t),
            Ev::Depth(d) => c.add_polyeq_depth(*d),
            Ev::Run(f, n, m) => c.add_run_measurement(&(f.clone(), *n), m.real()),
            Ev::Holey => c.register_holey(),
            Ev::Error => c.register_error(&carcara::Error::DoesNotReachEmptyClause),
        }
    }
    let mut at = vec![];
    for e in &evs {
        let g = r.below(groups);
        at.push(g);
        feed(&mut on[g], e);
        feed(&mut cs[g], e);
    }
    let on = merge(r, on, CollectResults::combine);
    let cs = merge(r, cs, CollectResults::combine);
    let input = || format!("events {evs:?} in collectors {at:?}");
    rep.evals += 1;
    rep.distinct.insert(crate::report::hash_str(&input()));
    rep.count("event sequences");
    rep.add("events", evs.len() as u64);
    if let Err(e) = online(&evs, &on) {
        rep.violation("collect:online", format!("merged streaming results: {e}"), input());
    }
    if let Err(e) = csv(&evs, cs) {
        rep.violation("collect:csv", format!("merged detailed results: {e}"), input());
    }
}

// ---- real runs ----
/// (id, rule) of every step, top-level assume and anchor, in the order of the proof
#[derive(Default, Debug)]
struct Plan {
    order: Vec<(u8, String, String)>,
}
fn plan(cs: &[ProofCommand], top: bool, o: &Opts, p: &mut Plan) {
    for c in cs {
        match c {
            ProofCommand::Assume { id, .. } if top => p.order.push((b'h', id.clone(), "assume".into())),
            ProofCommand::Assume { .. } => (),
            ProofCommand::Step(s) => {
                // steps that are not checked are not measured
                if !o.checker.allowed_rules.contains(&s.rule) && ProofChecker::get_rule(&s.rule, o.checker.elaborated).is_some() {
                    p.order.push((b's', s.id.clone(), s.rule.clone()))
                }
            }
            ProofCommand::Subproof(s) => {
                let Some(ProofCommand::Step(last)) = s.commands.last() else { continue };
                p.order.push((b'a', last.id.clone(), format!("anchor({})", last.rule)));
                plan(&s.commands, false, o, p);
            }
        }
    }
}
const FILE: &str = "some/file.alethe";
fn got(evs: &[Ev]) -> Result<Vec<(u8, String, String)>, String> {
    let mut v = vec![];
    for e in evs {
        let (f, x) = match e {
            Ev::Step(f, i, r, _) => (f, (if r.starts_with("anchor(") { b'a' } else { b's' }, i.clone(), r.clone())),
            Ev::Assume(f, i, _, _) => (f, (b'h', i.clone(), "assume".into())),
            Ev::Depth(_) => continue,
            _ => return Err("the checker reports more than steps".into()),
        };
        if f != FILE {
            return Err(format!("step {} is attributed to file '{f}'", x.1));
        }
        v.push(x);
    }
    Ok(v)
}
fn new_stats() -> CheckerStatistics<'static, Tee> {
    CheckerStatistics { file_name: FILE, polyeq_time: Duration::ZERO, assume_time: Duration::ZERO, assume_core_time: Duration::ZERO, results: Tee::default() }
}
fn sane(st: CheckerStatistics<Tee>, wall: Duration, threads: u32, premises: &indexmap::IndexSet<carcara::ast::Rc<Term>>) -> Result<Vec<Ev>, String> {
    let Tee(Rec(evs), on, cs) = st.results;
    let sum: Duration = evs.iter().map(|e| if let Ev::Assume(_, _, _, t) = e { *t } else { Duration::ZERO }).sum();
    if sum != st.assume_time {
        return Err(format!("{:?} were spent on assumes, but {sum:?} on those measured", st.assume_time));
    }
    if st.assume_core_time > st.assume_time || st.polyeq_time > wall * threads {
        return Err(format!("assume {:?}, core {:?}, polyeq {:?}, wall {wall:?}", st.assume_time, st.assume_core_time, st.polyeq_time));
    }
    let steps: Duration = evs.iter().map(|e| if let Ev::Step(_, _, _, t) | Ev::Assume(_, _, _, t) = e { *t } else { Duration::ZERO }).sum();
    if steps > wall * threads {
        return Err(format!("steps took {steps:?}, but the check {wall:?}"));
    }
    let hard = evs.iter().filter(|e| matches!(e, Ev::Assume(_, _, false, _))).count();
    let depths = evs.iter().filter(|e| matches!(e, Ev::Depth(_))).count();
    if depths > hard * premises.len() {
        return Err(format!("{depths} comparisons for {hard} assumes and {} premises", premises.len()));
    }
    online(&evs, &on).map_err(|e| format!("streaming results: {e}"))?;
    csv(&evs, cs).map_err(|e| format!("detailed results: {e}"))?;
    Ok(evs)
}
struct Seq {
    problem: Problem,
    proof: Proof,
    rules: carcara::ast::rare_rules::Rules,
}
fn real(r: &mut Rng, rep: &mut Report, pb: &str, pf: &str, o: &Opts) {
    let Ok(inst) = par::load(pb, pf, o) else { return };
    let par::Inst { problem, proof, rules, pool } = inst;
    let Ok(mut pool) = std::sync::Arc::try_unwrap(pool) else { return };
    let inst = Seq { problem, proof, rules };
    let input = || format!("{pb}---- proof\n{pf}{}", o.rules.clone().map(|r| format!("\n---- rules\n{r}")).unwrap_or_default());
    crate::watch::set(input);
    let mut p = Plan::default();
    plan(&inst.proof.commands, true, o, &mut p);
    // the sequential checker
    let mut st = new_stats();
    let t = Instant::now();
    let out = classify(guarded(|| ProofChecker::new(&mut pool, &inst.rules, o.checker.clone()).check_with_stats(&inst.problem, &inst.proof, &mut st)));
    let wall = t.elapsed();
    if matches!(out, Out::Panic(_)) {
        rep.count("panicked");
        return;
    }
    rep.seen(pf);
    rep.count(&format!("sequential:{}", out.kind()));
    match sane(st, wall, 1, &inst.problem.premises).and_then(|evs| Ok((got(&evs)?, evs))) {
        Err(e) => rep.violation("checker:sequential", e, input()),
        Ok((g, evs)) => {
            rep.add("measured steps", g.len() as u64);
            for e in &evs {
                if let Ev::Assume(_, i, easy, _) = e {
                    let top = inst.proof.commands.iter().filter_map(|c| if let ProofCommand::Assume { id, term } = c { Some((id, term)) } else { None });
                    if !top.clone().any(|(id, term)| id == i && inst.problem.premises.contains(term) == *easy) {
                        rep.violation("checker:easy", format!("assume {i} is counted as {}", if *easy { "easy" } else { "hard" }), input());
                    }
                }
            }
            match &out {
                Out::Valid | Out::Holey | Out::NoEmpty if g != p.order => rep.violation("checker:sequential", format!("measured {g:?}, but the proof is {:?}", p.order), input()),
                // everything up to the failing step
                Out::Reject(id, rule, _) => {
                    let n = g.len();
                    let ok = g.len() <= p.order.len() && g[..] == p.order[..n] && (p.order.get(n).is_some_and(|x| x.1 == *id && x.2 == *rule) || n > 0 && rule == "assume" && p.order[n - 1].1 == *id || ProofChecker::get_rule(rule, o.checker.elaborated).is_none() || o.checker.allowed_rules.contains(rule));
                    if !ok {
                        rep.violation("checker:prefix", format!("failed at {id} ({rule}) after measuring {g:?}; the proof is {:?}", p.order), input());
                    }
                }
                _ => (),
            }
        }
    }
    if !out.accepted() {
        return;
    }
    // the parallel one
    let Ok(inst) = par::load(pb, pf, o) else { return };
    let n = 1 + r.below(5);
    let sch = match r.coin() {
        true => match par::official(&inst, n) {
            Ok(s) => s,
            Err(_) => return,
        },
        false => par::arbitrary(&inst, n, r),
    };
    let threads = sch.0.loads.len();
    let mut st = new_stats();
    let t = Instant::now();
    let pout = classify(guarded(|| {
        ParallelProofChecker::new(inst.pool.clone(), o.checker.clone(), &inst.problem.prelude, &sch.1, 16 << 20, inst.rules.clone()).check_with_stats(&inst.problem, &inst.proof, &sch.0, &mut st)
    }));
    let wall = t.elapsed();
    if !pout.accepted() {
        rep.count("parallel: not accepted");
        return;
    }
    rep.evals += 1;
    rep.count(&format!("parallel with {threads} threads"));
    match sane(st, wall, threads as u32, &inst.problem.premises).and_then(|evs| got(&evs)) {
        Err(e) => rep.violation("checker:parallel", e, input()),
        Ok(g) => {
            let count = |v: &[(u8, String, String)]| {
                let mut m: BTreeMap<(u8, String, String), usize> = BTreeMap::new();
                for x in v {
                    *m.entry(x.clone()).or_default() += 1;
                }
                m
            };
            let (a, b) = (count(&g), count(&p.order));
            // threads enter a subproof once each
            let bad = a.keys().chain(b.keys()).find(|k| {
                let (x, y) = (a.get(*k).copied().unwrap_or(0), b.get(*k).copied().unwrap_or(0));
                if k.0 == b'a' {
                    x < y || x > y * threads
                } else {
                    x != y
                }
            });
            if let Some(k) = bad {
                rep.violation("checker:parallel", format!("{} ({}) is measured {} times, but is {} times in the proof", k.1, k.2, a.get(k).unwrap_or(&0), b.get(k).unwrap_or(&0)), input());
            }
        }
    }
}

// ---- the benchmarks of the command line tool ----
struct File {
    pb: String,
    pf: String,
    /// None: cannot be read
    out: Option<Out>,
    measured: HashMap<String, usize>,
    easy: usize,
    assumes: usize,
}
fn file(pb: &str, pf: &str) -> Option<File> {
    // as `carcara bench` does without options
    let mut o = Opts::default();
    o.parser.apply_function_defs = false;
    let mut f = File { pb: pb.into(), pf: pf.into(), out: None, measured: HashMap::new(), easy: 0, assumes: 0 };
    let inst = match par::load(pb, pf, &o) {
        Ok(i) => i,
        Err(Out::Panic(_)) => return None,
        Err(_) => return Some(f),
    };
    let par::Inst { problem, proof, rules, pool } = inst;
    let Ok(mut pool) = std::sync::Arc::try_unwrap(pool) else { return None };
    let inst = Seq { problem, proof, rules };
    let mut st = new_stats();
    let out = classify(guarded(|| ProofChecker::new(&mut pool, &inst.rules, o.checker.clone()).check_with_stats(&inst.problem, &inst.proof, &mut st)));
    if matches!(out, Out::Panic(_)) {
        return None;
    }
    f.out = Some(out);
    for e in st.results.0 .0 {
        let rule = match e {
            Ev::Step(_, _, r, _) => r,
            Ev::Assume(_, _, e, _) => {
                f.assumes += 1;
                f.easy += usize::from(e);
                "assume".into()
            }
            _ => continue,
        };
        *f.measured.entry(rule).or_default() += 1;
    }
    Some(f)
}
fn bench(r: &mut Rng, rep: &mut Report, stock: &[(String, String)]) {
    let dir = cli::Scratch::new();
    let mut files: Vec<(String, File)> = vec![];
    for k in 0..1 + r.below(6) {
        let (pb, pf) = r.pick(stock).clone();
        let pf = match r.below(8) {
            // malformed
            0 => pf.trim_end().trim_end_matches(')').to_string() + " (",
            1 => format!("(step t (cl undeclared_symbol) :rule hole)\n{pf}"),
            // incorrect
            2 => format!("(step zz (cl (= 0 1)) :rule refl)\n{pf}"),
            _ => pf,
        };
        let Some(f) = file(&pb, &pf) else { continue };
        let name = format!("{}f{k}", if r.coin() { "sub/" } else { "" });
        dir.put(&format!("{name}.smt2"), &f.pb);
        dir.put(&format!("{name}.smt2.{}", if r.coin() { "alethe" } else { "proof" }), &f.pf);
        files.push((name, f));
    }
    // other files are not benchmarks
    dir.put("notes.txt", "(");
    if files.is_empty() {
        return;
    }
    let (runs, jobs) = (*r.pick(&[1, 1, 2, 3, 0]), *r.pick(&[1, 2, 3, 8, 0]));
    let (to_csv, elab, total) = (r.coin(), r.chance(1, 3), true);
    let mut args: Vec<String> = vec!["bench".into(), "-n".into(), runs.to_string(), "-j".into(), jobs.to_string()];
    if to_csv {
        args.push("--dump-to-csv".into());
    }
    if total {
        args.push("-t".into());
    }
    if elab {
        args.push("--elaborate".into());
    }
    args.push(".".into());
    let ran = cli::run(&dir.0, &args, None);
    let what = files.iter().map(|(n, f)| format!("{n}: {}", f.out.as_ref().map_or("unreadable", |o| o.kind()))).collect::<Vec<_>>().join(", ");
    let input = || {
        let texts: String = files.iter().map(|(n, f)| format!("==== {n}\n{}---- proof\n{}\n", f.pb, f.pf)).collect();
        format!("carcara {} with {what}\n{}\n{texts}", args.join(" "), ran.show())
    };
    rep.evals += 1;
    rep.distinct.insert(crate::report::hash_str(&format!("{args:?}{what}")));
    rep.count(&format!("bench: {}{}", if to_csv { "csv" } else { "summary" }, if elab { ", elaborated" } else { "" }));
    rep.count(&format!("bench jobs {jobs}"));
    rep.add("bench files", files.len() as u64);
    macro_rules! bad {
        ($sig:expr, $($x:tt)*) => {{
            rep.violation($sig, format!($($x)*), input());
            return;
        }};
    }
    if ran.panicked() || ran.hung() {
        bad!("bench:crash", "`carcara bench` does not finish: {}", ran.err.lines().find(|l| l.contains("panicked")).unwrap_or("no answer"));
    }
    if ran.code != Some(0) {
        bad!("bench:status", "`carcara bench` ends with status {:?}", ran.code);
    }
    let errors = runs * files.iter().filter(|(_, f)| !f.out.as_ref().is_some_and(|o| o.accepted())).count();
    let holes = runs > 0 && files.iter().any(|(_, f)| matches!(f.out, Some(Out::Holey)));
    let readable: Vec<&(String, File)> = files.iter().filter(|(_, f)| f.out.is_some()).collect();
    let verdict = match (errors, holes) {
        (0, false) => "valid",
        (0, true) => "holey",
        _ => "invalid",
    };
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    for (_, f) in &readable {
        for (k, n) in &f.measured {
            if runs > 0 {
                *want.entry(k.clone()).or_default() += n * runs;
            }
        }
    }
    if to_csv {
        let mut ls = ran.out.lines();
        if ls.next() != Some(&format!("{errors} errors encountered during benchmark")) || ls.next() != Some(verdict) {
            bad!("bench:verdict", "{errors} of the runs fail and the verdict should be {verdict}");
        }
        let (Some(x), Some(y)) = (dir.get("runs.csv"), dir.get("steps.csv")) else { bad!("bench:csv", "the files were not written") };
        let (Some((_, x)), Some((_, y))) = (rows(&x), rows(&y)) else { bad!("bench:csv", "rows of different lengths") };
        let mut got: Vec<(String, usize)> = x.iter().map(|v| (v[0].clone(), v[1].parse().unwrap_or(99))).collect();
        let mut all: Vec<(String, usize)> = vec![];
        for n in 0..runs {
            for (name, _) in &readable {
                let p = if dir.0.join(format!("{name}.smt2.alethe")).exists() { "alethe" } else { "proof" };
                all.push((format!("./{name}.smt2.{p}"), n));
            }
        }
        got.sort();
        all.sort();
        if got != all {
            bad!("bench:runs", "the runs listed are {got:?} instead of {all:?}");
        }
        for v in &x {
            let t: Vec<f64> = v[2..].iter().map(|x| x.parse().unwrap_or(-1.0)).collect();
            if t.iter().any(|x| *x < 0.0) || t[3] != t[0] + t[1] + t[2] || t[4] < t[3] || t[7] > t[1] || (t[6] - t[5] / t[1]).abs() > 1e-9 || (t[8] - t[7] / t[1]).abs() > 1e-9 {
                bad!("bench:times", "the times of a run do not add up: {v:?}");
            }
        }
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        for v in &y {
            *got.entry(v[0].clone()).or_default() += 1;
        }
        if got != want {
            bad!("bench:steps", "the steps listed are {got:?} instead of {want:?}");
        }
    } else if runs == 0 || readable.is_empty() {
        if ran.out.trim() != "no benchmark data collected" {
            bad!("bench:empty", "nothing was measured");
        }
    } else {
        if ran.out.lines().next() != Some(verdict) {
            bad!("bench:verdict", "the verdict should be {verdict}");
        }
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        let at = |s: &str| ran.out.lines().position(|l| l.starts_with(s));
        let (Some(i), Some(j)) = (at("by rule:"), at("worst cases:")) else { bad!("bench:summary", "no list of rules") };
        for l in ran.out.lines().skip(i + 1).take(j - i - 1) {
            let name = l.split_whitespace().next().unwrap_or("").to_string();
            let n = l.rsplit("* ").next().and_then(|x| x.trim_end_matches(')').parse().ok()).unwrap_or(0);
            got.insert(name, n);
        }
        if got != want {
            bad!("bench:rules", "the steps counted are {got:?} instead of {want:?}");
        }
        for what in ["parsing:", "checking:", "total:"] {
            let n = at(what).and_then(|i| ran.out.lines().nth(i)).and_then(|l| l.rsplit("* ").next()).and_then(|x| x.trim_end_matches(')').parse::<usize>().ok());
            if n != Some(runs * readable.len()) {
                bad!("bench:count", "{what} over {n:?} runs instead of {}", runs * readable.len());
            }
        }
        let num = |s: &str| ran.out.lines().find_map(|l| l.trim().strip_prefix(s)).and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse::<usize>().ok());
        let all: usize = runs * readable.iter().map(|(_, f)| f.assumes).sum::<usize>();
        let easy: usize = runs * readable.iter().map(|(_, f)| f.easy).sum::<usize>();
        if num("number of assumes:") != Some(all) || num("(easy):") != Some(easy) || num("(hard):") != Some(all - easy) {
            bad!("bench:assumes", "there are {all} assumes, {easy} of them easy");
        }
    }
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.iters(1500) {
        if c.late() {
            break;
        }
        let (r, rep) = (&mut c.rng, &mut c.rep);
        samples::<Duration>(r, rep);
        samples::<usize>(r, rep);
        samples::<f64>(r, rep);
    }
    for _ in 0..c.iters(600) {
        if c.late() {
            break;
        }
        events(&mut c.rng, &mut c.rep);
    }
    let stock: StdRc<RefCell<Vec<(String, String)>>> = Default::default();
    let keep = stock.clone();
    let rng = RefCell::new(Rng::new(c.rng.next()));
    let mut seen = 0;
    c.workloads(super::c17::ALL, 250, move |_, pb, pf, o, _, rep| {
        let r = &mut *rng.borrow_mut();
        real(r, rep, pb, pf, o);
        seen += 1;
        if o.rules.is_none() && pf.len() < 6000 && seen % 20 == 0 {
            keep.borrow_mut().push((pb.to_string(), pf.to_string()));
        }
    });
    for _ in 0..c.iters(60) {
        let (p, n) = super::c20::mixed(&mut c.rng);
        let mut o = Opts::default();
        match c.rng.below(4) {
            0 => o.checker.ignore_unknown_rules = true,
            1 => o.checker.allowed_rules = ["resolution", "hole", "cong"].iter().map(|s| s.to_string()).collect(),
            _ => (),
        }
        if c.late() {
            break;
        }
        real(&mut c.rng, &mut c.rep, &p, &n, &o);
        stock.borrow_mut().push((p, n));
    }
    let stock = stock.borrow().clone();
    if cli::bin().is_none() {
        c.rep.count("no command line tool");
        return;
    }
    for _ in 0..c.iters(12) {
        if c.late() || stock.is_empty() {
            break;
        }
        bench(&mut c.rng, &mut c.rep, &stock);
    }
}
