//! Running the real code on text instances, with panic capture.
use crate::eval::*;
use crate::rng::Rng;
use crate::sorts::*;
use crate::sx::*;
use carcara::{checker, parser, CarcaraResult};
use std::cell::RefCell;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static QUIET: RefCell<bool> = const { RefCell::new(true) };
}
static HARNESS_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static ANYWHERE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static WORKER_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// the last panic in a thread of the parallel checker
pub fn worker_panic() -> String {
    WORKER_PANIC.lock().unwrap().clone()
}
pub fn last_anywhere() -> String {
    ANYWHERE.lock().unwrap().clone()
}
pub fn any_panic() -> String {
    HARNESS_PANIC.lock().unwrap().clone()
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::thread::current().name().is_some_and(|n| n.starts_with("worker-")) {
            *WORKER_PANIC.lock().unwrap() = format!("{} @ {}", msg, loc);
        }
        if loc.contains("harness") || loc.starts_with("src/") {
            *HARNESS_PANIC.lock().unwrap() = format!("{} @ {}", msg, loc);
        }
        *ANYWHERE.lock().unwrap() = format!("{} @ {}", msg, loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", msg, loc));
        let q = QUIET.with(|q| *q.borrow());
        if !q {
            old(info);
        }
    }));
}
/// the last panic of this thread, and where it was
pub fn last_here() -> (String, String) {
    let s = LAST_PANIC.with(|p| p.borrow().clone());
    s.rsplit_once(" @ ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default()
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Valid,
    Holey,
    /// (step, rule, message)
    Reject(String, String, String),
    NoEmpty,
    ParseErr(String),
    Panic(String),
}
impl Out {
    pub fn accepted(&self) -> bool {
        matches!(self, Out::Valid | Out::Holey)
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Valid => "valid",
            Out::Holey => "holey",
            Out::Reject(..) => "reject",
            Out::NoEmpty => "noempty",
            Out::ParseErr(_) => "parse",
            Out::Panic(_) => "panic",
        }
    }
    /// coarse verdict used to compare modes
    pub fn verdict(&self) -> &'static str {
        match self {
            Out::Valid => "valid",
            Out::Holey => "holey",
            Out::Panic(_) => "panic",
            _ => "error",
        }
    }
}
pub fn classify(r: Result<CarcaraResult<bool>, String>) -> Out {
    match r {
        Err(p) => Out::Panic(p),
        Ok(Ok(true)) => Out::Holey,
        Ok(Ok(false)) => Out::Valid,
        Ok(Err(carcara::Error::Checker { inner, rule, step })) => {
            Out::Reject(step.to_string(), rule.to_string(), format!("{}", inner))
        }
        Ok(Err(carcara::Error::DoesNotReachEmptyClause)) => Out::NoEmpty,
        Ok(Err(e)) => Out::ParseErr(format!("{}", e)),
    }
}
#[derive(Clone, Default)]
pub struct Opts {
    pub parser: parser::Config,
    pub checker: checker::Config,
    pub rules: Option<String>,
}
pub type Observer = Box<dyn FnMut(&str, &str, &Opts, &Out)>;
thread_local! {
    static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
    pub static STOP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// `f` is shown every instance checked on this thread while `body` runs
pub fn observing(f: Observer, body: impl FnOnce()) {
    OBSERVER.with(|o| *o.borrow_mut() = Some(f));
    STOP.with(|s| s.set(false));
    body();
    STOP.with(|s| s.set(false));
    OBSERVER.with(|o| *o.borrow_mut() = None);
}
pub fn check_text(problem: &str, proof: &str, o: &Opts) -> Out {
    let out = check_plain(problem, proof, o);
    if let Some(mut f) = OBSERVER.with(|o| o.borrow_mut().take()) {
        f(problem, proof, o, &out);
        OBSERVER.with(|o| *o.borrow_mut() = Some(f));
    }
    out
}
pub fn check_plain(problem: &str, proof: &str, o: &Opts) -> Out {
    classify(guarded(|| {
        let (pb, pf, rules, mut pool) = parser::parse_instance(
            Cursor::new(problem.to_string()),
            Cursor::new(proof.to_string()),
            o.rules.clone().map(Cursor::new),
            o.parser.clone(),
        )?;
        let mut ck = checker::ProofChecker::new(&mut pool, &rules, o.checker.clone());
        ck.check(&pb, &pf)
    }))
}

/// One proof step with its premises, to be judged in isolation.
#[derive(Clone)]
pub struct Case {
    pub decls: Rc<Decls>,
    pub rule: String,
    pub prems: Vec<Vec<Sx>>,
    pub concl: Vec<Sx>,
    pub args: Vec<Sx>,
    /// schema/family label, for coverage counts
    pub tag: &'static str,
    pub rules: Option<Rc<str>>,
    pub extra_problem: &'static str,
    /// integers range over {0, 1} (pseudo-Boolean steps)
    pub bits: bool,
}
impl Case {
    pub fn new(decls: &Rc<Decls>, tag: &'static str, rule: &str, prems: Vec<Vec<Sx>>, concl: Vec<Sx>, args: Vec<Sx>) -> Case {
        Case { decls: decls.clone(), rule: rule.to_string(), prems, concl, args, tag, rules: None, extra_problem: "", bits: false }
    }
    pub fn problem(&self) -> String {
        format!("(set-logic ALL)\n{}{}(check-sat)\n", self.decls.text(), self.extra_problem)
    }
    pub fn proof(&self) -> String {
        let mut s = String::new();
        let cl = |c: &[Sx]| {
            let mut r = String::from("(cl");
            for x in c {
                r.push(' ');
                r.push_str(&x.to_string());
            }
            r.push(')');
            r
        };
        for (i, p) in self.prems.iter().enumerate() {
            s.push_str(&format!("(step h{} {} :rule hole)\n", i, cl(p)));
        }
        s.push_str(&format!("(step t {} :rule {}", cl(&self.concl), self.rule));
        if !self.prems.is_empty() {
            s.push_str(" :premises (");
            for i in 0..self.prems.len() {
                s.push_str(&format!("h{} ", i));
            }
            s.push(')');
        }
        if !self.args.is_empty() {
            s.push_str(" :args (");
            for x in &self.args {
                s.push_str(&format!("{} ", x));
            }
            s.push(')');
        }
        s.push_str(")\n(step end (cl) :rule hole)\n");
        s
    }
    pub fn run(&self) -> Out {
        self.run_with(&Opts { rules: self.rules.as_ref().map(|s| s.to_string()), ..Opts::default() })
    }
    pub fn run_with(&self, o: &Opts) -> Out {
        check_text(&self.problem(), &self.proof(), o)
    }
    pub fn text(&self) -> String {
        format!("{}---- proof\n{}", self.problem(), self.proof())
    }
    /// true if (premises true, conclusion false) under the interpretation
    pub fn refuted_by(&self, it: &Interp) -> bool {
        let mut ev = Ev::new(&self.decls, it);
        if ev.clause(&self.concl) != Some(false) {
            return false;
        }
        self.prems.iter().all(|p| ev.clause(p) == Some(true))
    }
    /// Searches for a countermodel; returns a description.
    pub fn countermodel(&self, r: &mut Rng, tries: usize) -> Option<String> {
        // Boolean constants occurring: exhaustive when few
        let bools: Vec<Rc<str>> = self
            .decls
            .funs
            .iter()
            .filter(|(n, a, s)| {
                a.is_empty()
                    && *s == St::Bool
                    && (self.concl.iter().any(|t| t.contains_atom(n))
                        || self.prems.iter().flatten().any(|t| t.contains_atom(n)))
            })
            .map(|x| x.0.clone())
            .collect();
        let exh = bools.len() <= 6;
        let combos = if exh { 1usize << bools.len() } else { 1 };
        if self.bits {
            // all 0-1 assignments of the integer constants
            let ints: Vec<Rc<str>> = self
                .decls
                .funs
                .iter()
                .filter(|(n, a, s)| {
                    a.is_empty()
                        && *s == St::Int
                        && self.concl.iter().chain(self.prems.iter().flatten()).any(|t| t.contains_atom(n))
                })
                .map(|x| x.0.clone())
                .collect();
            if !ints.is_empty() && ints.len() <= 6 {
                for c in 0..1usize << ints.len() {
                    let mut it = Interp::new(r.next());
                    it.bits = true;
                    for (j, x) in ints.iter().enumerate() {
                        it.fixed.insert(x.clone(), V::N(Q::int((c >> j & 1) as i128)));
                    }
                    if self.refuted_by(&it) {
                        return Some(self.describe(&it));
                    }
                }
            }
        }
        let lits = self.literals();
        let cls = self.eq_classes();
        for m in if self.bits { vec![] } else { crate::lin::models(self, r, 8) } {
            let mut it = Interp::new(r.next());
            it.bits = self.bits;
            for (x, v) in m {
                it.fixed.insert(x, V::N(v));
            }
            if self.refuted_by(&it) {
                return Some(self.describe(&it));
            }
        }
        if self.decls.funs.iter().any(|x| x.2 == St::Str) {
            for m in crate::words::models(self, r, 12 * tries) {
                let mut it = Interp::new(r.next());
                it.fixed = m;
                if self.refuted_by(&it) {
                    return Some(self.describe(&it));
                }
            }
        }
        for i in 0..tries {
            let mut it = Interp::new(r.next());
            it.bits = self.bits;
            if i % 2 == 0 {
                lits.bias(&mut it, r, &self.decls);
            }
            if !cls.is_empty() && i % 3 != 1 {
                it.dom = 2 + r.below(2) as u64;
                for (s, c) in &cls {
                    let v = it.fixed.get(&c[0]).cloned().unwrap_or_else(|| it.value(s, r.next()));
                    for x in c {
                        it.fixed.insert(x.clone(), v.clone());
                    }
                }
            }
            // the first few interpretations go through all Boolean combinations
            if exh && i < 8.max(tries / combos.max(1)) {
                for c in 0..combos {
                    for (j, b) in bools.iter().enumerate() {
                        it.fixed.insert(b.clone(), V::B(c >> j & 1 == 1));
                    }
                    if self.refuted_by(&it) {
                        return Some(self.describe(&it));
                    }
                }
            } else if self.refuted_by(&it) {
                return Some(self.describe(&it));
            }
        }
        None
    }
    /// classes of constants equated by the premises (or by the negated literals of the conclusion)
    fn eq_classes(&self) -> Vec<(St, Vec<Rc<str>>)> {
        let mut cls: Vec<(St, Vec<Rc<str>>)> = vec![];
        let eqs = self.prems.iter().filter(|p| p.len() == 1).map(|p| &p[0]);
        let eqs = eqs.chain(self.concl.iter().filter(|t| t.is_op("not")).map(|t| &t.args()[0]));
        for t in eqs {
            if !t.is_op("=") || t.args().len() != 2 {
                continue;
            }
            let (Sx::A(x), Sx::A(y)) = (&t.args()[0], &t.args()[1]) else { continue };
            let (Some((ax, s)), Some((ay, _))) = (self.decls.get(x), self.decls.get(y)) else { continue };
            if !ax.is_empty() || !ay.is_empty() || x == y {
                continue;
            }
            let i = cls.iter().position(|c| c.1.contains(x));
            let j = cls.iter().position(|c| c.1.contains(y));
            match (i, j) {
                (None, None) => cls.push((s.clone(), vec![x.clone(), y.clone()])),
                (Some(i), None) => cls[i].1.push(y.clone()),
                (None, Some(j)) => cls[j].1.push(x.clone()),
                (Some(i), Some(j)) if i != j => {
                    let c = cls.remove(i.max(j));
                    cls[i.min(j)].1.extend(c.1);
                }
                _ => {}
            }
        }
        cls
    }
    fn describe(&self, it: &Interp) -> String {
        let mut s = format!("interp seed={} dom={} ", it.seed, it.dom);
        for (n, a, r) in &self.decls.funs {
            if a.is_empty() && (self.concl.iter().any(|t| t.contains_atom(n)) || self.prems.iter().flatten().any(|t| t.contains_atom(n))) {
                let v = it.fixed.get(n).cloned().unwrap_or_else(|| it.app_u(n, &[], r));
                s.push_str(&format!("{}={:?} ", n, v));
            }
        }
        s
    }
    /// constants occurring in the step (to bias the interpretations)
    pub fn literals(&self) -> Lits {
        fn go(t: &Sx, out: &mut Lits) {
            match t {
                Sx::A(x) => {
                    if is_num(x) {
                        if let Ok(n) = x.parse::<i128>() {
                            if n.abs() < 1 << 40 {
                                out.nums.push(Q::int(n));
                                out.nums.push(Q::int(-n));
                            }
                        }
                    } else if x.starts_with('"') && x.len() >= 2 {
                        out.strs.push(Rc::from(parse_str(x)));
                    }
                }
                Sx::L(v) => v.iter().for_each(|x| go(x, out)),
            }
        }
        let mut o = Lits { nums: vec![Q::int(0), Q::int(1)], strs: vec![] };
        for t in self.concl.iter().chain(self.prems.iter().flatten()) {
            go(t, &mut o);
        }
        o
    }
}
pub struct Lits {
    pub nums: Vec<Q>,
    pub strs: Vec<Rc<[u32]>>,
}
impl Lits {
    pub fn bias(&self, it: &mut Interp, r: &mut Rng, d: &Decls) {
        for (n, a, s) in &d.funs {
            if !a.is_empty() || r.chance(1, 3) {
                continue;
            }
            match s {
                St::Int if it.bits => {}
                St::Int => {
                    let v = self.nums[r.below(self.nums.len())].n + r.range(-1, 1) as i128;
                    it.fixed.insert(n.clone(), V::N(Q::int(v)));
                }
                St::Real => {
                    let v = self.nums[r.below(self.nums.len())];
                    let v = v.add(Q::new(r.range(-2, 2) as i128, 2).unwrap()).unwrap();
                    it.fixed.insert(n.clone(), V::N(v));
                }
                St::Str if !self.strs.is_empty() => {
                    // concatenations and pieces of the literals
                    let mut v = self.strs[r.below(self.strs.len())].to_vec();
                    match r.below(4) {
                        0 => v.truncate(r.below(v.len() + 1)),
                        1 => {
                            let k = r.below(v.len() + 1);
                            v.drain(..k);
                        }
                        2 => v.extend_from_slice(&self.strs[r.below(self.strs.len())]),
                        _ => {}
                    }
                    it.fixed.insert(n.clone(), V::S(Rc::from(v)));
                }
                _ => {}
            }
        }
    }
}
