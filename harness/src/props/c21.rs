//! C21: failures of external solvers never become accepted reasoning; right answers are used.
use super::c20::check_proof;
use super::Ctx;
use crate::cli::Scratch;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use carcara::ast::*;
use carcara::elaborator::{Config, ElaborationStep, Elaborator, HoleOptions, LiaGenericOptions};
use carcara::{checker, parser};
use std::collections::BTreeSet;
use std::io::Cursor;

const DECLS: &str = "(declare-sort U 0)\n(declare-const p Bool)\n(declare-const q Bool)\n(declare-const r Bool)\n(declare-const |s 1| Bool)\n(declare-const a Int)\n(declare-const b Int)\n(declare-const |c d| Int)\n(declare-const |let| Int)\n(declare-const u U)\n(declare-fun f (Int) Int)\n(declare-fun |g h| (Int Bool) Bool)\n";
fn int(r: &mut Rng, d: usize) -> String {
    match r.below(if d == 0 { 5 } else { 8 }) {
        0 => "a".into(),
        1 => "b".into(),
        2 => "|c d|".into(),
        3 => "|let|".into(),
        4 => r.below(100).to_string(),
        5 => format!("(f {})", int(r, d - 1)),
        6 => format!("(+ {} {})", int(r, d - 1), int(r, d - 1)),
        _ => format!("(ite {} {} {})", boolean(r, d - 1), int(r, d - 1), int(r, d - 1)),
    }
}
fn boolean(r: &mut Rng, d: usize) -> String {
    match r.below(if d == 0 { 4 } else { 11 }) {
        0 => "p".into(),
        1 => "q".into(),
        2 => "r".into(),
        3 => "|s 1|".into(),
        4 => format!("(not {})", boolean(r, d - 1)),
        5 => format!("(and {} {})", boolean(r, d - 1), boolean(r, d - 1)),
        6 => format!("(or {} {})", boolean(r, d - 1), boolean(r, d - 1)),
        7 => format!("(<= {} {})", int(r, d - 1), int(r, d - 1)),
        8 => format!("(|g h| {} {})", int(r, d - 1), boolean(r, d - 1)),
        9 => format!("(forall ((x Int)) (<= x {}))", int(r, d - 1)),
        _ => format!("(= {} {})", int(r, d - 1), int(r, d - 1)),
    }
}
/// A clause with a refutation of its negation.
struct Job {
    clause: Vec<String>,
    valid: bool,
    /// refutation: correct if the clause is valid
    proof: Vec<String>,
}
fn names(r: &mut Rng) -> impl FnMut() -> String {
    let style = r.below(6);
    let mut n = 0;
    move || {
        n += 1;
        match style {
            0 => format!("t{n}"),
            1 => format!("|t {n}|"),
            2 => format!("d.t1.t{n}"),
            3 => format!("t1.added.t{n}"),
            4 => format!("h{n}"),
            _ => format!("d.t{n}"),
        }
    }
}
fn job(r: &mut Rng) -> Job {
    let mut id = names(r);
    let mut clause: Vec<String>;
    let mut used: Vec<String>;
    let mut steps: Vec<String> = vec![];
    let mut premises: Vec<String> = vec![];
    match r.below(4) {
        0 => {
            let l = boolean(r, 2);
            used = vec![l.clone(), format!("(not {l})")];
        }
        1 => {
            let (x, y) = (int(r, 1), int(r, 1));
            used = vec![format!("(<= {x} {y})"), format!("(> {x} {y})")];
            let t = id();
            steps.push(format!("(step {t} (cl {}) :rule la_generic :args (1 1))", used.join(" ")));
            premises.push(t);
        }
        2 => {
            let (x, y, z) = (int(r, 1), int(r, 1), int(r, 1));
            used = vec![format!("(not (<= {x} {y}))"), format!("(not (<= {y} {z}))"), format!("(<= {x} {z})")];
            let t = id();
            steps.push(format!("(step {t} (cl {}) :rule la_generic :args (1 1 1))", used.join(" ")));
            premises.push(t);
        }
        _ => {
            // through a nested subproof
            let l = boolean(r, 1);
            used = vec![format!("(=> {l} {l})")];
            let (s, h, i, t) = (id(), id(), id(), id());
            let (h, i) = if r.coin() { (h, i) } else { ("inner.h".into(), "inner.i".into()) };
            steps.push(format!("(anchor :step {s})"));
            steps.push(format!("(assume {h} {l})"));
            steps.push(format!("(step {i} (cl {l}) :rule reordering :premises ({h}))"));
            steps.push(format!("(step {s} (cl (not {l}) {l}) :rule subproof :discharge ({h}))"));
            steps.push(format!("(step {t} (cl (=> {l} {l}) {l}) :rule implies_neg1)"));
            let (u, v, w) = (id(), id(), id());
            steps.push(format!("(step {u} (cl (=> {l} {l}) (not {l})) :rule implies_neg2)"));
            steps.push(format!("(step {v} (cl (=> {l} {l}) (=> {l} {l})) :rule resolution :premises ({t} {s} {u}))"));
            steps.push(format!("(step {w} (cl (=> {l} {l})) :rule contraction :premises ({v}))"));
            premises.push(w);
        }
    }
    let valid = !r.chance(1, 4);
    if !valid {
        // something that is not a consequence: one literal is another
        let i = r.below(used.len());
        used[i] = ["p", "q", "(<= a b)", "(not (<= b a))"][r.below(4)].into();
        if used.len() > 1 && used.iter().collect::<BTreeSet<_>>().len() < 2 || used.contains(&"(<= a b)".to_string()) && used.contains(&"(not (<= b a))".to_string()) {
            used.truncate(1);
        }
        let u = used.clone();
        if u.iter().any(|x| u.contains(&format!("(not {x})"))) {
            used.truncate(1);
        }
    }
    clause = used.clone();
    if r.coin() {
        for _ in 0..r.below(3) {
            // literals that are not needed, and repeated ones
            let l = if valid && r.coin() { boolean(r, 2) } else { clause[r.below(clause.len())].clone() };
            clause.push(l);
        }
        r.shuffle(&mut clause);
    }
    let mut proof = vec![];
    let mut order: Vec<String> = used.clone();
    r.shuffle(&mut order);
    for l in &order {
        let h = id();
        let c = format!("(assume {h} (not {l}))");
        premises.push(h);
        proof.push(c);
    }
    if r.chance(1, 4) {
        // an assumption that is not used, or a second one that is the same
        let l = r.pick(&clause).clone();
        proof.push(format!("(assume {} (not {l}))", id()));
    }
    proof.extend(steps);
    let e = id();
    proof.push(format!("(step {e} (cl) :rule resolution :premises ({}))", premises.join(" ")));
    if r.chance(1, 6) {
        // the empty clause is not the last step
        proof.push(format!("(step {} (cl true) :rule true)", id()));
    }
    if r.chance(1, 10) {
        proof.push(format!("(step {} (cl p) :rule weakening :premises ({e}))", id()));
    }
    Job { clause, valid, proof }
}
/// How the solver behaves. `true`: its answer is no reason to believe anything.
const BEHAVIOURS: &[(&str, bool)] = &[
    ("missing", true),
    ("directory", true),
    ("not executable", true),
    ("fails", true),
    ("fails with proof", true),
    ("killed", true),
    ("timeout", true),
    ("sat", true),
    ("unknown", true),
    ("silent", true),
    ("error", true),
    ("garbage", true),
    ("no proof", true),
    ("unsat no more", true),
    ("core", true),
    ("SAT upper", true),
    ("late", true),
    ("stderr", true),
    ("truncated", false),
    ("cut", false),
    ("no empty clause", true),
    ("empty clause inside", true),
    ("wrong step", true),
    ("unasserted", true),
    ("foreign assumption", true),
    ("undefined", true),
    ("hole", true),
    ("lia", true),
    ("unknown rule", true),
    ("other proof", false),
    ("swap", false),
    ("drop", false),
    ("edit", false),
    ("does not read", false),
    ("crlf", false),
];
struct Case {
    dir: Scratch,
    solver: String,
    how: &'static str,
    /// the answer is certainly no proof
    bad: bool,
    proof: String,
}
fn behave(r: &mut Rng, jobs: &[Job], good: bool) -> Case {
    let dir = Scratch::new();
    let (how, bad) = if good { ("right", false) } else { *r.pick(BEHAVIOURS) };
    let job = &jobs[0];
    let mut proof = job.proof.clone();
    let n = proof.len();
    let last = proof.iter().rposition(|l| l.contains("(cl) ")).unwrap();
    match how {
        "truncated" => proof.truncate(r.below(n)),
        "no empty clause" => {
            proof.truncate(last);
            if r.coin() {
                proof.push("(step zz (cl true) :rule true)".into());
            }
        }
        "empty clause inside" => {
            let l = proof.remove(last);
            proof.truncate(last);
            proof.push("(anchor :step zz)".into());
            proof.push("(assume zz.h false)".into());
            proof.push(l);
            proof.push("(step zz (cl (not false) false) :rule subproof :discharge (zz.h))".into());
        }
        "wrong step" => {
            // one that fails in an otherwise complete proof
            proof.insert(last, ["(step zz (cl false) :rule true)", "(step zz (cl (not true)) :rule true)", "(step zz (cl p) :rule refl)", "(step zz (cl (<= a b) (<= b b)) :rule la_generic :args (1 (- 1)))", "(step zz (cl q) :rule and :premises ())"][r.below(5)].into());
        }
        "unasserted" => {
            proof.truncate(last);
            proof.push("(assume zz false)".into());
            proof.push("(step zf (cl (not false)) :rule false)".into());
            proof.push("(step ze (cl) :rule resolution :premises (zz zf))".into());
        }
        "foreign assumption" => {
            proof.insert(r.below(2), "(assume zz (= f f))".into());
        }
        "undefined" => proof[last] = "(step ze (cl) :rule resolution :premises (nothing))".into(),
        "hole" | "lia" | "unknown rule" => {
            let rule = match how {
                "hole" => "hole",
                "lia" => "lia_generic",
                _ => "trust_me",
            };
            if r.coin() {
                proof[last] = format!("(step ze (cl) :rule {rule})");
                proof.truncate(last + 1);
            } else {
                proof.insert(last, format!("(step zz (cl false) :rule {rule})"));
                proof[last + 1] = "(step ze (cl) :rule resolution :premises (zz zf))".into();
                proof.insert(last, "(step zf (cl (not false)) :rule false)".into());
                proof.truncate(last + 3);
            }
        }
        "other proof" => proof = self::job(r).proof,
        "swap" => {
            let (i, j) = (r.below(n), r.below(n));
            proof.swap(i, j);
        }
        "drop" => {
            proof.remove(r.below(n));
        }
        "edit" => {
            let i = r.below(n);
            let from = *r.pick(&["not ", "<=", "(cl ", "p", "resolution", "assume", " a", "1"]);
            let to = *r.pick(&["", "<", "(cl p ", "q", "th_resolution", "step", " b", "2"]);
            proof[i] = proof[i].replacen(from, to, 1);
        }
        _ => (),
    }
    let mut text = proof.join("\n") + "\n";
    if how == "cut" {
        let k = r.below(text.len());
        text.truncate(k);
    }
    if how == "crlf" {
        text = text.replace('\n', "\r\n");
    }
    let first = match how {
        "sat" => "sat\n",
        "unknown" => "unknown\n",
        "error" => "(error \"something unsat\")\n",
        "unsat no more" => "unsatisfiable\n",
        "core" => "unsat core\n",
        "SAT upper" => "UNSAT\n",
        "late" => "\nunsat\n",
        "crlf" => "unsat\r\n",
        _ => "unsat\n",
    };
    let out: Vec<u8> = match how {
        "silent" | "stderr" => vec![],
        "no proof" => b"unsat\n".to_vec(),
        "garbage" => (0..r.below(300)).map(|_| r.next() as u8).collect(),
        _ => format!("{first}{text}").into_bytes(),
    };
    std::fs::write(dir.0.join("out"), &out).unwrap();
    let to = if how == "stderr" { ">&2" } else { "" };
    let read = if how == "does not read" { "" } else { "n=$(ls | grep -c '^in'); cat > in$n" };
    let end = match how {
        "fails" => "exit 1",
        "fails with proof" => "cat out; exit 3",
        "killed" => "cat out; kill -9 $$",
        "timeout" => "echo interrupted by timeout. >&2; cat out; exit 124",
        _ => "cat out",
    };
    // the right one answers each question
    let end = if good && jobs.len() > 1 {
        for (i, j) in jobs.iter().enumerate() {
            dir.put(&format!("out{i}"), &format!("unsat\n{}\n", j.proof.join("\n")));
        }
        "cat out$n".to_string()
    } else {
        format!("{end} {to}")
    };
    dir.put("behave", &format!("{read}\nprintf '%s\\n' \"$@\" > args\n{end}\n"));
    // a link: a program just written by one thread can be busy when another starts something
    let path = dir.0.join(if r.coin() { "solver" } else { "a solver" });
    std::os::unix::fs::symlink(concat!(env!("CARGO_MANIFEST_DIR"), "/fakesolver.sh"), &path).unwrap();
    let solver = match how {
        "missing" => dir.0.join("nothing").display().to_string(),
        "not executable" => dir.0.join("behave").display().to_string(),
        "directory" => dir.0.display().to_string(),
        _ => path.display().to_string(),
    };
    Case { dir, solver, how, bad, proof: text }
}
/// replaces the names in a problem by what they stand for
fn asserted(text: &str) -> Option<Vec<Sx>> {
    let mut names: Vec<(String, Sx)> = vec![];
    fn go(t: &Sx, names: &mut Vec<(String, Sx)>) -> Sx {
        match t {
            Sx::A(x) => names.iter().find(|n| n.0 == **x).map(|n| n.1.clone()).unwrap_or_else(|| t.clone()),
            Sx::L(v) => {
                if v.len() == 4 && v[0].atom() == Some("!") && v[2].atom() == Some(":named") {
                    let x = go(&v[1], names);
                    names.push((v[3].atom().unwrap_or("?").to_string(), x.clone()));
                    return x;
                }
                l(v.iter().map(|x| go(x, names)).collect())
            }
        }
    }
    let cmds = parse_all(text)?;
    Some(cmds.iter().filter(|c| c.is_op("assert")).map(|c| go(&c.args()[0], &mut names)).collect())
}

fn one(cx: &mut Ctx) {
    let r = &mut Rng::new(cx.rng.next());
    let many = r.chance(1, 5);
    let good = many || r.chance(1, 3);
    let mut jobs: Vec<Job> = (0..if many { 2 + r.below(2) } else { 1 })
        .map(|_| loop {
            let j = job(r);
            if j.valid || !good {
                return j;
            }
        })
        .collect();
    let case = behave(r, &jobs, good);
    if many {
        jobs.truncate(3);
    }
    let rule = *r.pick(&["lia_generic", "lia_generic", "all_simplify", "rare_rewrite"]);
    let lia = rule == "lia_generic";
    let extra = match rule {
        "rare_rewrite" => " :args (\"nothing\")",
        "all_simplify" if r.coin() => " :args (a 1)",
        _ => "",
    };
    // the document: every literal is refuted by an assertion
    let inside = if many { 0 } else { r.below(4) };
    let mut pb = String::from(if r.chance(1, 3) { "(set-logic ALL)\n" } else { "" });
    pb.push_str(DECLS);
    let mut pf = String::new();
    let mut tail = String::new();
    let mut n = 0;
    let mut depth = vec![];
    if inside == 1 || inside == 2 {
        pb.push_str("(assert r)\n");
        for k in 0..inside {
            depth.push(format!("{}s{k}", depth.last().map(|d: &String| format!("{d}.")).unwrap_or_default()));
        }
    }
    for (k, j) in jobs.iter().enumerate() {
        let d = if k == 0 { "d".to_string() } else { format!("d{k}") };
        let mut ps = vec![d.clone()];
        for l in &j.clause {
            pb.push_str(&format!("(assert (not {l}))\n"));
            pf.push_str(&format!("(assume h{n} (not {l}))\n"));
            ps.push(format!("h{n}"));
            n += 1;
        }
        tail.push_str(&format!("(step {d} (cl {}) :rule {rule}{extra})\n", j.clause.join(" ")));
        if depth.is_empty() {
            tail.push_str(&format!("(step e{k} (cl) :rule resolution :premises ({}))\n", ps.join(" ")));
        } else {
            tail.push_str(&format!("(step x (cl) :rule resolution :premises ({}))\n", ps.join(" ")));
        }
    }
    for (k, s) in depth.iter().enumerate() {
        pf.push_str(&format!("(anchor :step {s})\n(assume {s}.h {})\n", if k == 0 { "r" } else { "true" }));
    }
    pf.push_str(&tail);
    for (k, s) in depth.iter().enumerate().rev() {
        if k + 1 == depth.len() {
            pf.push_str(&format!("(step {s} (cl (not {}) false) :rule subproof :discharge ({s}.h))\n", if k == 0 { "r" } else { "true" }));
        } else {
            // only the unit clause is left
            let inner = &depth[k + 1];
            pf.push_str(&format!("(step {s}.t (cl true) :rule true)\n(step {s}.u (cl false) :rule resolution :premises ({inner} {s}.t))\n"));
            pf.push_str(&format!("(step {s} (cl (not r) false) :rule subproof :discharge ({s}.h))\n"));
        }
    }
    if let Some(s) = depth.first() {
        pf.push_str(&format!("(assume hr r)\n(step fl (cl (not false)) :rule false)\n(step e (cl) :rule resolution :premises ({s} hr fl))\n"));
        // assumptions must precede subproofs
        pf = pf.replacen("(assume hr r)\n", "", 1);
        pf = format!("(assume hr r)\n{pf}");
    }
    let text = || format!("{pb}---- proof\n{pf}---- solver: {}\n{}", case.how, case.proof);
    crate::watch::set(text);
    let rep = &mut cx.rep;
    let mut o = Opts::default();
    o.parser.allow_int_real_subtyping = r.chance(1, 4);
    o.checker.ignore_unknown_rules = true;
    let loaded = guarded(|| parser::parse_instance(Cursor::new(pb.clone()), Cursor::new(pf.clone()), None::<std::io::Cursor<String>>, o.parser.clone()));
    let (problem, proof, rules, mut pool) = match loaded {
        Ok(Ok(x)) => x,
        e => {
            rep.violation("unparsed", format!("{:?}", e.err()), text());
            return;
        }
    };
    rep.evals += 1;
    rep.seen(&text());
    rep.count(&format!("solver:{}", case.how));
    rep.count(&format!("rule:{rule}"));
    let args: Vec<String> = (0..r.below(4)).map(|i| if r.coin() { format!("--x{i}=y z") } else { "-v".into() }).collect();
    let boxed: Vec<Box<str>> = args.iter().map(|a| a.clone().into()).collect();
    let cfg = Config {
        lia_options: Some(LiaGenericOptions { solver: if lia { case.solver.clone() } else { "/nonexistent/other".into() }.into(), arguments: boxed.clone() }),
        hole_options: Some(HoleOptions { solver: if lia { "/nonexistent/other".into() } else { case.solver.clone() }.into(), arguments: boxed }),
        uncrowd_rotation: r.coin(),
    };
    use ElaborationStep::*;
    let pass = if lia { LiaGeneric } else { Hole };
    let pipe = match r.below(4) {
        0 => vec![pass],
        1 => vec![Polyeq, LiaGeneric, Local, Uncrowd, Reordering, Hole],
        2 => vec![LiaGeneric, Hole, Uncrowd],
        _ => vec![Local, pass, Polyeq, Reordering],
    };
    let ran = if pipe.iter().filter(|p| matches!((p, &pass), (LiaGeneric, LiaGeneric) | (Hole, Hole))).count() == 1 { format!("{pipe:?}") } else { "?".into() };
    let delegated: BTreeSet<Vec<String>> = jobs.iter().map(|j| j.clause.iter().map(|l| parse(l).to_string()).collect()).collect();
    let (commands, defs) = (proof.commands, proof.constant_definitions);
    let done = guarded(|| {
        let f = ProofNodeForest::from_commands(commands);
        Elaborator::new(&mut pool, &problem, cfg).elaborate(f, pipe.clone()).into_commands()
    });
    let commands = match done {
        Ok(c) => c,
        Err(p) => {
            rep.violation(&format!("panic:{}", super::c20::file(&p)), format!("elaboration ({ran}) panics: {p}"), text());
            return;
        }
    };
    let out = Proof { constant_definitions: defs, commands };
    // what the solver was given
    for i in 0..jobs.len() {
        let Some(t) = case.dir.get(&format!("in{i}")) else { continue };
        rep.count("asked");
        let got: Option<Vec<String>> = asserted(&t).map(|v| v.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>().into_iter().collect());
        let fits = jobs.iter().any(|j| {
            let want: Vec<String> = j.clause.iter().map(|l| not(&parse(l)).to_string()).collect::<BTreeSet<_>>().into_iter().collect();
            got.as_ref() == Some(&want)
        });
        if !fits || !t.contains("(check-sat)") || !t.contains("(get-proof)") {
            rep.violation("problem", format!("the solver was given\n{t}"), text());
        }
    }
    if let Some(t) = case.dir.get("args") {
        let want = if args.is_empty() { "\n".into() } else { args.join("\n") + "\n" };
        if t != want {
            rep.violation("arguments", format!("the solver was started with {t:?}, not {want:?}"), text());
        }
    }
    let plain = check_proof(&mut pool, &rules, &problem, &out, &checker::Config::new());
    let tolerant = check_proof(&mut pool, &rules, &problem, &out, &checker::Config::new().ignore_unknown_rules(true));
    let printed = super::c22::print(&mut pool, &problem, &out, false).unwrap_or_else(|e| format!("can not be printed: {e}"));
    if crate::cli::bin().is_some() && rule != "rare_rewrite" && case.how != "does not read" && r.chance(1, 12) {
        command(cx, r, &case, lia, &pb, &pf, &jobs, &o, &pipe, matches!(plain, Out::Valid), &printed);
    }
    let rep = &mut cx.rep;
    let mut it = out.iter();
    let mut left: Vec<Vec<String>> = vec![];
    let mut all: Vec<(String, Vec<String>)> = vec![];
    while let Some(c) = it.next() {
        if let ProofCommand::Step(s) = c {
            let cl: Vec<String> = s.clause.iter().map(|t| crate::ast::conv(t).to_string()).collect();
            if s.rule == rule {
                left.push(cl.clone());
            }
            all.push((s.rule.clone(), cl));
        }
    }
    let mut bad = |sig: &str, what: String| rep.violation(sig, format!("{what} ({ran})\n{printed}"), text());
    if good {
        if !left.is_empty() {
            let alone: Vec<String> = jobs.iter().enumerate().map(|(i, j)| case.dir.get(&format!("in{i}")).map_or("not asked".into(), |t| format!("{:?}", check_plain(&t, &(j.proof.join("\n") + "\n"), &inner())))).collect();
            bad("unused", format!("the right answer of the solver was not used for {left:?} (on its own: {alone:?})"));
            return;
        }
        let mut verdicts = vec![("direct", plain.clone())];
        for sharing in [false, true] {
            let Ok(t) = super::c22::print(&mut pool, &problem, &out, sharing) else { continue };
            let o = Opts { parser: o.parser.clone(), ..Opts::default() };
            verdicts.push(("printed", check_plain(&pb, &t, &o)));
        }
        for (m, v) in verdicts {
            if !matches!(v, Out::Valid) {
                bad(&format!("broken:{m}:{}", v.kind()), format!("with the right answer of the solver, the result is {v:?} ({m})"));
            }
        }
        for d in &delegated {
            // repeated literals may be contracted
            let d: BTreeSet<String> = d.iter().map(|l| l.replace('|', "")).collect();
            if !all.iter().any(|x| x.1.iter().cloned().collect::<BTreeSet<_>>() == d) {
                bad("lost", format!("no step concludes {d:?} any more"));
            }
        }
        rep.count("used");
        return;
    }
    // nothing was justified by this
    let valid = jobs.iter().all(|j| j.valid);
    let standalone = case.dir.get("in0").map(|t| {
        check_plain(&t, &case.proof, &inner())
    });
    rep.count(&format!("answer:{}", standalone.as_ref().map_or("none", |o| o.kind())));
    let unjustified = case.bad || !valid || matches!(standalone, Some(Out::Reject(..) | Out::NoEmpty | Out::ParseErr(_) | Out::Holey));
    if unjustified {
        // uncrowding can find out by itself that a clause has complementary literals
        let plainly = jobs.iter().all(|j| j.clause.iter().any(|l| j.clause.contains(&format!("(not {l})"))));
        if plainly && lia && matches!(plain, Out::Valid) {
            rep.count("tautology");
            return;
        }
        let mut bad = |sig: &str, what: String| rep.violation(sig, format!("{what} ({ran})\n{printed}"), text());
        if matches!(plain, Out::Valid) || matches!(tolerant, Out::Valid) {
            bad("accepted", format!("the result is reported valid ({} clause)", if valid { "valid" } else { "invalid" }));
        }
        if !matches!(tolerant, Out::Holey | Out::Reject(..)) || matches!(tolerant, Out::Reject(..)) && rule != "rare_rewrite" {
            bad(&format!("result:{}", tolerant.kind()), format!("the result is {tolerant:?}"));
        }
        // an answer that may be used only with the holes it declares itself
        let declared = lia && matches!(case.how, "hole" | "lia" | "unknown rule") || case.how == "edit" || case.how == "other proof";
        if left.is_empty() && !(declared && all.iter().any(|x| !matches!(x.0.as_str(), "resolution" | "subproof" | "not_not" | "false"))) {
            bad("replaced", "the step was replaced by something else".into());
        }
        rep.count("kept");
    } else {
        if !matches!(plain, Out::Valid) && left.is_empty() {
            let mut bad = |sig: &str, what: String| rep.violation(sig, format!("{what} ({ran})\n{printed}"), text());
            bad(&format!("broken:{}", plain.kind()), format!("with an answer that checks, the result is {plain:?}"));
        }
        rep.count("fine");
    }
}
/// the same, by the command
#[allow(clippy::too_many_arguments)]
fn command(cx: &mut Ctx, r: &mut Rng, case: &Case, lia: bool, pb: &str, pf: &str, jobs: &[Job], o: &Opts, pipe: &[ElaborationStep], valid: bool, lib: &str) {
    let dir = Scratch::new();
    for f in std::fs::read_dir(&case.dir.0).unwrap().flatten() {
        let n = f.file_name().to_string_lossy().into_owned();
        if n.starts_with("out") || n == "behave" {
            std::fs::copy(f.path(), dir.0.join(n)).unwrap();
        }
    }
    let _ = std::os::unix::fs::symlink(concat!(env!("CARGO_MANIFEST_DIR"), "/fakesolver.sh"), dir.0.join("solver"));
    let solver = match case.how {
        "missing" | "directory" | "not executable" => case.solver.clone(),
        _ => dir.0.join("solver").display().to_string(),
    };
    dir.put("p.smt2", pb);
    dir.put("p.alethe", pf);
    let mut args: Vec<String> = vec!["elaborate".into(), "-i".into()];
    args.extend(crate::cli::parsing_flags(o));
    let (name, other) = if lia { ("lia", "hole") } else { ("hole", "lia") };
    args.extend([format!("--{name}-solver"), solver]);
    let given = match r.below(3) {
        0 => None,
        1 => Some(""),
        _ => Some("--lang=x  -v 3"),
    };
    if let Some(g) = given {
        args.push(format!("--{name}-solver-args={g}"));
    }
    if r.coin() {
        args.extend([format!("--{other}-solver"), "/nonexistent/solver".into(), format!("--{other}-solver-args=--other")]);
    }
    args.push("--pipeline".into());
    for p in pipe {
        use ElaborationStep::*;
        args.push(
            match p {
                Polyeq => "polyeq",
                LiaGeneric => "lia-generic",
                Local => "local",
                Uncrowd => "uncrowd",
                Reordering => "reordering",
                Hole => "hole",
            }
            .into(),
        );
    }
    args.extend(["--".into(), "p.alethe".into(), "p.smt2".into()]);
    let ran = crate::cli::run(&dir.0, &args, None);
    let rep = &mut cx.rep;
    rep.count("command");
    let mut bad = |sig: &str, what: String| rep.violation(sig, format!("{what}\n{args:?}\n{}", ran.show()), format!("{pb}---- proof\n{pf}---- solver: {}\n{}", case.how, case.proof));
    if ran.panicked() || ran.hung() || ran.code != Some(0) {
        bad("command:status", "the command fails".into());
        return;
    }
    if let Some(t) = dir.get("args") {
        let want: Vec<&str> = match (given, lia) {
            (Some(g), _) => g.split_whitespace().collect(),
            (None, true) => "--tlimit=10000 --lang=smt2 --proof-format-mode=alethe --proof-granularity=theory-rewrite --proof-alethe-res-pivots".split(' ').collect(),
            (None, false) => "--disable-banner --disable-print-success --proof-prune --proof-merge --proof=".split(' ').collect(),
        };
        if t.split('\n').filter(|x| !x.is_empty()).collect::<Vec<_>>() != want {
            bad("command:arguments", format!("the solver was started with {t:?}, not {want:?}"));
        }
    }
    let asked = |d: &Scratch| (0..jobs.len()).filter(|i| d.get(&format!("in{i}")).is_some()).count();
    if asked(&dir) != asked(&case.dir) {
        bad("command:asked", format!("the solver was asked {} times, not {}", asked(&dir), asked(&case.dir)));
    }
    let Some((_, text)) = ran.out.split_once('\n') else {
        bad("command:output", "nothing is printed".into());
        return;
    };
    let again = check_plain(pb, text, &Opts { parser: o.parser.clone(), ..Opts::default() });
    if matches!(again, Out::Valid) != valid || !matches!(again, Out::Valid | Out::Holey | Out::Reject(..)) {
        bad("command:result", format!("what is printed is {again:?}; by the library\n{lib}"));
    }
}
fn inner() -> Opts {
    Opts { parser: parser::Config { expand_lets: true, allow_int_real_subtyping: true, ..parser::Config::new() }, ..Opts::default() }
}
pub fn run(cx: &mut Ctx) {
    for _ in 0..cx.iters(400) {
        if cx.late() {
            return;
        }
        one(cx);
    }
}
