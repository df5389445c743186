//! C30: the command line reports what the library decided.
use super::Ctx;
use crate::cli::{self, Ran, Scratch};
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use carcara::ast::*;
use carcara::elaborator::{self, ElaborationStep};
use carcara::parser;
use std::collections::BTreeMap;
use std::io::Cursor;

type Bytes = Vec<u8>;
fn cur(b: &[u8]) -> Cursor<Bytes> {
    Cursor::new(b.to_vec())
}
#[derive(Clone)]
struct Files {
    problem: Option<Bytes>,
    proof: Option<Bytes>,
    rules: Option<Option<Bytes>>,
}
/// what the library says about the files
fn library(f: &Files, o: &Opts) -> Option<Out> {
    let (pb, pf) = (f.problem.as_ref()?, f.proof.as_ref()?);
    let rules = match &f.rules {
        None => None,
        Some(None) => return None,
        Some(Some(r)) => Some(cur(r)),
    };
    let (pc, cc) = (o.parser.clone(), o.checker.clone());
    Some(classify(guarded(|| carcara::check(cur(pb), cur(pf), rules, pc, cc, false))))
}
fn sv(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
#[derive(Clone, Copy, PartialEq)]
enum Via {
    Files,
    Stdin(u8),
    Inferred,
}
const PROOF: &str = "x y.smt2.alethe";
const PROBLEM: &str = "x y.smt2";
/// positional arguments, and what goes to standard input
fn place(dir: &Scratch, f: &Files, via: Via, broken: Option<&str>) -> (Vec<String>, Option<Bytes>) {
    let put = |name: &str, b: &Option<Bytes>| match (b, broken) {
        (Some(b), _) => std::fs::write(dir.0.join(name), b).unwrap(),
        // a directory where a file should be
        (None, Some("dir")) => std::fs::create_dir_all(dir.0.join(name)).unwrap(),
        _ => (),
    };
    put(PROOF, &f.proof);
    put(PROBLEM, &f.problem);
    let mut pos = match via {
        Via::Files => sv(&[PROOF, PROBLEM]),
        Via::Inferred => sv(&[PROOF]),
        Via::Stdin(0) => sv(&["-", PROBLEM]),
        Via::Stdin(_) => sv(&[PROOF, "-"]),
    };
    let input = match via {
        Via::Stdin(0) => f.proof.clone(),
        Via::Stdin(_) => f.problem.clone(),
        _ => None,
    };
    if let Some(r) = &f.rules {
        put("rules.eo", r);
        pos.splice(0..0, sv(&["--rare-file", "rules.eo"]));
    }
    (pos, input)
}
/// everything in the scratch directory that was not put there
fn made(dir: &Scratch) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(&dir.0).unwrap() {
        let p = e.unwrap().path();
        let n = p.file_name().unwrap().to_string_lossy().into_owned();
        if n != PROOF && n != PROBLEM && n != "rules.eo" {
            m.insert(n, String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).into_owned());
        }
    }
    m
}
fn pipe_flags(p: &Option<Vec<ElaborationStep>>) -> Vec<String> {
    use ElaborationStep::*;
    let Some(v) = p else { return vec![] };
    let mut a = sv(&["--pipeline"]);
    for s in v {
        a.push(
            match s {
                Polyeq => "polyeq",
                LiaGeneric => "lia-generic",
                Local => "local",
                Uncrowd => "uncrowd",
                Reordering => "reordering",
                Hole => "hole",
            }
            .into(),
        );
    }
    a
}
fn all_steps() -> Vec<ElaborationStep> {
    use ElaborationStep::*;
    vec![Polyeq, LiaGeneric, Local, Uncrowd, Reordering, Hole]
}
/// the message on standard error names what failed
fn names_failure(err: &str, out: &Out) -> Result<(), String> {
    let want = match out {
        Out::Reject(step, rule, _) => format!("checking failed on step '{step}' with rule '{rule}'"),
        Out::NoEmpty => "does not conclude empty clause".into(),
        Out::ParseErr(e) if e.contains("(on line ") => {
            let k = e.rfind("(on line ").unwrap();
            e[k..].split(')').next().unwrap().to_string()
        }
        _ => return Ok(()),
    };
    if err.contains(&want) {
        Ok(())
    } else {
        Err(format!("the message does not say {want:?}"))
    }
}
fn readable(pb: &[u8], pf: &str, o: &Opts) -> Out {
    let (pc, cc) = (o.parser.clone(), o.checker.clone());
    let rules = o.rules.clone().map(|r| cur(r.as_bytes()));
    classify(guarded(|| carcara::check(cur(pb), cur(pf.as_bytes()), rules, pc, cc, false)))
}
fn one(f: &Files, o: &Opts, broken: Option<&str>, r: &mut Rng, rep: &mut Report) {
    let lib = library(f, o);
    if matches!(lib, Some(Out::Panic(_))) {
        rep.count("panicked");
        return;
    }
    let dir = Scratch::new();
    let via = match r.below(6) {
        0 if f.proof.is_some() => Via::Stdin(0),
        1 if f.problem.is_some() => Via::Stdin(1),
        2 => Via::Inferred,
        _ => Via::Files,
    };
    let (pos, stdin) = place(&dir, f, via, broken);
    let cmd = *r.pick(&["check", "check", "check", "elaborate", "elaborate", "parse", "slice", "slice", "generate-lia-problems", "bench"]);
    let mut args: Vec<String> = vec![cmd.into()];
    let sharing = r.coin();
    if !sharing {
        args.push((*r.pick(&["-v", "--no-print-with-sharing"])).into());
    }
    let quiet = r.chance(1, 8);
    if quiet {
        args.push("--log=off".into());
    } else if r.chance(1, 8) {
        args.push("--log=info".into());
    }
    if r.chance(1, 6) {
        args.push("--no-color".into());
    }
    args.extend(cli::parsing_flags(o));
    if r.chance(1, 5) {
        args.push("--buffer-entire-file".into());
    }
    let mut stats = false;
    if matches!(cmd, "check" | "elaborate") && r.chance(1, 5) {
        args.push("--stats".into());
        stats = true;
    }
    if matches!(cmd, "check" | "elaborate" | "bench") {
        let mut c = cli::checking_flags(o);
        if let Some(x) = c.iter_mut().find(|x| *x == "--ignore-unknown-rules") {
            *x = (*r.pick(&["-i", "--ignore-unknown-rules", "--skip-unknown-rules"])).into();
        }
        if !o.checker.elaborated && r.chance(1, 6) {
            c.splice(0..0, sv(&["--check-granularity", "normal"]));
        }
        args.extend(c);
    } else if cmd == "slice" {
        if o.checker.ignore_unknown_rules {
            args.push("-i".into());
        }
    }
    let mut threads = 1;
    if cmd == "check" && r.chance(1, 3) {
        threads = 1 + r.below(6);
        args.splice(1..1, sv(&["-u", &threads.to_string()]));
    }
    // elaboration
    let (_, mut pipe) = super::c20::pipeline(r);
    let rot = cmd == "elaborate" && r.chance(1, 4);
    if cmd == "elaborate" {
        if rot {
            args.push("--uncrowd-rotate".into());
        }
        args.extend(pipe_flags(&pipe));
    }
    let pipe = pipe.take().unwrap_or_else(all_steps);
    // slicing: the target
    let loaded = match (&lib, &f.problem, &f.proof) {
        (Some(x), Some(pb), Some(pf)) if !matches!(x, Out::ParseErr(_)) => guarded(|| {
            let rules = f.rules.clone().flatten().map(Cursor::new);
            parser::parse_instance(cur(pb), cur(pf), rules, o.parser.clone())
        })
        .ok()
        .and_then(|x| x.ok()),
        _ => None,
    };
    let mut from = String::new();
    let mut dist = None;
    let mut ambiguous = false;
    let mut outs: Option<(String, String)> = None;
    if cmd == "slice" {
        let ids: Vec<String> = loaded
            .as_ref()
            .map(|l| {
                let mut v = vec![];
                let mut it = l.1.iter();
                while let Some(c) = it.next() {
                    v.push(c.id().to_string());
                }
                v
            })
            .unwrap_or_default();
        from = if ids.is_empty() || r.chance(1, 10) { "no-such-step".into() } else { r.pick(&ids).clone() };
        if from.contains('/') || from.starts_with('-') || from.is_empty() {
            from = "no-such-step".into();
        }
        args.extend(sv(&["--from", &from]));
        ambiguous = ids.iter().filter(|i| **i == from).count() > 1;
        if r.coin() {
            let d = *r.pick(&[0usize, 1, 2, 5, 1000]);
            args.extend(sv(&[*r.pick(&["-d", "--max-distance"]), &d.to_string()]));
            dist = Some(d);
        }
        if r.coin() {
            args.extend(sv(&["--sliced-output", "out problem.smt2", "out proof.alethe"]));
            outs = Some(("out problem.smt2".into(), "out proof.alethe".into()));
        }
    }
    if cmd == "bench" {
        // one file, whose problem is inferred
        if f.rules.is_some() || lib.is_none() {
            return;
        }
        args.push("--".into());
        args.push(PROOF.into());
    } else {
        // the rare file is an option
        let k = pos.iter().position(|x| x == "rules.eo").map_or(0, |k| k + 1);
        args.extend(pos[..k].iter().cloned());
        args.push("--".into());
        args.extend(pos[k..].iter().cloned());
    }
    let stdin_text = if cmd == "bench" { None } else { stdin };
    let show = |b: &Option<Bytes>| b.as_ref().map_or("(missing)".into(), |b| String::from_utf8_lossy(b).into_owned());
    let input = {
        let a = args.clone();
        let (p, q) = (show(&f.problem), show(&f.proof));
        let ru = f.rules.clone().map(|x| show(&x));
        let via = match via {
            Via::Stdin(0) => " (proof on standard input)",
            Via::Stdin(_) => " (problem on standard input)",
            _ => "",
        };
        move || format!("carcara {a:?}{via}\n{p}---- proof\n{q}{}", ru.as_ref().map(|r| format!("\n---- rules\n{r}")).unwrap_or_default())
    };
    crate::watch::set(input.clone());
    let ran: Ran = cli::run_bytes(&dir.0, &args, stdin_text.as_deref());
    rep.evals += 1;
    let class = lib.as_ref().map_or("unreadable", |l| l.kind());
    rep.count(&format!("{cmd}:{class}"));
    if via == Via::Inferred {
        rep.count("inferred problem file");
    } else if via != Via::Files {
        rep.count("standard input");
    }
    rep.distinct.insert(crate::report::hash_str(&input()));
    macro_rules! bad {
        ($sig:expr, $($w:tt)*) => {{
            rep.violation($sig, format!("{}; {}", format!($($w)*), ran.show()), input());
            return;
        }};
    }
    if ran.hung() {
        bad!(&format!("{cmd}:hang"), "does not end");
    }
    if ran.panicked() {
        bad!(&format!("{cmd}:panic"), "panics");
    }
    if quiet && !ran.err.is_empty() {
        bad!(&format!("{cmd}:log"), "writes to standard error although logging is off");
    }
    let parsed = lib.as_ref().is_some_and(|l| !matches!(l, Out::ParseErr(_)));
    let verdicts: Vec<&str> = ran.out.lines().filter(|l| matches!(*l, "valid" | "holey" | "invalid")).collect();
    let fails = |sig: &str, out: &Option<Out>| -> Result<(), (String, String)> {
        if ran.code == Some(0) {
            return Err((format!("{sig}:status"), "the command succeeds".into()));
        }
        if verdicts.iter().any(|v| *v != "invalid") {
            return Err((format!("{sig}:verdict"), format!("says {verdicts:?}")));
        }
        if !quiet {
            if ran.err.trim().is_empty() {
                return Err((format!("{sig}:silent"), "there is no message".into()));
            }
            // the order in which problems of encoding and of syntax are met depends on buffering
            let utf8 = [&f.problem, &f.proof].iter().all(|x| x.as_ref().is_some_and(|b| std::str::from_utf8(b).is_ok()));
            if let Some(o) = out.as_ref().filter(|_| threads == 1 && utf8) {
                names_failure(&ran.err, o).map_err(|e| (format!("{sig}:message"), e))?;
            }
        }
        Ok(())
    };
    match cmd {
        "check" => {
            let want = match &lib {
                Some(Out::Valid) => "valid",
                Some(Out::Holey) => "holey",
                _ => "invalid",
            };
            if ran.last() != want || verdicts.len() != 1 {
                bad!("check:verdict", "the library says {class}, the command {verdicts:?}");
            }
            if want == "invalid" {
                if let Err((s, e)) = fails("check", &lib) {
                    bad!(&s, "{e}");
                }
            } else if ran.code != Some(0) {
                bad!("check:status", "accepted, but the command fails");
            }
            if !stats && ran.out != format!("{want}\n") {
                bad!("check:output", "more is printed than the verdict");
            }
        }
        "bench" => {
            if ran.code != Some(0) {
                bad!("bench:status", "the command fails");
            }
            let want = match lib.as_ref().unwrap() {
                Out::Valid => vec!["valid"],
                Out::Holey => vec!["holey"],
                Out::ParseErr(_) => vec![],
                _ => vec!["invalid"],
            };
            if verdicts != want {
                bad!("bench:verdict", "the library says {class}, the command {verdicts:?}");
            }
        }
        "parse" => {
            if !parsed {
                if let Err((s, e)) = fails("parse", &lib) {
                    bad!(&s, "{e}");
                }
                if !ran.out.is_empty() {
                    bad!("parse:output", "something is printed for unreadable input");
                }
            } else {
                let Some((pb, pf, _, mut pool)) = loaded else { return };
                if ran.code != Some(0) {
                    bad!("parse:status", "the command fails");
                }
                if let Ok(t) = super::c22::print(&mut pool, &pb, &pf, sharing) {
                    if t != ran.out {
                        bad!("parse:output", "the library prints\n{t}");
                    }
                }
                let again = readable(f.problem.as_ref().unwrap(), &ran.out, o);
                if again.verdict() != lib.as_ref().unwrap().verdict() {
                    bad!("parse:readable", "what is printed is {}, the proof is {class}", again.kind());
                }
            }
        }
        "elaborate" => {
            if !lib.as_ref().is_some_and(|l| l.accepted()) {
                if let Err((s, e)) = fails("elaborate", &lib) {
                    bad!(&s, "{e}");
                }
                if !stats && !ran.out.is_empty() || !verdicts.is_empty() {
                    bad!("elaborate:output", "something is printed for a proof that is not accepted");
                }
            } else {
                let rules = f.rules.clone().flatten().map(Cursor::new);
                let cf = elaborator::Config { lia_options: None, hole_options: None, uncrowd_rotation: rot };
                let (pb, pf) = (f.problem.clone().unwrap(), f.proof.clone().unwrap());
                let done = guarded(|| carcara::check_and_elaborate(cur(&pb), cur(&pf), rules, o.parser.clone(), o.checker.clone(), cf, pipe, false));
                let (holey, problem, proof, mut pool) = match done {
                    Ok(Ok(x)) => x,
                    _ => {
                        rep.count("not elaborated");
                        return;
                    }
                };
                if ran.code != Some(0) {
                    bad!("elaborate:status", "the command fails");
                }
                let v = if holey { "holey" } else { "valid" };
                if verdicts != [v] {
                    bad!("elaborate:verdict", "the library says {v}, the command {verdicts:?}");
                }
                // statistics come before the verdict
                let k = ran.out.find(&format!("{v}\n")).unwrap();
                if k > 0 && !stats {
                    bad!("elaborate:output", "something is printed before the verdict");
                }
                let text = &ran.out[k + v.len() + 1..];
                if let Ok(t) = super::c22::print(&mut pool, &problem, &proof, sharing) {
                    if t != text {
                        bad!("elaborate:output", "the library prints\n{t}");
                    }
                }
                let again = readable(&pb, text, &Opts { rules: o.rules.clone(), parser: o.parser.clone(), checker: o.checker.clone() });
                if matches!(again, Out::ParseErr(_)) {
                    bad!("elaborate:readable", "what is printed is not readable: {again:?}");
                }
            }
        }
        "slice" => {
            let expect = loaded.and_then(|(pb, pf, _, mut pool)| {
                let (s, asserts) = carcara::slice::slice(&pf, &from, &mut pool, dist.unwrap_or(0))?;
                let mut v = format!("{}", pb.prelude).into_bytes();
                write_asserts(&mut pool, &pb.prelude, &mut v, &asserts, false).ok()?;
                let problem = format!("{}(check-sat)\n(exit)\n", String::from_utf8(v).ok()?);
                Some((problem, super::c22::print(&mut pool, &pb, &s, sharing).ok()?))
            });
            let files = made(&dir);
            match expect {
                None => {
                    if let Err((s, e)) = fails("slice", if parsed { &None } else { &lib }) {
                        bad!(&s, "{e}");
                    }
                    if !ran.out.is_empty() || !files.is_empty() {
                        bad!("slice:output", "something is written ({:?}) although there is nothing to slice", files.keys());
                    }
                }
                Some((problem, proof)) => {
                    if ran.code != Some(0) {
                        bad!("slice:status", "the command fails");
                    }
                    if ran.out != proof {
                        bad!("slice:output", "the library prints\n{proof}");
                    }
                    // the problem comes first, as the help text says
                    let (a, b) = outs.clone().unwrap_or_else(|| {
                        let base = match via {
                            Via::Stdin(0) => "-",
                            _ => "x y.smt2",
                        };
                        (format!("{base}-{from}.smt2"), format!("{base}-{from}.alethe"))
                    });
                    if files.keys().collect::<Vec<_>>() != { let mut v = vec![&a, &b]; v.sort(); v } {
                        bad!("slice:files", "wrote {:?} instead of {a:?} and {b:?}", files.keys());
                    }
                    if files[&a] != problem {
                        bad!("slice:problem", "the sliced problem {a:?} is\n{}\ninstead of\n{problem}", files[&a]);
                    }
                    if files[&b].trim_end() != proof.trim_end() {
                        bad!("slice:proof", "the sliced proof {b:?} is\n{}\ninstead of\n{proof}", files[&b]);
                    }
                    // what was written is a proof of it
                    if lib.as_ref().is_some_and(|l| l.accepted()) && !ambiguous && r.coin() {
                        let mut c = sv(&["check"]);
                        c.extend(cli::parsing_flags(o));
                        c.extend(cli::checking_flags(o));
                        if f.rules.is_some() {
                            c.extend(sv(&["--rare-file", "rules.eo"]));
                        }
                        c.extend(["--".to_string(), b.clone(), a.clone()]);
                        let again = cli::run_bytes(&dir.0, &c, None);
                        rep.count(&format!("slice checked: {}", again.last()));
                        if again.code != Some(0) {
                            let e = again.show();
                            bad!("slice:check", "the written slice does not check: {e}");
                        }
                    }
                }
            }
        }
        _ => {
            let expect = if !parsed {
                None
            } else {
                let rules = f.rules.clone().flatten().map(Cursor::new);
                let (pb, pf) = (f.problem.clone().unwrap(), f.proof.clone().unwrap());
                match guarded(|| carcara::generate_lia_smt_instances(cur(&pb), cur(&pf), rules, o.parser.clone(), sharing)) {
                    Ok(Ok(v)) => Some(v),
                    Ok(Err(_)) => None,
                    Err(_) => return,
                }
            };
            let files = made(&dir);
            match expect {
                None => {
                    if let Err((s, e)) = fails("generate-lia-problems", &lib) {
                        bad!(&s, "{e}");
                    }
                    if !files.is_empty() {
                        bad!("generate-lia-problems:output", "wrote {:?}", files.keys());
                    }
                }
                Some(v) => {
                    if ran.code != Some(0) && !v.iter().any(|(id, _)| id.contains('/')) {
                        bad!("generate-lia-problems:status", "the command fails");
                    }
                    let base = if let Via::Stdin(0) = via { "-" } else { PROOF };
                    let want: BTreeMap<String, String> = v.into_iter().map(|(id, t)| (format!("{base}-{id}.lia_smt2"), t)).collect();
                    rep.add("generated problems", want.len() as u64);
                    if ran.code == Some(0) && files != want {
                        bad!("generate-lia-problems:files", "wrote {files:?} instead of {want:?}");
                    }
                    if !ran.out.is_empty() {
                        bad!("generate-lia-problems:output", "something is printed");
                    }
                }
            }
        }
    }
}

fn garble(b: &mut Bytes, r: &mut Rng) {
    match r.below(6) {
        0 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let k = r.below(b.len() + 1);
            let x: &[u8] = *r.pick::<&[u8]>(&[b"\xff\xfe", b"((", b"))", b"|\0", b"\"x", b"\xc3\x28"]);
            b.splice(k..k, x.iter().copied());
        }
        2 => b.clear(),
        3 if !b.is_empty() => {
            let k = r.below(b.len());
            b[k] = *r.pick(b"()|\":x0 \n;");
        }
        4 if !b.is_empty() => {
            let (i, j) = (r.below(b.len()), r.below(b.len()));
            let _ = b.drain(i.min(j)..i.max(j).min(i.min(j) + 12));
        }
        _ => b.extend_from_slice(b"\n; a comment"),
    }
}
fn several(pb: &str, pf: &str, o: &Opts, n: usize, r: &mut Rng, rep: &mut Report) {
    for _ in 0..n {
        let mut o = o.clone();
        let mut f = Files { problem: Some(pb.into()), proof: Some(pf.into()), rules: o.rules.clone().map(|s| Some(s.into())) };
        let mut broken = None;
        match r.below(8) {
            0 => garble(f.proof.as_mut().unwrap(), r),
            1 => garble(f.problem.as_mut().unwrap(), r),
            2 => {
                broken = Some(*r.pick(&["missing", "dir"]));
                match r.below(3) {
                    0 => f.problem = None,
                    1 => f.proof = None,
                    _ => f.rules = Some(None),
                }
            }
            3 => {
                // other options
                let p = &mut o.parser;
                for b in [&mut p.apply_function_defs, &mut p.expand_lets, &mut p.allow_int_real_subtyping, &mut p.strict, &mut p.parse_hole_args] {
                    if r.chance(1, 4) {
                        *b = !*b;
                    }
                }
                let c = &mut o.checker;
                for b in [&mut c.elaborated, &mut c.ignore_unknown_rules] {
                    if r.chance(1, 4) {
                        *b = !*b;
                    }
                }
                if r.coin() {
                    for x in ["trust", "and", "no-such-rule", "resolution"] {
                        if r.coin() {
                            c.allowed_rules.insert(x.into());
                        }
                    }
                }
            }
            4 if r.coin() => {
                // a rule that may be unknown or wrong
                if let Some(k) = pf.find(":rule ") {
                    let ends: Vec<usize> = pf.match_indices(":rule ").map(|x| x.0 + 6).collect();
                    let at = if r.coin() { k + 6 } else { *r.pick(&ends) };
                    let len = pf[at..].find([' ', ')', '\n']).unwrap_or(0);
                    let new = *r.pick(&["hole", "no-such-rule", "resolution", "lia_generic", "trust", "symm"]);
                    f.proof = Some(format!("{}{new}{}", &pf[..at], &pf[at + len..]).into());
                    if r.coin() {
                        o.checker.ignore_unknown_rules = true;
                    } else if r.coin() {
                        o.checker.allowed_rules.insert(new.into());
                    }
                }
            }
            5 => f.proof = Some(format!("{pf}\n(step t.l (cl (= 0 0)) :rule lia_generic)\n(step |t l| (cl (not (< 1 0)) (= 1 2)) :rule lia_generic)\n").into()),
            _ => (),
        }
        one(&f, &o, broken, r, rep);
    }
}
/// what goes wrong after the verdict is known must not look like success
fn unwritable(r: &mut Rng, rep: &mut Report) {
    let dir = Scratch::new();
    let (pb, pf) = super::c20::mixed(r);
    dir.put("p.smt2", &pb);
    dir.put("p.alethe", &pf);
    let cmd = *r.pick(&["check", "elaborate", "parse", "slice"]);
    let mut a = sv(&[cmd]);
    if cmd == "slice" {
        // the files cannot be created
        a.extend(sv(&["--from", "end", "--sliced-output", "none/a.smt2", "none/b.alethe"]));
    }
    a.extend(sv(&["--", "p.alethe", "p.smt2"]));
    let ran = if cmd == "slice" { cli::run_bytes(&dir.0, &a, None) } else { cli::run_full(&dir.0, &a) };
    rep.evals += 1;
    rep.count(&format!("unwritable:{cmd}"));
    if ran.code == Some(0) {
        rep.violation(&format!("{cmd}:unwritten"), format!("succeeds although the output cannot be written; {}", ran.show()), format!("{pb}---- proof\n{pf}"));
    }
}
/// wrong usage is refused without a verdict
fn usage(r: &mut Rng, rep: &mut Report) {
    let dir = Scratch::new();
    let (pb, pf) = super::c20::mixed(r);
    dir.put("p.smt2", &pb);
    dir.put("p.alethe", &pf);
    let a: Vec<&str> = r
        .pick::<Vec<&str>>(&[
            vec!["check"],
            vec![],
            vec!["check", "-", "-"],
            vec!["check", "-"],
            vec!["elaborate", "-"],
            vec!["parse", "-", "-"],
            vec!["check", "-u", "0", "p.alethe", "p.smt2"],
            vec!["check", "-u", "many", "p.alethe", "p.smt2"],
            vec!["check", "p.alethe"],
            vec!["check", "--no-such-option", "p.alethe", "p.smt2"],
            vec!["check", "-i", "--skip-unknown-rules", "p.alethe", "p.smt2"],
            vec!["check", "--check-granularity", "fine", "p.alethe", "p.smt2"],
            vec!["slice", "p.alethe", "p.smt2"],
            vec!["slice", "p.alethe", "p.smt2", "--from", "end", "-d", "-1"],
            vec!["elaborate", "p.alethe", "p.smt2", "--pipeline", "everything"],
            vec!["elaborate", "--lia-solver-args", "-x", "--", "p.alethe", "p.smt2"],
            vec!["verify", "p.alethe", "p.smt2"],
            vec!["bench", "p.alethe"],
            vec!["bench", "missing.smt2.alethe"],
        ])
        .clone();
    let ran = cli::run_bytes(&dir.0, &sv(&a), None);
    rep.evals += 1;
    rep.count("wrong usage");
    let input = format!("carcara {a:?}\n{pb}---- proof\n{pf}");
    if ran.code == Some(0) || ran.panicked() || ran.hung() {
        rep.violation("usage:status", ran.show(), input.clone());
    }
    if ran.out.lines().any(|l| l == "valid" || l == "holey") {
        rep.violation("usage:verdict", ran.show(), input.clone());
    }
    if ran.err.is_empty() {
        rep.violation("usage:silent", ran.show(), input);
    }
}
pub fn run(cx: &mut Ctx) {
    if cli::bin().is_none() {
        panic!("CVH_CLI is not set");
    }
    let mut r = Rng::new(cx.rng.next());
    for _ in 0..cx.iters(60) {
        if cx.late() {
            break;
        }
        usage(&mut r, &mut cx.rep);
        unwritable(&mut r, &mut cx.rep);
    }
    for _ in 0..cx.iters(60) {
        if cx.late() {
            break;
        }
        let (pb, pf) = super::c20::mixed(&mut r);
        several(&pb, &pf, &Opts::default(), 2, &mut r, &mut cx.rep);
    }
    for _ in 0..cx.iters(60) {
        if cx.late() {
            break;
        }
        let p = super::c17::nest(&mut r);
        several(&p.problem(), &p.proof(), &Opts::default(), 2, &mut r, &mut cx.rep);
    }
    for _ in 0..cx.iters(40) {
        if cx.late() {
            break;
        }
        let (t, o) = super::c22::instance(cx);
        several(&t.problem, &t.proof, &o, 2, &mut r, &mut cx.rep);
    }
    cx.workloads(super::c17::ALL, 25, move |_, pb, pf, o, _, rep| several(pb, pf, o, 1, &mut r, rep));
}
