//! C32: problems generated for arithmetic steps.
use super::Ctx;
use crate::front::Sig;

use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::sorts::Decls;
use crate::sx::*;
use crate::typing::{raw, Tc, Ty};
use carcara::ast::*;
use carcara::parser;
use std::collections::HashMap;
use std::io::{Cursor, Write};
use std::process::{Command, Stdio};

/// literals as they denote: `(- 3)` is -3, `(/ 1 2)` is 1/2, `2.50` is 5/2
fn num(s: &Sx) -> Option<rug::Rational> {
    use rug::Rational;
    match s {
        Sx::A(x) => {
            let x = x.strip_prefix('-').map_or((&**x, false), |y| (y, true));
            if !x.0.starts_with(|c: char| c.is_ascii_digit()) {
                return None;
            }
            let v: Rational = match x.0.split_once('.') {
                Some((i, f)) if !f.is_empty() && f.chars().all(|c| c.is_ascii_digit()) => {
                    let n: rug::Integer = format!("{i}{f}").parse().ok()?;
                    Rational::from((n, rug::Integer::from(rug::Integer::u_pow_u(10, f.len() as u32))))
                }
                Some(_) => return None,
                None => x.0.parse().ok()?,
            };
            Some(if x.1 { -v } else { v })
        }
        Sx::L(v) => match &v[..] {
            [Sx::A(h), x] if &**h == "-" => Some(-num(x)?),
            [Sx::A(h), x, y] if &**h == "/" => {
                let (x, y) = (num(x)?, num(y)?);
                (y != 0).then(|| x / y)
            }
            _ => None,
        },
    }
}
fn real_lit(s: &Sx) -> bool {
    match s {
        Sx::A(x) => x.contains('.') || x.contains('/'),
        Sx::L(v) => v.iter().any(real_lit) || v.first().and_then(|h| h.atom()) == Some("/"),
    }
}
fn canon(s: &Sx) -> Sx {
    if let Some(v) = num(s) {
        return a(&format!("{}{v}", if real_lit(s) { "R" } else { "I" }));
    }
    match s {
        Sx::L(v) => l(v.iter().map(canon).collect()),
        x => x.clone(),
    }
}
/// what is not part of SMT-LIB
fn exotic(t: &Sx) -> bool {
    match t {
        Sx::A(x) => x.starts_with('@') || matches!(&**x, "choice" | "lambda" | "rare-list" | "cl" | "Type" | "->" | "RareList" | "const" | "sbv_to_int" | "ubv_to_int" | "int_to_bv" | "int.ispow2" | "int.log2" | "int.pow2"),
        Sx::L(v) => v.iter().any(exotic),
    }
}
struct Reader {
    tc: Tc,
    named: HashMap<String, Sx>,
    shared: usize,
}
impl Reader {
    /// the term without names; names are only given to closed terms, once, before they are used
    fn expand(&mut self, t: &Sx, bound: &mut Vec<String>) -> Result<Sx, String> {
        match t {
            Sx::A(x) => {
                let n = raw(x);
                if bound.contains(&n) {
                    return Ok(t.clone());
                }
                Ok(self.named.get(&n).cloned().unwrap_or_else(|| t.clone()))
            }
            Sx::L(v) => {
                let h = v.first().and_then(|h| h.atom()).unwrap_or("");
                match (h, v.len()) {
                    ("as" | "_", _) => Ok(t.clone()),
                    ("!", 4) if v[2].atom() == Some(":named") => {
                        let x = self.expand(&v[1], bound)?;
                        let n = raw(v[3].atom().ok_or("a name that is not a symbol")?);
                        if bound.iter().any(|b| mentions(&x, b)) {
                            return Err(format!("the name {n} is given to a term with bound variables: {x}"));
                        }
                        if bound.contains(&n) || self.named.contains_key(&n) || self.tc.funs.iter().any(|f| f.0 == n) {
                            return Err(format!("the name {n} is taken"));
                        }
                        if n.starts_with('@') || n.starts_with('.') {
                            return Err(format!("the name {n} is reserved"));
                        }
                        self.shared += 1;
                        self.named.insert(n, x.clone());
                        Ok(x)
                    }
                    ("forall" | "exists" | "lambda" | "choice", 3) => {
                        let k = bound.len();
                        for b in v[1].list().ok_or("a binder")? {
                            bound.push(raw(b.list().and_then(|b| b[0].atom()).ok_or("a variable")?));
                        }
                        let b = self.expand(&v[2], bound);
                        bound.truncate(k);
                        Ok(l(vec![v[0].clone(), v[1].clone(), b?]))
                    }
                    ("let", 3) => {
                        let mut bs = vec![];
                        let k = bound.len();
                        let mut names = vec![];
                        for b in v[1].list().ok_or("a let")? {
                            let b = b.list().ok_or("a let")?;
                            names.push(raw(b[0].atom().ok_or("a variable")?));
                            bs.push(l(vec![b[0].clone(), self.expand(&b[1], bound)?]));
                        }
                        bound.extend(names);
                        let b = self.expand(&v[2], bound);
                        bound.truncate(k);
                        Ok(l(vec![v[0].clone(), l(bs), b?]))
                    }
                    _ => Ok(l(v.iter().map(|x| self.expand(x, bound)).collect::<Result<_, _>>()?)),
                }
            }
        }
    }
}
/// occurs free
fn mentions(t: &Sx, n: &str) -> bool {
    match t {
        Sx::A(x) => !x.starts_with('"') && raw(x) == n,
        Sx::L(v) => {
            let h = v.first().and_then(|h| h.atom()).unwrap_or("");
            let binds = |v: &[Sx]| v[1].list().is_some_and(|bs| bs.iter().any(|b| b.list().is_some_and(|b| b[0].atom().is_some_and(|x| raw(x) == n))));
            match (h, v.len()) {
                ("as" | "_", _) => false,
                ("forall" | "exists" | "lambda" | "choice", 3) => !binds(v) && mentions(&v[2], n),
                ("let", 3) => v[1].list().is_some_and(|bs| bs.iter().any(|b| b.list().is_some_and(|b| mentions(&b[1], n)))) || !binds(v) && mentions(&v[2], n),
                _ => v.iter().any(|x| mentions(x, n)),
            }
        }
    }
}
/// `text` is a script that asserts the negations of the literals of `clause`
fn script(text: &str, pool: &mut PrimitivePool, o: &Opts, pb: &str, clause: &[Rc<Term>], rep: &mut Report) -> Result<bool, (String, String)> {
    let e = |s: &str, w: String| (s.to_string(), w);
    let cmds = parse_all(text).ok_or_else(|| e("malformed", "the problem is not a sequence of S-expressions".into()))?;
    let mut rd = Reader { tc: Tc::new(&Sig::default()), named: HashMap::new(), shared: 0 };
    rd.tc.sub = o.parser.allow_int_real_subtyping;
    let mut stage = 0;
    let mut plain = true;
    let mut got: Vec<Sx> = vec![];
    let mut logic = None;
    for c in &cmds {
        let v = c.list().unwrap_or(&[]);
        let (h, s) = match v.first().and_then(|h| h.atom()).unwrap_or("") {
            h @ "set-logic" => (h, 0),
            h @ ("declare-sort" | "declare-fun" | "declare-const" | "define-sort") => (h, 1),
            h @ "assert" => (h, 2),
            h @ "check-sat" => (h, 3),
            h @ "exit" => (h, 4),
            h => return Err(e("command", format!("the command {h:?} in the problem"))),
        };
        if s < stage || s >= 3 && s == stage {
            return Err(e("command", format!("{c} is out of place")));
        }
        stage = s;
        match (h, v) {
            ("set-logic", [_, x]) => logic = x.atom().map(|x| x.to_string()),
            ("declare-sort", [_, n, k]) => rd.tc.sorts.push((raw(n.atom().unwrap()), k.atom().unwrap().parse().unwrap())),
            ("declare-fun", [_, n, ps, s]) => {
                let n = raw(n.atom().unwrap());
                if rd.tc.funs.iter().any(|f| f.0 == n) {
                    return Err(e("declared-twice", format!("{n} is declared twice")));
                }
                plain &= !exotic(ps) && !exotic(s);
                rd.tc.funs.push((n, ps.list().unwrap().iter().map(crate::typing::norm).collect(), crate::typing::norm(s)));
            }
            ("declare-const", [_, n, s]) => rd.tc.funs.push((raw(n.atom().unwrap()), vec![], crate::typing::norm(s))),
            ("assert", [_, t]) => {
                plain &= !exotic(t);
                let x = rd.expand(t, &mut vec![]).map_err(|w| e("name", w))?;
                match rd.tc.ty(&x) {
                    Ty::T(s) if s == a("Bool") => (),
                    Ty::T(s) => return Err(e("ill-sorted", format!("{x} is asserted, its sort is {s}"))),
                    Ty::Ill(w) => return Err(e("ill-sorted", format!("{x} is asserted: {w}"))),
                    Ty::Unsure => rep.count("unsure of the sort"),
                }
                got.push(x);
            }
            ("check-sat" | "exit", [_]) => (),
            _ => return Err(e("command", format!("{c}"))),
        }
    }
    if stage != 4 {
        return Err(e("command", "the script does not end with (check-sat) (exit)".into()));
    }
    let before = parse_all(pb).and_then(|v| v.iter().find(|c| c.is_op("set-logic")).and_then(|c| c.list().unwrap()[1].atom().map(|x| x.to_string())));
    // a problem that names no logic may use everything
    if logic != before && !(before.is_none() && logic.as_deref() == Some("ALL")) {
        return Err(e("logic", format!("the logic is {logic:?}, that of the problem {before:?}")));
    }
    rep.add("shared terms", rd.shared as u64);
    // what the assertions mean
    let cfg = parser::Config { expand_lets: false, ..o.parser.clone() };
    let again = guarded(|| {
        let mut p = parser::Parser::new(pool, cfg, text.as_bytes())?;
        p.parse_problem()
    });
    let again = match again {
        Ok(Ok(p)) => p,
        Ok(Err(x)) => return Err(e("unreadable", format!("the problem does not parse: {x}"))),
        Err(p) => return Err(e("panic", p)),
    };
    let key = |t: Sx| canon(&t).to_string();
    let mut have: Vec<String> = again.premises.iter().map(|t| key(crate::ast::conv(t))).collect();
    let mut want: Vec<String> = clause.iter().map(|t| key(l(vec![a("not"), crate::ast::conv(t)]))).collect();
    for v in [&mut have, &mut want] {
        v.sort();
        v.dedup();
    }
    if have != want {
        let x = have.iter().find(|x| !want.contains(x)).or_else(|| want.iter().find(|x| !have.contains(x))).unwrap();
        return Err(e("meaning", format!("the assertions are not the negated literals: {x}")));
    }
    rep.add("assertions", got.len() as u64);
    Ok(plain)
}
/// quotes the symbols that only this parser reads without
fn requote(text: &str) -> String {
    fn go(t: &Sx) -> Sx {
        match t {
            Sx::A(x) if (x.contains('\'') || ["BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING", "par"].contains(&&**x)) && !x.starts_with(['"', '|', ':']) => a(&format!("|{x}|")),
            Sx::A(_) => t.clone(),
            Sx::L(v) => l(v.iter().map(go).collect()),
        }
    }
    match parse_all(text) {
        Some(v) => v.iter().map(|c| format!("{}\n", go(c))).collect(),
        None => text.to_string(),
    }
}
pub enum Solved {
    Sat,
    Unsat,
    Other(String),
}
pub fn solver(bin: &str, args: &[&str], text: &str) -> Option<Solved> {
    let mut c = Command::new("timeout");
    c.arg("20").arg(bin).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().ok()?;
    let _ = p.stdin.take().unwrap().write_all(text.as_bytes());
    let o = p.wait_with_output().ok()?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    Some(match out.lines().next().unwrap_or("") {
        "sat" => Solved::Sat,
        "unsat" => Solved::Unsat,
        _ => Solved::Other(format!("{out}{}", String::from_utf8_lossy(&o.stderr))),
    })
}
/// the declarations of the problem as they are written there are read by cvc5
fn decls_read(pb: &str) -> bool {
    let Some(v) = parse_all(pb) else { return false };
    let s: String = v.iter().filter(|c| ["set-logic", "declare-sort", "declare-fun", "declare-const"].iter().any(|h| c.is_op(h))).map(|c| format!("{c}\n")).collect();
    matches!(solver("/usr/bin/cvc5", &["--lang=smt2", "--parse-only", "--quiet"], &s), Some(Solved::Other(m)) if m.trim().is_empty())
}
fn cvc5() -> bool {
    std::path::Path::new("/usr/bin/cvc5").exists()
}
fn lia(pb: &str, pf: &str, o: &Opts, sharing: bool) -> Option<Vec<(String, String)>> {
    let rules = o.rules.clone().map(|r| Cursor::new(r.into_bytes()));
    let cur = |s: &str| Cursor::new(s.as_bytes().to_vec());
    match guarded(|| carcara::generate_lia_smt_instances(cur(pb), cur(pf), rules, o.parser.clone(), sharing)) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(_)) => None,
        Err(p) => Some(vec![("panic".into(), p)]),
    }
}
/// the steps outside of subproofs
fn expected(p: &Proof) -> Vec<(String, Vec<Rc<Term>>)> {
    p.commands
        .iter()
        .filter_map(|c| match c {
            ProofCommand::Step(s) if s.rule == "lia_generic" => Some((s.id.clone(), s.clause.clone())),
            _ => None,
        })
        .collect()
}
/// swaps the rules of some steps for `lia_generic`
fn delegate(pf: &str, r: &mut Rng) -> String {
    let mut s = String::new();
    let mut rest = pf;
    let p = r.below(4);
    while let Some(k) = rest.find(":rule ") {
        let k = k + 6;
        s.push_str(&rest[..k]);
        rest = &rest[k..];
        let n = rest.find([' ', ')', '\n']).unwrap_or(rest.len());
        // a rule that ends a subproof stays
        let keep = ["subproof", "bind", "let", "sko_ex", "sko_forall", "onepoint", "bind_let"].contains(&&rest[..n]);
        s.push_str(if !keep && r.below(4) <= p { "lia_generic" } else { &rest[..n] });
        rest = &rest[n..];
    }
    s + rest
}
fn one(pb: &str, pf: &str, o: &Opts, read: bool, r: &mut Rng, rep: &mut Report) {
    let loaded = guarded(|| {
        let rules = o.rules.clone().map(Cursor::new);
        parser::parse_instance(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), rules, o.parser.clone())
    });
    let Ok(Ok((_, proof, _, mut pool))) = loaded else {
        rep.count("does not parse");
        return;
    };
    let want = expected(&proof);
    if want.is_empty() {
        return;
    }
    rep.seen(pf);
    for sharing in [true, false] {
        let input = || format!("{pb}---- proof\n{pf}---- sharing {sharing}, options {:?}", (o.parser.apply_function_defs, o.parser.expand_lets, o.parser.allow_int_real_subtyping, o.parser.strict, o.parser.parse_hole_args));
        crate::watch::set(input);
        let Some(v) = lia(pb, pf, o, sharing) else {
            rep.violation("refused", "no problems are generated for a proof that parses", input());
            continue;
        };
        if v.len() == 1 && v[0].0 == "panic" && want[0].0 != "panic" {
            rep.violation("panic", v[0].1.clone(), input());
            continue;
        }
        let ids: Vec<&String> = v.iter().map(|x| &x.0).collect();
        if ids != want.iter().map(|x| &x.0).collect::<Vec<_>>() {
            rep.violation("steps", format!("problems for {ids:?}"), input());
            continue;
        }
        for ((id, text), (_, clause)) in v.iter().zip(&want) {
            rep.evals += 1;
            match script(text, &mut pool, o, pb, clause, rep) {
                Err((s, w)) => {
                    rep.violation(&s, format!("the problem for step {id}: {w}\n{text}"), input());
                    return;
                }
                Ok(plain) => {
                    rep.count(if plain { "plain SMT-LIB" } else { "with operators that are not SMT-LIB" });
                    // another reader
                    if plain && read && cvc5() && r.chance(1, 2) {
                        match solver("/usr/bin/cvc5", &["--lang=smt2", "--parse-only", "--quiet"], text) {
                            Some(Solved::Other(m)) if m.trim().is_empty() => rep.count("read by cvc5"),
                            // names that the problem should not declare
                            Some(Solved::Other(_)) if !decls_read(pb) => rep.count("declarations not read by cvc5"),
                            // regular expressions in arrays, and the like
                            Some(Solved::Other(m)) if m.contains("first-class") || m.contains("Invalid kind") => rep.count("limits of cvc5"),
                            Some(Solved::Other(m)) => {
                                rep.violation("cvc5", format!("the problem for step {id} is not read by cvc5: {m}\n{text}"), input());
                                return;
                            }
                            _ => (),
                        }
                    }
                }
            }
        }
    }
}
/// clauses whose validity is known, and neighbours of them, given to a solver
fn solved(c: &Case, valid: bool, r: &mut Rng, rep: &mut Report) {
    let mut c = c.clone();
    c.rule = "lia_generic".into();
    c.args.clear();
    c.prems.clear();
    let mut d = Decls::clone(&c.decls);
    d.funs.retain(|f| c.concl.iter().any(|t| t.contains_atom(&f.0)));
    let whole = std::mem::replace(&mut c.decls, std::rc::Rc::new(d));
    let (pb, pf) = (c.problem(), c.proof());
    c.decls = whole;
    let sharing = r.coin();
    let input = || format!("{pb}---- proof\n{pf}---- sharing {sharing}");
    crate::watch::set(input);
    let Some(v) = lia(&pb, &pf, &Opts::default(), sharing) else { return };
    if v.len() != 1 {
        rep.violation("steps", format!("{} problems for one step", v.len()), input());
        return;
    }
    let (bin, args): (&str, &[&str]) = if r.coin() { ("/usr/bin/cvc5", &["--lang=smt2", "--tlimit=3000", "--quiet"]) } else { ("/usr/bin/z3", &["-in", "-T:3"]) };
    match solver(bin, args, &v[0].1) {
        None => rep.count("no solver"),
        Some(Solved::Other(m)) => {
            rep.count("solver: unknown");
            if m.contains("rror") && decls_read(&pb) {
                rep.violation("solver", format!("{bin} refuses the problem: {m}\n{}", v[0].1), input());
            }
        }
        Some(Solved::Sat) => {
            rep.count("solver: sat");
            rep.evals += 1;
            if valid {
                rep.violation("solver-sat", format!("{bin} says sat, but the clause is valid\n{}", v[0].1), input());
            }
        }
        Some(Solved::Unsat) => {
            rep.count("solver: unsat");
            rep.evals += 1;
            if let Some(m) = c.countermodel(r, 60) {
                rep.violation("solver-unsat", format!("{bin} says unsat, but the clause is false in {m}\n{}", v[0].1), input());
            }
        }
    }
}
pub fn run(cx: &mut Ctx) {
    for _ in 0..cx.iters(250) {
        if cx.late() {
            break;
        }
        let (t, o) = super::c22::instance(cx);
        if t.sig.lra || t.problem.contains("QF_LRA") {
            continue;
        }
        let mut r = Rng::new(cx.rng.next());
        let pf = delegate(&t.proof, &mut r);
        let (pb, pf) = (requote(&t.problem), requote(&pf));
        one(&pb, &pf, &o, r.chance(1, 4), &mut r, &mut cx.rep);
    }
    let mut r = Rng::new(cx.rng.next());
    let w = super::c04::world4();
    for _ in 0..cx.iters(60) {
        if cx.late() {
            break;
        }
        let Some(c) = super::c04::gen(&mut r, &w) else { continue };
        if c.run().kind() == "holey" && c.prems.is_empty() {
            solved(&c, true, &mut r, &mut cx.rep);
        }
        let mut d = c;
        if d.concl.len() > 1 {
            let k = r.below(d.concl.len());
            d.concl.remove(k);
        }
        solved(&d, false, &mut r, &mut cx.rep);
    }
    cx.workloads(super::c17::ALL, 60, move |_, pb, pf, o, _, rep| {
        let pf = delegate(pf, &mut r);
        let read = r.chance(1, 20);
        one(pb, &pf, o, read, &mut r, rep)
    });
}
