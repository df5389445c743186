//! C24: every input is answered, with a verdict or an error.
use super::c20::{check_proof, file, site};
use super::Ctx;
use crate::front::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::run::*;
use crate::sx::*;
use carcara::ast::*;
use carcara::{parser, slice, Error};
use std::cell::RefCell;
use std::io::Cursor;

const RULES: &str = "ac_simp aci_simp and and_intro and_neg and_pos and_simplify bfun_elim bind bind_let bitblast_add bitblast_and bitblast_comp bitblast_concat bitblast_const bitblast_equal bitblast_extract bitblast_mult bitblast_neg bitblast_not bitblast_or bitblast_sign_extend bitblast_slt bitblast_ult bitblast_var bitblast_xnor bitblast_xor bool_simplify bv_poly_simp bv_poly_simp_eq comp_simplify concat_conflict concat_cprop_prefix concat_cprop_suffix concat_csplit_prefix concat_csplit_suffix concat_eq concat_lprop_prefix concat_lprop_suffix concat_split_prefix concat_split_suffix concat_unify cong connective_def contraction cp_addition cp_division cp_literal cp_multiplication cp_normalize cp_saturation distinct_elim div_simplify drat drup eq_congruent eq_congruent_pred eq_reflexive eq_simplify eq_symmetric eq_transitive equiv1 equiv2 equiv_neg1 equiv_neg2 equiv_pos1 equiv_pos2 equiv_simplify evaluate false forall_inst ho_cong hole implies implies_neg1 implies_neg2 implies_pos implies_simplify ite1 ite2 ite_intro ite_neg1 ite_neg2 ite_pos1 ite_pos2 ite_simplify la_disequality la_generic la_mult_neg la_mult_pos la_rw_eq la_tautology la_totality let lia_generic miniscope_distribute miniscope_ite miniscope_split minus_simplify mod_simplify nary_elim not_and not_equiv1 not_equiv2 not_implies1 not_implies2 not_ite1 not_ite2 not_not not_or not_simplify not_symm not_xor1 not_xor2 onepoint or or_neg or_pos or_simplify pbblast_bvand pbblast_bvand_ith_bit pbblast_bveq pbblast_bvsge pbblast_bvsgt pbblast_bvsle pbblast_bvslt pbblast_bvuge pbblast_bvugt pbblast_bvule pbblast_bvult pbblast_bvxor pbblast_bvxor_ith_bit pbblast_pbbconst pbblast_pbbvar poly_simp poly_simp_rel prod_simplify qnt_cnf qnt_join qnt_rm_unused qnt_simplify rare_rewrite re_concat_unfold_pos re_inter re_kleene_star_unfold_pos re_unfold_neg re_unfold_neg_concat_fixed_prefix re_unfold_neg_concat_fixed_suffix refl reordering resolution shuffle sko_ex sko_forall strict_resolution string_decompose string_length_non_empty string_length_pos subproof sum_simplify symm tautology th_resolution trans true unary_minus_simplify weakening xor1 xor2 xor_neg1 xor_neg2 xor_pos1 xor_pos2";
thread_local! { static NAMES: Vec<&'static str> = RULES.split(' ').collect(); }
fn rule(r: &mut Rng) -> &'static str {
    NAMES.with(|v| *r.pick(v))
}
const ODD: &[&str] = &[
    "0", "1", "-1", "2", "3", "7", "255", "-340282366920938463463374607431768211456", "18446744073709551615", "18446744073709551616", "4294967296", "9223372036854775807", "9223372036854775808",
    "99999999999999999999999999999999999999", "1.5", "0.0", "1.0", "-3/4", "2/4", "-0", "\"\"", "\"a\"", "\"ab\"", "\"\\u{0}\"", "\"😀\"", "#b0", "#b1", "#x0", "#b1010", "#xffffffffffffffffff", "true", "false",
    "re.none", "re.all", "re.allchar", "(re.opt re.none)", "(str.to_re \"ab\")", "(not true)", "(not (not false))", "(= true)", "(and true)", "(or false)", "(xor true true)", "(- 1)", "(- 0.5)", "(/ 1 2)", "(/ 1 0)", "(/ 1.0 0.0)",
    "(div 5 0)", "(mod 5 0)", "(div 5 (- 2))", "(choice ((x Int)) (> x 0))", "(forall ((x Int)) (= x x))", "(exists ((x Bool)) x)", "(lambda ((x Int)) x)", "(let ((x 1)) x)", "(@bbterm true false)", "(@bbterm)",
    "(@pbbterm 1 0 1)", "(_ bv5 3)", "(_ bv0 0)", "((_ extract 0 0) #b1)", "((_ extract 5 2) #b1)", "((_ repeat 0) #b1)", "((_ repeat 99999999999) #b1)", "((_ zero_extend 4000000000) #b1)", "((_ @bit_of 0) #b1)",
    "((_ @int_of 9) #b1)", "(int.pow2 99999999999)", "(int.pow2 (- 1))", "(int.log2 0)", "((_ int_to_bv 99999999999) 5)", "((_ int_to_bv 0) 5)", "((_ re.loop 5 2) re.all)", "((_ re.^ 99999999999) (str.to_re \"a\"))",
    "(str.substr \"abc\" (- 1) 99999999999)", "(str.at \"abc\" 99999999999)", "(str.replace \"\" \"\" \"a\")", "(str.replace_all \"aaa\" \"\" \"b\")", "(str.indexof \"abc\" \"\" 5)", "(str.from_code 55296)",
    "(str.from_code 99999999999)", "(str.from_int (- 5))", "(str.to_code \"\")", "(str.len \"\")", "(bvudiv #b00 #b00)", "(bvshl #b01 #b11)", "(bvsdiv #b10 #b11)", "(ubv_to_int #b1)", "(@bv 5 3)", "(@bv 5 99999999999)",
    "(str.++ \"a\" \"b\")", "(* 0 0)", "(+ 1 (- 1))", "(>= 0 0)", "(>= 1 2)", "(< 1 1)", "(distinct 1 1)", "(distinct true false true)", "(ite true 1 2)", "(=> true false)", "(to_real 1)", "(to_int 1.5)", "(is_int 1.5)", "(abs (- 1))",
];
/// cases handed to every tool entry, each of which must answer
fn everywhere(r: &mut Rng, rep: &mut Report, pb: &str, pf: &str, o: &Opts, tag: &str) -> Option<Out> {
    let input = || format!("{pb}---- proof\n{pf}{}---- from {tag}", o.rules.clone().map(|r| format!("\n---- rules\n{r}")).unwrap_or_default());
    crate::watch::set(input);
    rep.evals += 1;
    macro_rules! bad {
        ($how:expr, $p:expr) => {{
            rep.violation(&format!("panic:{}:{}", $how, file(&$p)), &format!("{} panics: {}", $how, site(&$p)) , input());
            return None;
        }};
    }
    let loaded = guarded(|| parser::parse_instance(Cursor::new(pb.to_string()), Cursor::new(pf.to_string()), o.rules.clone().map(Cursor::new), o.parser.clone()));
    let (problem, proof, rules, mut pool) = match loaded {
        Err(p) => bad!("parsing", p),
        Ok(Err(e)) => {
            rep.count(&format!("{tag}:unparsed"));
            return Some(Out::ParseErr(e.to_string()));
        }
        Ok(Ok(x)) => x,
    };
    let out = check_proof(&mut pool, &rules, &problem, &proof, &o.checker);
    rep.distinct.insert(crate::report::hash_str(pf) ^ crate::report::hash_str(pb));
    rep.count(&format!("{tag}:{}", out.kind()));
    match &out {
        Out::Panic(p) => bad!("checking", p),
        Out::Reject(id, rl, msg) => {
            rep.count(&format!("rejected by {rl}"));
            // what is reported is a step of the proof with this rule
            if msg.is_empty() {
                rep.violation("report:message", "an error without a message", input());
                return None;
            }
            let all = commands(&proof.commands);
            if !all.iter().any(|(i, u)| i == id && (u == rl || rl.starts_with("anchor") || u.is_empty())) {
                rep.violation("report:step", format!("step {id} with rule {rl} is reported, which the proof does not have"), input());
                return None;
            }
        }
        Out::Valid | Out::Holey => rep.count("accepted"),
        _ => {}
    }
    if r.chance(1, 4) {
        let strict = carcara::checker::Config { elaborated: !o.checker.elaborated, ignore_unknown_rules: r.coin(), ..o.checker.clone() };
        if let Out::Panic(p) = check_proof(&mut pool, &rules, &problem, &proof, &strict) {
            bad!("checking in the other mode", p);
        }
    }
    if r.chance(1, 4) {
        if let Ok(i) = crate::par::load(pb, pf, o) {
            match crate::par::official(&i, 1 + r.below(3)) {
                Err(p) => bad!("scheduling", p),
                Ok(s) => {
                    if let Out::Panic(p) = crate::par::run(&i, &s, o, false) {
                        bad!("parallel checking", p);
                    }
                }
            }
        }
    }
    if r.chance(1, 4) {
        let all = commands(&proof.commands);
        if !all.is_empty() {
            let id = r.pick(&all).0.clone();
            let k = r.below(3);
            if let Err(p) = guarded(|| slice::slice(&proof, &id, &mut pool, k)) {
                bad!("slicing", p);
            }
        }
    }
    if r.chance(1, 4) {
        let sharing = r.coin();
        match guarded(|| super::c22::print(&mut pool, &problem, &proof, sharing)) {
            Err(p) => bad!("printing", p),
            Ok(_) => {}
        }
    }
    if out.accepted() && r.chance(1, 2) {
        let (name, pipe) = super::c20::pipeline(r);
        let cfg = carcara::elaborator::Config { lia_options: None, hole_options: None, uncrowd_rotation: r.coin() };
        let done = guarded(|| {
            let f = ProofNodeForest::from_commands(proof.commands);
            let mut el = carcara::elaborator::Elaborator::new(&mut pool, &problem, cfg);
            match pipe {
                None => el.elaborate_with_default_pipeline(f),
                Some(v) => el.elaborate(f, v),
            }
            .into_commands()
        });
        match done {
            Err(p) => bad!(format!("elaboration {name}"), p),
            Ok(_) => rep.count("elaborated"),
        }
    }
    Some(out)
}
fn commands(cs: &[ProofCommand]) -> Vec<(String, String)> {
    let mut v = vec![];
    for c in cs {
        match c {
            ProofCommand::Assume { id, .. } => v.push((id.to_string(), "assume".into())),
            ProofCommand::Step(s) => v.push((s.id.to_string(), s.rule.to_string())),
            ProofCommand::Subproof(s) => {
                v.push((c.id().to_string(), String::new()));
                v.extend(commands(&s.commands));
            }
        }
    }
    v
}

// ---- rules applied to what they were not made for ----
fn term_paths(c: &Sx) -> Vec<Vec<usize>> {
    let Sx::L(v) = c else { return vec![] };
    let mut out = vec![];
    let kind = v.first().and_then(|x| x.atom()).unwrap_or("");
    for (i, x) in v.iter().enumerate() {
        let inner = match (kind, x.op()) {
            ("step", Some(("cl", _))) => true,
            ("assume", _) => i == 2,
            ("assert", _) => i == 1,
            _ => false,
        };
        let args = i > 0 && v[i - 1].atom() == Some(":args");
        if inner || args {
            for p in x.paths() {
                if p.is_empty() && (args || (inner && kind == "step")) || inner && kind == "step" && p == [0] {
                    continue;
                }
                out.push([&[i][..], &p].concat());
            }
        }
    }
    out
}
/// Changes something in the proof (or in the assertions).
fn disturb(r: &mut Rng, cs: &mut Vec<Sx>, more: &[Sx], odd: &mut dyn FnMut(&mut Rng) -> Sx) {
    if cs.is_empty() {
        return;
    }
    let k = r.below(cs.len());
    let c = cs[k].clone();
    let tp = term_paths(&c);
    let set = |v: &mut Sx, p: &[usize], t: &Sx| *v = v.replace(p, t);
    let donor = |r: &mut Rng| {
        for _ in 0..5 {
            let d = if !more.is_empty() && r.chance(1, 3) { r.pick(more) } else { &cs[r.below(cs.len())] };
            let tp = term_paths(d);
            if !tp.is_empty() {
                return d.at(r.pick::<Vec<usize>>(&tp)).clone();
            }
        }
        a("true")
    };
    match r.below(14) {
        0 | 1 if !tp.is_empty() => {
            let p = r.pick::<Vec<usize>>(&tp).clone();
            let d = donor(r);
            set(&mut cs[k], &p, &d);
        }
        2 if !tp.is_empty() => {
            let p = r.pick::<Vec<usize>>(&tp).clone();
            let d = odd(r);
            set(&mut cs[k], &p, &d);
        }
        3 if !tp.is_empty() => {
            let p = r.pick::<Vec<usize>>(&tp).clone();
            let t = c.at(&p).clone();
            let d = donor(r);
            let w = match r.below(12) {
                0 => not(&t),
                1 => app("and", &[t]),
                2 => app("or", &[t.clone(), t]),
                3 => f("(let ((x ?0)) x)", &[&t]),
                4 => f("(forall ((x Int)) ?0)", &[&t]),
                5 => f("(exists ((x Bool) (x Int)) ?0)", &[&t]),
                6 => app("=", &[t, d]),
                7 => f("(- ?0)", &[&t]),
                8 => f("(ite ?0 ?1 ?1)", &[&d, &t]),
                9 => f("(! ?0 :named zz)", &[&t]),
                10 => app("*", &[a("0"), t]),
                _ => app(*r.pick(&["and", "or", "=", "xor", "=>", "+", "-", "*", "distinct", "str.++", "concat", "re.++", ">=", "@bbterm"]), &[t.clone(), d, t]),
            };
            set(&mut cs[k], &p, &w);
        }
        4 | 5 | 6 if !tp.is_empty() => {
            // the children of some list
            let lists: Vec<Vec<usize>> = tp.iter().filter(|p| matches!(c.at(p), Sx::L(v) if v.len() > 1)).cloned().chain(std::iter::once(vec![])).collect();
            let p = r.pick::<Vec<usize>>(&lists).clone();
            let (p, lo) = if p.is_empty() {
                let v = c.list().unwrap_or(&[]);
                let ks: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i], Sx::L(_))).collect();
                if ks.is_empty() {
                    return;
                }
                (vec![*r.pick(&ks)], 0)
            } else {
                (p, 1)
            };
            let Sx::L(v) = c.at(&p) else { return };
            let mut v = v.to_vec();
            if v.len() <= lo {
                return;
            }
            let i = lo + r.below(v.len() - lo);
            match r.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let x = v[i].clone();
                    v.push(x);
                }
                2 => {
                    let j = lo + r.below(v.len() - lo);
                    v.swap(i, j);
                }
                _ => {
                    let d = odd(r);
                    v.insert(i, d);
                }
            }
            set(&mut cs[k], &p, &l(v));
        }
        7 | 8 | 9 => {
            let Sx::L(v) = &c else { return };
            if let Some(i) = v.iter().position(|x| x.atom() == Some(":rule")) {
                if i + 1 < v.len() {
                    set(&mut cs[k], &[i + 1], &a(rule(r)));
                }
            }
        }
        10 => {
            // premises and arguments
            let Sx::L(v) = &c else { return };
            let mut v = v.to_vec();
            let key = *r.pick(&[":premises", ":args", ":discharge"]);
            match v.iter().position(|x| x.atom() == Some(key)) {
                Some(i) if r.coin() && i + 1 < v.len() => {
                    v.remove(i);
                    v.remove(i);
                }
                Some(_) => {}
                None if v.first().and_then(|x| x.atom()) == Some("step") => {
                    let what = if key == ":args" {
                        let n = 1 + r.below(3);
                        l((0..n).map(|_| if r.coin() { donor(r) } else { odd(r) }).collect())
                    } else {
                        let ids: Vec<Sx> = cs[..k].iter().filter(|c| matches!(c.op(), Some(("step" | "assume", _)))).filter_map(|c| c.list().and_then(|v| v.get(1)).cloned()).collect();
                        if ids.is_empty() {
                            return;
                        }
                        let n = 1 + r.below(3);
                        l((0..n).map(|_| r.pick(&ids).clone()).collect())
                    };
                    v.push(a(key));
                    v.push(what);
                }
                None => {}
            }
            cs[k] = l(v);
        }
        11 if cs.len() > 1 => {
            let j = r.below(cs.len());
            cs.swap(k, j);
        }
        12 => {
            cs.remove(k);
        }
        _ => {
            let Sx::L(v) = &c else { return };
            let mut v = v.to_vec();
            if v.len() > 3 && v[0].atom() == Some("step") {
                // the clause becomes that of another step
                let o = r.pick(cs).clone();
                if let Some(("step", w)) = o.op() {
                    if w.len() > 1 {
                        v[2] = w[1].clone();
                    }
                }
            }
            cs[k] = l(v);
        }
    }
}
fn odd(r: &mut Rng) -> Sx {
    parse(*r.pick::<&str>(ODD))
}
fn join(cs: &[Sx]) -> String {
    cs.iter().map(|c| format!("{c}\n")).collect()
}
fn hostile(r: &mut Rng, rep: &mut Report, pb: &str, pf: &str, o: &Opts, tag: &str) {
    let (Some(cs), Some(ps)) = (parse_all(pf), parse_all(pb)) else {
        rep.count("unread");
        return;
    };
    if pf.len() > 20_000 {
        return;
    }
    for _ in 0..3 {
        let (mut cs, mut ps) = (cs.clone(), ps.clone());
        for _ in 0..1 + r.below(3) {
            if r.chance(1, 8) {
                let more = cs.clone();
                disturb(r, &mut ps, &more, &mut odd);
            } else {
                let more = ps.clone();
                disturb(r, &mut cs, &more, &mut odd);
            }
        }
        everywhere(r, rep, &join(&ps), &join(&cs), o, tag);
    }
}
/// any rule on well-sorted clauses over one signature
fn anything(r: &mut Rng, rep: &mut Report) {
    let mut sig = Sig::random(r);
    sig.named = false;
    let mut text = String::new();
    for (n, k) in &sig.sorts {
        text.push_str(&format!("(declare-sort {} {})\n", q(n), k));
    }
    for (n, ps, s) in &sig.funs {
        text.push_str(&format!("(declare-fun {} {} {})\n", q(n), l(ps.clone()), s));
    }
    let sg = sig.clone();
    let mut g = Fg::new(r, &sg);
    // terms related to each other
    let mut pool: Vec<Sx> = vec![];
    for _ in 0..6 {
        let t = match g.r.below(4) {
            0 => g.term(&a("Bool"), 3),
            1 => {
                let s = sg.sort(g.r, 1);
                let (x, y) = (g.term(&s, 2), g.term(&s, 2));
                eq(&x, &y)
            }
            2 if !pool.is_empty() => not(g.r.pick(&pool)),
            _ if !pool.is_empty() => {
                let n = 1 + g.r.below(3);
                let v: Vec<Sx> = (0..n).map(|_| g.r.pick(&pool).clone()).collect();
                app(*g.r.pick(&["and", "or", "=", "=>", "xor", "distinct", "ite"]), &v)
            }
            _ => a("true"),
        };
        pool.push(t);
    }
    let mut pf = String::new();
    let n = g.r.below(3);
    let clause = |g: &mut Fg| {
        let k = g.r.below(4);
        l(std::iter::once(a("cl")).chain((0..k).map(|_| if g.r.chance(1, 3) { not(g.r.pick(&pool)) } else { g.r.pick(&pool).clone() })).collect())
    };
    for i in 0..n {
        pf.push_str(&format!("(step h{i} {} :rule hole)\n", clause(&mut g)));
    }
    for k in 0..8 {
        pf.push_str(&format!("(step t{k} {} :rule {}", clause(&mut g), rule(g.r)));
        if n > 0 && g.r.coin() {
            pf.push_str(" :premises (");
            for _ in 0..1 + g.r.below(3) {
                pf.push_str(&format!("h{} ", g.r.below(n)));
            }
            pf.push(')');
        }
        if g.r.chance(1, 3) {
            pf.push_str(" :args (");
            for _ in 0..1 + g.r.below(3) {
                let t = match g.r.below(4) {
                    0 => odd(g.r),
                    1 => g.r.pick(&pool).clone(),
                    _ => {
                        let s = sg.sort(g.r, 1);
                        g.term(&s, 2)
                    }
                };
                pf.push_str(&format!("{t} "));
            }
            pf.push(')');
        }
        pf.push_str(")\n");
    }
    // each step on its own: the first failing one ends the check
    let lines: Vec<&str> = pf.lines().collect();
    for k in n..lines.len() {
        let one = lines[..n].iter().chain(std::iter::once(&lines[k])).map(|s| format!("{s}\n")).collect::<String>();
        everywhere(r, rep, &text, &one, &Opts::default(), "any rule");
    }
}

// ---- rewrites ----
const KINDS: &[(&str, &[&str])] = &[
    ("Bool", &["true", "false", "p", "(and true p)", "(or true)", "(and false)", "(forall ((x Int)) (= x 0))"]),
    ("Int", &["0", "1", "i", "(+ i 1)", "99999999999999999999999999", "(- 1)"]),
    ("Real", &["0.5", "(+ 0.5 1.0)"]),
    ("String", &["\"\"", "\"a\"", "(str.++ \"a\" \"b\")"]),
    ("RegLan", &["re.all", "re.none", "(str.to_re \"a\")"]),
    ("(_ BitVec 1)", &["#b0", "#b1"]),
    ("(_ BitVec 4)", &["#b0101", "(bvadd #b0001 b4)", "b4"]),
    ("(Array Int Bool)", &["ar", "(store ar 0 true)"]),
    ("U", &["u", "(g u)"]),
];
/// operators with the kinds of their arguments: `.` for the same sort everywhere, a kind's index
/// otherwise, `*` for any number of the last one
const SHAPES: &[(&str, &str, usize)] = &[
    ("and", "0*", 0),
    ("or", "0*", 0),
    ("xor", "0*", 0),
    ("=>", "0*", 0),
    ("not", "0", 0),
    ("=", ".*", 0),
    ("distinct", ".*", 0),
    ("ite", "0..", 9),
    ("+", "1*", 1),
    ("*", "1*", 1),
    ("-", "1*", 1),
    ("+", "2*", 2),
    ("<", "1*", 0),
    ("div", "11", 1),
    ("@bv", "11", 6),
    ("to_real", "1", 2),
    ("str.++", "3*", 3),
    ("str.len", "3", 1),
    ("str.substr", "311", 3),
    ("str.in_re", "34", 0),
    ("re.++", "4*", 4),
    ("re.union", "4*", 4),
    ("re.*", "4", 4),
    ("bvadd", "6*", 6),
    ("bvand", "6*", 6),
    ("bvxor", "6*", 6),
    ("bvmul", "6*", 6),
    ("bvsub", "66", 6),
    ("bvnot", "6", 6),
    ("bvult", "66", 0),
    ("bvcomp", "66", 5),
    ("concat", "5555", 6),
    ("concat", "55", 5),
    ("(_ extract 1 0)", "6", 5),
    ("(_ zero_extend 3)", "5", 6),
    ("(_ repeat 4)", "5", 6),
    ("(_ rotate_left 1)", "6", 6),
    ("@bbterm", "0000", 6),
    ("select", "71", 0),
    ("store", "710", 7),
    ("g", "8", 8),
    ("h", "81", 8),
];
struct Tp {
    ps: Vec<(String, usize, bool)>,
}
fn template(r: &mut Rng, t: &Tp, k: usize, d: usize) -> String {
    let mine: Vec<&String> = t.ps.iter().filter(|p| p.1 == k || p.1 == 9).map(|p| &p.0).collect();
    if d == 0 || r.chance(1, 4) {
        return match mine.is_empty() || r.chance(1, 6) {
            true => r.pick::<&str>(KINDS[k].1).to_string(),
            false => r.pick::<&String>(&mine).to_string(),
        };
    }
    let v: Vec<&(&str, &str, usize)> = SHAPES.iter().filter(|s| s.2 == k || s.2 == 9).collect();
    if v.is_empty() || r.chance(1, 12) {
        let b = template(r, t, k, d - 1);
        let c = template(r, t, 0, d - 1);
        let n = match t.ps.is_empty() || r.coin() {
            true => "z",
            false => &r.pick(&t.ps).0,
        };
        return match k {
            0 => format!("({} (({n} {})) {b})", r.pick::<&str>(&["forall", "exists"]), KINDS[r.below(9)].0),
            1 => format!("(choice (({n} Int)) {c})"),
            _ => format!("(let (({n} {c})) {b})"),
        };
    }
    let (op, args, _) = **r.pick(&v);
    let any = r.below(9);
    let at = |ch: char| match ch {
        '.' if op == "ite" => k,
        '.' => any,
        _ => ch.to_digit(10).unwrap() as usize,
    };
    let mut ks: Vec<usize> = args.trim_end_matches('*').chars().map(at).collect();
    if args.ends_with('*') {
        let last = *ks.last().unwrap();
        ks.resize(2 + r.below(2), last);
    }
    format!("({op} {})", ks.iter().map(|k| template(r, t, *k, d - 1)).collect::<Vec<_>>().join(" "))
}
fn rewrites(r: &mut Rng, rep: &mut Report) {
    let pb = "(declare-sort U 0)\n(declare-fun g (U) U)\n(declare-fun h (U Int) U)\n(declare-const u U)\n(declare-const p Bool)\n(declare-const i Int)\n(declare-const b4 (_ BitVec 4))\n(declare-const ar (Array Int Bool))\n";
    const TYPES: &[(&str, usize)] = &[("@T", 9), ("@T", 9), ("(BitVec n)", 6), ("(Array @T @U)", 7)];
    let mut t = Tp { ps: vec![] };
    let mut decl = "(@T Type) (@U Type) (n Int)".to_string();
    for j in 0..1 + r.below(4) {
        let list = r.chance(1, 2);
        let k = r.below(9);
        let (s, k) = match r.chance(1, 4) {
            true => *r.pick(TYPES),
            false => (KINDS[k].0, k),
        };
        decl.push_str(&format!(" (v{j} {s}{})", if list { " :list" } else { "" }));
        t.ps.push((format!("v{j}"), k, list));
    }
    let k = r.below(9);
    let (x, y) = (template(r, &t, k, 3), template(r, &t, k, 2));
    let np = r.below(2);
    let prems: Vec<String> = (0..np).map(|_| template(r, &t, 0, 2)).collect();
    let names: Vec<&str> = t.ps.iter().map(|p| p.0.as_str()).collect();
    let rule = format!("(declare-rare-rule r ({decl}) :args (n {}) :premises ({}) :conclusion (= {x} {y}))\n", names.join(" "), prems.join(" "));
    let o = Opts { rules: Some(rule), ..Default::default() };
    let loose = Tp { ps: vec![] };
    for _ in 0..4 {
        let mut args = vec![r.pick(&["1", "4", "4", "0", "(+ 1 1)", "18446744073709551616", "(- 1)", "i"]).to_string()];
        for p in &t.ps {
            let value = |r: &mut Rng| {
                let k = if p.1 == 9 || r.chance(1, 8) { r.below(9) } else { p.1 };
                match r.chance(1, 25) {
                    true => r.pick(&["rare-list", "(rare-list 1 2)", "(ite true rare-list rare-list)", "(= (rare-list 1) rare-list)"]).to_string(),
                    false => template(r, &loose, k, 1),
                }
            };
            let v = if p.2 != r.chance(1, 10) {
                let n = r.below(4);
                let one = value(r);
                match n {
                    0 => "rare-list".to_string(),
                    _ => format!("(rare-list {})", (0..n).map(|i| if i == 0 || r.coin() { one.clone() } else { value(r) }).collect::<Vec<_>>().join(" ")),
                }
            } else {
                value(r)
            };
            args.push(v);
        }
        let mut pf = String::new();
        for (j, _) in prems.iter().enumerate() {
            pf.push_str(&format!("(step h{j} (cl {}) :rule hole)\n", template(r, &loose, 0, 2)));
        }
        let c = template(r, &loose, k, 2);
        pf.push_str(&format!("(step t (cl (= {c} {c})) :rule rare_rewrite {} :args (\"r\" {}))\n", if prems.is_empty() { "" } else { ":premises (h0)" }, args.join(" ")));
        if let Some(out) = everywhere(r, rep, pb, &pf, &o, "rewrites") {
            rep.count(&format!("rewrites:{}", out.kind()));
        }
    }
}

// ---- texts ----
const BITS: &[&str] = &[
    "(", ")", "(", ")", " ", "\n", ";", "|", "\"", "\\", "\\u{", "\\u", "#b", "#x", "#", ":", ":named", ":args", ":rule", ":premises", ":discharge", ":step", "!", "_", "as", "let", "forall", "exists", "choice", "lambda", "cl",
    "assume", "step", "anchor", "declare-fun", "declare-const", "declare-sort", "define-fun", "define-fun-rec", "define-funs-rec", "define-sort", "assert", "check-sat-assuming", "set-logic", "declare-rare-rule", "match", "0", "00", "-", "-5",
    "1.", "1.0", "1/0", "/", "@", "@p", "Bool", "Int", "Array", "BitVec", "->", "Type", "true", "not", "=", "and", "é", "\u{0}", "\u{feff}", "{", "}", "'", "`", ",", "99999999999999999999", "(cl)", "(! x :named y)", "(_ bv1 2)", "QF_LRA",
    "const", "@list", "?", "(:= x 1)", "(x Int)", ":=", "eo", "()",
];
fn corrupt(r: &mut Rng, t: &str, other: &str) -> Vec<u8> {
    let mut b = t.as_bytes().to_vec();
    let ob = other.as_bytes();
    for _ in 0..1 + r.below(3) {
        let i = r.below(b.len() + 1);
        match r.below(9) {
            0 => b.truncate(i),
            1 => {
                let j = (i + r.below(12)).min(b.len());
                b.drain(i..j);
            }
            2 | 3 => {
                let s = *r.pick::<&str>(BITS);
                b.splice(i..i, format!(" {s} ").into_bytes());
            }
            4 => {
                let s = *r.pick::<&str>(BITS);
                let j = (i + r.below(6)).min(b.len());
                b.splice(i..j, s.bytes());
            }
            5 if i < b.len() => b[i] = r.next() as u8,
            6 if !ob.is_empty() => {
                let x = r.below(ob.len());
                let y = (x + r.below(80)).min(ob.len());
                b.splice(i..i, ob[x..y].iter().copied());
            }
            7 => {
                let j = (i + r.below(60)).min(b.len());
                let w = b[i..j].to_vec();
                b.splice(i..i, w);
            }
            _ => {
                // a token
                let toks: Vec<(usize, usize)> = tokens(&b);
                if !toks.is_empty() {
                    let (x, y) = *r.pick(&toks);
                    let w = if r.coin() {
                        let (p, q) = *r.pick(&toks);
                        b[p..q].to_vec()
                    } else {
                        r.pick::<&str>(BITS).as_bytes().to_vec()
                    };
                    b.splice(x..y, w);
                }
            }
        }
    }
    b
}
fn tokens(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_whitespace() {
            i += 1;
        } else if b[i] == b'(' || b[i] == b')' {
            v.push((i, i + 1));
            i += 1;
        } else {
            let s = i;
            while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' {
                i += 1;
            }
            v.push((s, i));
        }
    }
    v
}
/// line and column of a byte offset
fn place(t: &str, at: usize) -> (usize, usize) {
    let before = &t[..at];
    (before.matches('\n').count() + 1, before.rsplit('\n').next().unwrap().chars().count() + 1)
}
/// the error of the first of the three texts that can not be read, and which
fn read(pb: &[u8], pf: &[u8], rules: Option<&[u8]>, cfg: &parser::Config) -> Result<Result<(), (usize, Error)>, String> {
    guarded(|| {
        let mut pool = PrimitivePool::new();
        let mut p = parser::Parser::new(&mut pool, cfg.clone(), pb).map_err(|e| (0, e))?;
        p.parse_problem().map_err(|e| (0, e))?;
        p.reset(pf).map_err(|e| (1, e))?;
        p.parse_proof().map_err(|e| (1, e))?;
        if let Some(rl) = rules {
            drop(p);
            parser::parse_instance(pb, pf, Some(rl), cfg.clone()).map_err(|e| (2, e))?;
        }
        Ok(())
    })
}
fn texts(r: &mut Rng, rep: &mut Report, pb: &str, pf: &str, rules: Option<&str>, cfg: &parser::Config, n: usize) {
    let orig = [pb, pf, rules.unwrap_or("")];
    let fine = matches!(read(pb.as_bytes(), pf.as_bytes(), rules.map(str::as_bytes), cfg), Ok(Ok(())));
    for _ in 0..n {
        let which = if rules.is_some() { r.below(3) } else { r.below(2) };
        let mut now: Vec<Vec<u8>> = orig.iter().map(|t| t.as_bytes().to_vec()).collect();
        // an illegal character between two tokens must be reported where it is
        let exact = fine && r.chance(1, 4);
        let mut want = None;
        if exact {
            let t = orig[which];
            let toks: Vec<(usize, usize)> = tokens(t.as_bytes()).into_iter().filter(|x| t.is_char_boundary(x.0) && !quoted(t, x.0)).collect();
            if toks.is_empty() {
                continue;
            }
            let at = r.pick(&toks).0;
            let c = *r.pick(&["{", "}", "[", "]", ",", "`", "\u{1}", "é", "日"]);
            want = Some((which, place(t, at), c));
            now[which] = format!("{}{c} {}", &t[..at], &t[at..]).into_bytes();
        } else {
            let other = orig[r.below(2)];
            now[which] = corrupt(r, orig[which], other);
        }
        let show = || {
            format!(
                "{}---- proof\n{}{}---- changed: {which}",
                String::from_utf8_lossy(&now[0]),
                String::from_utf8_lossy(&now[1]),
                rules.map(|_| format!("---- rules\n{}", String::from_utf8_lossy(&now[2]))).unwrap_or_default()
            )
        };
        crate::watch::set(show);
        rep.evals += 1;
        match read(&now[0], &now[1], rules.map(|_| &now[2][..]), cfg) {
            Err(p) => rep.violation(&format!("panic:parsing:{}", file(&p)), &format!("parsing panics: {}", site(&p)), show()),
            Ok(Ok(())) => {
                rep.count("text:read");
                if let Some((_, pos, c)) = want {
                    rep.violation("text:illegal", format!("{c} at {pos:?} is accepted"), show());
                    continue;
                }
                let o = Opts { parser: cfg.clone(), rules: rules.map(|_| String::from_utf8_lossy(&now[2]).to_string()), ..Opts::default() };
                if let (Ok(x), Ok(y)) = (std::str::from_utf8(&now[0]), std::str::from_utf8(&now[1])) {
                    everywhere(r, rep, x, y, &o, "text");
                }
            }
            Ok(Err((w, e))) => {
                rep.distinct.insert(crate::report::hash_str(&show()));
                match &e {
                    Error::Io(_) => {
                        rep.count("text:io");
                        if std::str::from_utf8(&now[w]).is_ok() {
                            rep.violation("text:io", e.to_string(), show());
                        }
                    }
                    Error::Parser(e, (line, col)) => {
                        rep.count("text:error");
                        let kind = format!("{e:?}");
                        rep.count(&format!("error {}", kind.split(|c: char| !c.is_alphanumeric()).next().unwrap()));
                        if let Some((which, pos, c)) = want {
                            if w != which || (*line, *col) != pos || kind != format!("UnexpectedChar({:?})", c.chars().next().unwrap()) {
                                rep.violation("text:position", format!("{c} at {pos:?} of text {which} is reported as {e} at {:?} of text {w}", (line, col)), show());
                            } else {
                                rep.count("text:exact");
                            }
                            continue;
                        }
                        let t = String::from_utf8_lossy(&now[w]).to_string();
                        let lines: Vec<&str> = t.split('\n').collect();
                        let inside = t.is_empty() || *line >= 1 && *line <= lines.len() && *col >= 1 && *col <= lines[*line - 1].chars().count() + 1;
                        if !inside {
                            rep.violation("text:outside", format!("the error is reported at {line}:{col}: {e}"), show());
                        }
                        if fine && w != which && w < which {
                            rep.violation("text:which", format!("text {which} was changed, but the error is in {w}: {e}"), show());
                        }
                        // not before the command that was changed
                        if fine && w == which && !kind.starts_with("UnclosedSubproof") && t.is_ascii() && orig[w].is_ascii() {
                            let same = orig[w].bytes().zip(t.bytes()).take_while(|(x, y)| x == y).count();
                            let start = command_start(orig[w], same);
                            let (l0, c0) = place(orig[w], start);
                            if (*line, *col) < (l0, c0) {
                                rep.violation("text:early", format!("the first change is at {:?}, the error at {line}:{col}: {e}", place(orig[w], same)), show());
                            } else {
                                rep.count("text:placed");
                            }
                        }
                    }
                    e => rep.violation("text:kind", e.to_string(), show()),
                }
            }
        }
    }
}
/// is the offset inside a string, a quoted symbol or a comment?
fn quoted(t: &str, at: usize) -> bool {
    let mut q = None;
    for c in t[..at].chars() {
        match q {
            None => match c {
                '"' | '|' | ';' => q = Some(c),
                _ => {}
            },
            Some(';') if c == '\n' => q = None,
            Some(x) if x == c && c != ';' => q = None,
            _ => {}
        }
    }
    q.is_some()
}
/// where the top-level command that contains the offset starts
fn command_start(t: &str, at: usize) -> usize {
    let mut start = 0;
    let mut depth = 0;
    let mut q = None;
    for (i, c) in t.char_indices() {
        if i > at {
            break;
        }
        match q {
            None => match c {
                '"' | '|' | ';' => q = Some(c),
                '(' => {
                    if depth == 0 && i <= at {
                        start = i;
                    }
                    depth += 1;
                }
                ')' => depth -= 1,
                _ => {}
            },
            Some(';') if c == '\n' => q = None,
            Some(x) if x == c && c != ';' => q = None,
            _ => {}
        }
    }
    start
}
fn garbage(r: &mut Rng) -> String {
    let n = r.below(40);
    let mut s = String::new();
    let mut depth: i64 = 0;
    for _ in 0..n {
        let b = *r.pick::<&str>(BITS);
        if b == "(" {
            depth += 1;
        }
        if b == ")" {
            depth -= 1;
        }
        s.push_str(b);
        if r.chance(3, 4) {
            s.push(' ');
        }
    }
    for _ in 0..depth.max(0) {
        s.push(')');
    }
    s
}

// ---- size ----
fn nested(op: usize, n: usize, leaf: &str) -> (String, &'static str) {
    let wrap = |pre: &str, post: &str| format!("{}{leaf}{}", pre.repeat(n), post.repeat(n));
    match op {
        0 => (wrap("(not ", ")"), "Bool"),
        1 => (wrap("(and p ", ")"), "Bool"),
        2 => (wrap("(or ", " p)"), "Bool"),
        3 => (wrap("(= ", " p)"), "Bool"),
        4 => (wrap("(=> p ", ")"), "Bool"),
        5 => (wrap("(ite p ", " p)"), "Bool"),
        6 => (wrap("(forall ((x Int)) ", ")"), "Bool"),
        7 => (wrap("(exists ((x Bool)) (= x ", "))"), "Bool"),
        8 => (wrap("(let ((y p)) (and y ", "))"), "Bool"),
        9 => (wrap("(let ((p ", ")) p)"), "Bool"),
        10 => (wrap("(! ", " :note a)"), "Bool"),
        11 => (wrap("(xor ", " p)"), "Bool"),
        12 => (wrap("(+ i ", ")"), "Int"),
        13 => (wrap("(- ", ")"), "Int"),
        14 => (wrap("(* 2 ", ")"), "Int"),
        15 => (wrap("(f ", ")"), "Int"),
        16 => (wrap("(bvadd v ", ")"), "(_ BitVec 4)"),
        17 => (wrap("(bvnot ", ")"), "(_ BitVec 4)"),
        18 => (wrap("(str.++ s ", ")"), "String"),
        19 => (wrap("(store ", " i i)"), "(Array Int Int)"),
        20 => (wrap("(re.* ", ")"), "RegLan"),
        21 => (wrap("((lambda ((z Bool)) z) ", ")"), "Bool"),
        _ => (wrap("(choice ((c Bool)) (and c ", "))"), "Bool"),
    }
}
const NESTS: usize = 23;
const BIG: &str = "(declare-fun p () Bool)\n(declare-fun q () Bool)\n(declare-fun i () Int)\n(declare-fun j () Int)\n(declare-fun f (Int) Int)\n(declare-fun v () (_ BitVec 4))\n(declare-fun w () (_ BitVec 4))\n(declare-fun s () String)\n(declare-fun t () String)\n(declare-fun A () (Array Int Int))\n(declare-fun B () (Array Int Int))\n(declare-fun R () RegLan)\n(declare-fun Q () RegLan)\n";
fn leaf(s: &str, k: usize) -> &'static str {
    match s {
        "Bool" => ["p", "q"][k],
        "Int" => ["i", "j"][k],
        "String" => ["s", "t"][k],
        "RegLan" => ["R", "Q"][k],
        "(_ BitVec 4)" => ["v", "w"][k],
        _ => ["A", "B"][k],
    }
}
/// something large, handed to everything
fn big(r: &mut Rng, rep: &mut Report) {
    let mut pb = BIG.to_string();
    let mut pf = String::new();
    let kind = r.below(7);
    match kind {
        0 | 1 => {
            // deep terms, that differ at the bottom
            let n = 50 + r.below(500);
            let op = r.below(NESTS);
            let s = nested(op, 1, "p").1;
            let (x, _) = nested(op, n, leaf(s, 0));
            let (y, _) = nested(op, n, leaf(s, r.below(2)));
            let e = format!("(= {x} {y})");
            if r.coin() {
                pb.push_str(&format!("(assert {e})\n"));
                let e = if r.coin() { e.clone() } else { format!("(= {y} {x})") };
                pf.push_str(&format!("(assume h {e})\n"));
            }
            pf.push_str(&format!("(step h0 (cl {e}) :rule hole)\n(step h1 (cl (not {e})) :rule hole)\n"));
            let c = match r.below(5) {
                0 => format!("(cl {e})"),
                1 => format!("(cl (not {e}) {e})"),
                2 => format!("(cl (= {e} true))"),
                3 => format!("(cl (= {e} (= {y} {x})))"),
                _ => "(cl)".into(),
            };
            pf.push_str(&format!("(step t {c} :rule {} :premises (h0 h1))\n", rule(r)));
            pf.push_str("(step e (cl) :rule resolution :premises (h0 h1))\n");
        }
        2 => {
            // wide clauses
            let n = 100 + r.below(600);
            let lit = |k: usize| format!("(= i {k})");
            let mut ks: Vec<usize> = (0..n).collect();
            let c0: String = ks.iter().map(|k| format!("{} ", lit(*k))).collect();
            r.shuffle(&mut ks);
            let c1: String = ks.iter().map(|k| format!("{} ", lit(*k))).collect();
            let rl = *r.pick(&["reordering", "contraction", "weakening", "resolution", "th_resolution", "strict_resolution", "drup", "or", "not_and", "and_neg", "la_generic", "shuffle"]);
            pf.push_str(&format!("(step h0 (cl {c0}) :rule hole)\n(step h1 (cl (or {c0})) :rule hole)\n(step t (cl {c1}) :rule {rl} :premises ({}))\n", r.pick(&["h0", "h1", "h0 h1"])));
            for k in 0..n {
                pf.push_str(&format!("(step n{k} (cl (not {})) :rule hole)\n", lit(k)));
            }
            let all: String = ks.iter().map(|k| format!("n{k} ")).collect();
            pf.push_str(&format!("(step e (cl) :rule {} :premises (h0 {all}))\n", r.pick(&["resolution", "th_resolution", "drup"])));
        }
        3 => {
            // long proofs
            let n = 200 + r.below(1500);
            pf.push_str("(step t0 (cl (= i 0)) :rule hole)\n");
            for k in 1..n {
                pf.push_str(&format!("(step h{k} (cl (not (= i {})) (= i {k})) :rule hole)\n(step t{k} (cl (= i {k})) :rule resolution :premises (h{k} t{}))\n", k - 1, k - 1));
            }
            pf.push_str(&format!("(step z (cl (not (= i {}))) :rule hole)\n(step e (cl) :rule resolution :premises (z t{}))\n", n - 1, n - 1));
        }
        4 => {
            // deep subproofs
            let n = 20 + r.below(100);
            let mut id = String::from("t");
            let mut ids = vec![];
            for _ in 0..n {
                id.push_str(".t");
                ids.push(id.clone());
                pf.push_str(&format!("(anchor :step {id})\n(assume {id}.h p)\n"));
            }
            let mut last = format!("{}.h", ids[n - 1]);
            let mut goal = "p".to_string();
            for id in ids.iter().rev() {
                pf.push_str(&format!("(step {id}.x (cl {goal}) :rule hole :premises ({last}))\n(step {id} (cl (not p) {goal}) :rule subproof :discharge ({id}.h))\n"));
                last = id.clone();
                goal = "q".into();
            }
            pf.push_str("(step e (cl) :rule hole)\n");
        }
        5 => {
            // large numbers
            let n = 50 + r.below(3000);
            let d: String = (0..n).map(|_| *r.pick(&['1', '5', '9'])).collect();
            let t = [format!("(+ i {d})"), format!("(* {d} i)"), format!("(div {d} 7)"), format!("(mod {d} {d}1)"), format!("(* {d} {d})"), format!("(f {d})"), format!("(to_int {d}.{d})"), format!("(- {d})")];
            let (x, y) = (r.pick(&t).clone(), r.pick(&t).clone());
            let op = *r.pick(&["=", "<", "<=", ">=", ">", "distinct"]);
            pf.push_str(&format!("(step h0 (cl ({op} {x} {y})) :rule hole)\n(step t (cl ({op} {x} {y}) (not ({op} {x} {y}))) :rule {} :args ({d} {d}.5))\n", rule(r)));
            pf.push_str(&format!("(step u (cl (= ({op} {x} {y}) {})) :rule {})\n(step e (cl) :rule hole)\n", r.pick(&["true", "false"]), r.pick(&["evaluate", "comp_simplify", "poly_simp", "la_rw_eq", "rare_rewrite", "sum_simplify", "prod_simplify"])));
        }
        _ => {
            // long strings and wide operators
            let n = 100 + r.below(2000);
            let x: String = (0..n).map(|_| *r.pick(&['a', 'b', 'a'])).collect();
            let y: String = (0..n).map(|_| *r.pick(&['a', 'a', 'b'])).collect();
            let wide: String = (0..r.below(n.min(300)) + 2).map(|_| *r.pick::<&str>(&["s ", "t ", "\"a\" ", "\"\" "])).collect();
            let e = match r.below(4) {
                0 => format!("(= (str.++ s \"{x}\") (str.++ \"{y}\" t))"),
                1 => format!("(= (str.++ {wide}) (str.++ {wide} \"{y}\"))"),
                2 => format!("(= (str.replace_all \"{x}\" \"{}\" \"b\") \"{y}\")", &y[..1 + r.below(3)]),
                _ => format!("(= (str.contains \"{x}\" \"{y}\") (str.in_re \"{x}\" ((_ re.loop 2 90) (str.to_re \"a\"))))"),
            };
            let rl = if r.coin() { *r.pick(&["concat_eq", "concat_unify", "concat_conflict", "concat_cprop_prefix", "concat_cprop_suffix", "concat_csplit_prefix", "string_decompose", "evaluate", "ac_simp", "aci_simp"]) } else { rule(r) };
            pf.push_str(&format!("(step h0 (cl {e}) :rule hole)\n(step h1 (cl (not (= (str.len s) 0))) :rule hole)\n(step t (cl (= s t)) :rule {rl} :premises (h0 h1) :args ({}))\n(step u (cl {e}) :rule {})\n(step e (cl) :rule hole)\n", r.pick(&["true", "false", "s"]), rule(r)));
        }
    }
    // every step on its own, and all together
    everywhere(r, rep, &pb, &pf, &Opts::default(), ["deep", "deep", "wide", "long", "subproofs", "numbers", "strings"][kind]);
    let lax = Opts { checker: carcara::checker::Config { ignore_unknown_rules: true, ..Default::default() }, ..Opts::default() };
    if kind < 2 || kind > 4 {
        let t: Vec<&str> = pf.lines().collect();
        let some: String = t.iter().enumerate().filter(|(k, x)| !x.starts_with("(step t") && !x.starts_with("(step u") || *k == t.len() - 2).map(|x| format!("{}\n", x.1)).collect();
        everywhere(r, rep, &pb, &some, &lax, "sizes");
    }
}
/// What nests without end ends the process: shown in another process.
pub fn child(op: usize, n: usize) {
    let (t, s) = nested(op, n, leaf(nested(op, 1, "p").1, 0));
    let pf = format!("(step h (cl (= {t} {})) :rule hole)\n(step e (cl) :rule hole)\n", leaf(s, 1));
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || check_plain(BIG, &pf, &Opts::default()).kind()).unwrap();
    println!("{:?}", h.join().unwrap_or("panic"));
}
fn endless(rep: &mut Report) {
    let exe = std::env::current_exe().unwrap();
    for op in [0, 6, 9, 12] {
        for n in [50, 100_000] {
            crate::watch::set(|| format!("nesting {op} {n} deep"));
            rep.evals += 1;
            let out = std::process::Command::new(&exe).args(["nest", &op.to_string(), &n.to_string()]).output().unwrap();
            let s = String::from_utf8_lossy(&out.stdout).to_string();
            let what = format!("{} ... nested {n} deep", nested(op, 1, "").0);
            if out.status.success() && s.contains("holey") {
                rep.count("nested:answered");
            } else if n > 1000 && String::from_utf8_lossy(&out.stderr).contains("overflowed its stack") {
                rep.violation("abort:deep-nesting", format!("the process dies of stack overflow: {what}"), &what);
            } else {
                rep.violation("abort:nesting", format!("{what}: {} {s}", out.status), &what);
            }
        }
    }
}

pub fn run(c: &mut Ctx) {
    // as the command line tool does: messages otherwise expand shared subterms
    carcara::ast::USE_SHARING_IN_TERM_DISPLAY.store(true, std::sync::atomic::Ordering::Relaxed);
    if c.worker == 0 {
        endless(&mut c.rep);
    }
    for _ in 0..c.iters(60) {
        if c.late() {
            break;
        }
        big(&mut c.rng, &mut c.rep);
    }
    let rng = RefCell::new(Rng::new(c.rng.next()));
    for _ in 0..c.iters(400) {
        if c.late() {
            break;
        }
        anything(&mut c.rng, &mut c.rep);
    }
    for _ in 0..c.iters(400) {
        if c.late() {
            break;
        }
        rewrites(&mut c.rng, &mut c.rep);
    }
    for i in 0..c.iters(500) {
        if c.late() {
            break;
        }
        let r = &mut c.rng;
        let mut sig = Sig::random(r);
        sig.named = r.coin();
        let t = text(r, sig, &Shape { defs: true, hole_args: true, steps: 5 }).0;
        let (pb, pf) = (t.problem, t.proof);
        let mut cfg = parser::Config::new();
        cfg.expand_lets = r.coin();
        cfg.strict = r.chance(1, 6);
        cfg.allow_int_real_subtyping = r.coin();
        cfg.parse_hole_args = r.coin();
        texts(r, &mut c.rep, &pb, &pf, None, &cfg, 8);
        if i % 4 == 0 {
            let (x, y, z) = (garbage(r), garbage(r), garbage(r));
            let rules = r.coin().then_some(&z[..]);
            texts(r, &mut c.rep, &x, &y, rules, &cfg, 4);
        }
    }
    c.workloads(super::c17::ALL, 150, move |name, pb, pf, o, _, rep| {
        let r = &mut *rng.borrow_mut();
        hostile(r, rep, pb, pf, o, name);
        if r.chance(1, 6) {
            texts(r, rep, pb, pf, o.rules.as_deref(), &o.parser, 6);
        }
    });
}
/// runs a recorded case again
pub fn replay(path: &str) {
    let t = std::fs::read_to_string(path).unwrap();
    let (pb, t) = t.split_once("---- proof\n").unwrap();
    let mut rep = Report::default();
    let pf = t.split("---- ").next().unwrap().to_string();
    for s in 0..40 {
        everywhere(&mut Rng::new(s), &mut rep, pb, &pf, &Opts::default(), "replay");
    }
    println!("{}", rep.json());
}
