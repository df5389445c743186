//! Reading carcara's terms back into the harness's own representation.
use crate::sx::*;
use carcara::ast::*;

/// Converts a term of the tool's AST to an S-expression, by structure (not through the printer).
pub fn conv(t: &Rc<Term>) -> Sx {
    match t.as_ref() {
        Term::Const(c) => constant(c),
        Term::Var(n, _) => a(n),
        Term::App(f, args) => l(std::iter::once(conv(f)).chain(args.iter().map(conv)).collect()),
        Term::Op(op, args) => {
            let h = a(&op.to_string());
            if args.is_empty() {
                h
            } else {
                l(std::iter::once(h).chain(args.iter().map(conv)).collect())
            }
        }
        Term::ParamOp { op, op_args, args } => {
            let mut h = vec![a("_"), a(&op.to_string())];
            h.extend(op_args.iter().map(conv));
            l(std::iter::once(l(h)).chain(args.iter().map(conv)).collect())
        }
        Term::Binder(b, bs, inner) => {
            let b = match b {
                Binder::Forall => "forall",
                Binder::Exists => "exists",
                Binder::Choice => "choice",
                Binder::Lambda => "lambda",
            };
            l(vec![a(b), binds(bs), conv(inner)])
        }
        Term::Let(bs, inner) => l(vec![a("let"), binds(bs), conv(inner)]),
        Term::Sort(s) => sort(s),
    }
}
fn binds(bs: &BindingList) -> Sx {
    l(bs.iter().map(|(n, v)| l(vec![a(n), conv(v)])).collect())
}
fn constant(c: &Constant) -> Sx {
    match c {
        Constant::Integer(i) => num(&i.to_string(), ""),
        Constant::Real(r) => {
            let (n, d) = (r.numer().to_string(), r.denom().to_string());
            if d == "1" {
                num(&n, ".0")
            } else {
                l(vec![a("/"), num(&n, ".0"), a(&format!("{d}.0"))])
            }
        }
        Constant::String(s) => a(&format!("\"{}\"", s.replace('"', "\"\""))),
        Constant::BitVec(v, w) => {
            let b = format!("{v:b}");
            a(&format!("#b{}{}", "0".repeat(w.saturating_sub(b.len())), b))
        }
    }
}
fn num(n: &str, suffix: &str) -> Sx {
    match n.strip_prefix('-') {
        Some(m) => l(vec![a("-"), a(&format!("{m}{suffix}"))]),
        None => a(&format!("{n}{suffix}")),
    }
}
pub fn sort(s: &Sort) -> Sx {
    match s {
        Sort::Function(v) => l(std::iter::once(a("->")).chain(v.iter().map(conv)).collect()),
        Sort::Atom(n, v) if v.is_empty() => a(n),
        Sort::Atom(n, v) => l(std::iter::once(a(n)).chain(v.iter().map(conv)).collect()),
        Sort::Var(n) => a(n),
        Sort::Bool => a("Bool"),
        Sort::Int => a("Int"),
        Sort::Real => a("Real"),
        Sort::String => a("String"),
        Sort::RegLan => a("RegLan"),
        Sort::RareList => a("?RareList"),
        Sort::Array(x, y) => l(vec![a("Array"), conv(x), conv(y)]),
        Sort::BitVec(w) => l(vec![a("_"), a("BitVec"), a(&w.to_string())]),
        _ => a("?sort"),
    }
}
/// Parses a problem (declarations) and some terms, all in one pool.
pub fn parse_terms<const N: usize>(pool: &mut PrimitivePool, decls: &str, terms: [&str; N], expand: bool) -> Result<[Rc<Term>; N], String> {
    use carcara::parser::*;
    let mut cfg = Config::new();
    cfg.expand_lets = expand;
    let mut p = Parser::new(pool, cfg, decls.as_bytes()).map_err(|e| e.to_string())?;
    p.parse_problem().map_err(|e| e.to_string())?;
    let mut out = vec![];
    for t in terms {
        p.reset(t.as_bytes()).map_err(|e| e.to_string())?;
        out.push(p.parse_term().map_err(|e| format!("{e} in {t}"))?);
    }
    out.try_into().map_err(|_| String::new())
}
