//! The harness's own S-expression terms. All test instances are rendered as text from these.
use std::fmt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sx {
    A(Rc<str>),
    L(Rc<[Sx]>),
}
use Sx::*;

pub fn a(s: &str) -> Sx {
    A(Rc::from(s))
}
pub fn l(v: Vec<Sx>) -> Sx {
    L(Rc::from(v))
}
pub fn app(op: &str, args: &[Sx]) -> Sx {
    let mut v = vec![a(op)];
    v.extend(args.iter().cloned());
    l(v)
}
pub fn not(t: &Sx) -> Sx {
    l(vec![a("not"), t.clone()])
}
pub fn eq(x: &Sx, y: &Sx) -> Sx {
    l(vec![a("="), x.clone(), y.clone()])
}
pub fn int(n: i128) -> Sx {
    if n < 0 {
        l(vec![a("-"), a(&format!("{}", n.unsigned_abs()))])
    } else {
        a(&n.to_string())
    }
}
pub fn tt() -> Sx {
    a("true")
}
pub fn ff() -> Sx {
    a("false")
}

impl Sx {
    pub fn atom(&self) -> Option<&str> {
        match self {
            A(s) => Some(s),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&[Sx]> {
        match self {
            L(v) => Some(v),
            _ => None,
        }
    }
    /// head symbol and arguments of `(op args..)`
    pub fn op(&self) -> Option<(&str, &[Sx])> {
        match self {
            L(v) if !v.is_empty() => v[0].atom().map(|h| (h, &v[1..])),
            _ => None,
        }
    }
    pub fn is_op(&self, name: &str) -> bool {
        self.op().map_or(false, |(h, _)| h == name)
    }
    pub fn args(&self) -> &[Sx] {
        match self {
            L(v) if !v.is_empty() => &v[1..],
            _ => &[],
        }
    }
    pub fn size(&self) -> usize {
        match self {
            A(_) => 1,
            L(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
        }
    }
    pub fn contains_atom(&self, s: &str) -> bool {
        match self {
            A(x) => &**x == s,
            L(v) => v.iter().any(|x| x.contains_atom(s)),
        }
    }
    /// All positions (paths) in the tree.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(t: &Sx, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(cur.clone());
            if let L(v) = t {
                for (i, c) in v.iter().enumerate() {
                    cur.push(i);
                    go(c, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }
    pub fn at(&self, p: &[usize]) -> &Sx {
        match (self, p.split_first()) {
            (_, None) => self,
            (L(v), Some((i, rest))) => v[*i].at(rest),
            _ => panic!("bad path"),
        }
    }
    pub fn replace(&self, p: &[usize], new: &Sx) -> Sx {
        match (self, p.split_first()) {
            (_, None) => new.clone(),
            (L(v), Some((i, rest))) => {
                let mut v: Vec<Sx> = v.to_vec();
                v[*i] = v[*i].replace(rest, new);
                l(v)
            }
            _ => panic!("bad path"),
        }
    }
    /// Blind replacement of an atom everywhere.
    pub fn rename(&self, from: &str, to: &Sx) -> Sx {
        match self {
            A(x) if &**x == from => to.clone(),
            A(_) => self.clone(),
            L(v) => l(v.iter().map(|x| x.rename(from, to)).collect()),
        }
    }
}

impl fmt::Display for Sx {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A(s) => f.write_str(s),
            L(v) => {
                f.write_str("(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(" ")?;
                    }
                    write!(f, "{}", x)?;
                }
                f.write_str(")")
            }
        }
    }
}
impl fmt::Debug for Sx {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}

/// Parses one or more S-expressions (strings and |quoted| symbols kept as atoms, `;` comments).
pub fn parse_all(s: &str) -> Option<Vec<Sx>> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    while i < b.len() {
        let c = b[i];
        match c {
            c if c.is_whitespace() => i += 1,
            ';' => {
                while i < b.len() && b[i] != '\n' {
                    i += 1
                }
            }
            '(' => {
                stack.push(vec![]);
                i += 1
            }
            ')' => {
                let v = stack.pop()?;
                stack.last_mut()?.push(l(v));
                i += 1
            }
            '"' => {
                let st = i;
                i += 1;
                loop {
                    if i >= b.len() {
                        return None;
                    }
                    if b[i] == '"' {
                        if i + 1 < b.len() && b[i + 1] == '"' {
                            i += 2;
                            continue;
                        }
                        i += 1;
                        break;
                    }
                    i += 1;
                }
                stack.last_mut()?.push(a(&b[st..i].iter().collect::<String>()));
            }
            '|' => {
                let st = i;
                i += 1;
                while i < b.len() && b[i] != '|' {
                    i += 1
                }
                i += 1;
                if i > b.len() {
                    return None;
                }
                stack.last_mut()?.push(a(&b[st..i].iter().collect::<String>()));
            }
            _ => {
                let st = i;
                while i < b.len() && !b[i].is_whitespace() && !"()\";|".contains(b[i]) {
                    i += 1
                }
                stack.last_mut()?.push(a(&b[st..i].iter().collect::<String>()));
            }
        }
    }
    if stack.len() != 1 {
        return None;
    }
    stack.pop()
}
pub fn parse(s: &str) -> Sx {
    let v = parse_all(s).unwrap_or_else(|| panic!("bad sx template {s}"));
    assert!(v.len() == 1, "template {s}");
    v[0].clone()
}
/// Template: `?0`..`?9` are replaced by the arguments.
pub fn f(tmpl: &str, args: &[&Sx]) -> Sx {
    fn go(t: &Sx, args: &[&Sx]) -> Sx {
        match t {
            A(s) if s.starts_with('?') => match s[1..].parse::<usize>() {
                Ok(i) => args[i].clone(),
                Err(_) => t.clone(),
            },
            A(_) => t.clone(),
            L(v) => l(v.iter().map(|x| go(x, args)).collect()),
        }
    }
    go(&parse(tmpl), args)
}
