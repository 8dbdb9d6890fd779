//! Tiny s-expressions: the serialisation of grammars and of replay files.
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum S { A(String), L(Vec<S>) }

pub fn a<T: ToString>(x: T) -> S { S::A(x.to_string()) }
pub fn l(xs: Vec<S>) -> S { S::L(xs) }
pub fn t(tag: &str, mut xs: Vec<S>) -> S { xs.insert(0, a(tag)); S::L(xs) }

impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            S::A(s) => {
                if !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "_-.+:".contains(c)) { write!(f, "{}", s) }
                else {
                    write!(f, "\"")?;
                    for c in s.chars() {
                        match c { '"' => write!(f, "\\\"")?, '\\' => write!(f, "\\\\")?, '\n' => write!(f, "\\n")?, '\r' => write!(f, "\\r")?, '\t' => write!(f, "\\t")?, c => write!(f, "{}", c)? }
                    }
                    write!(f, "\"")
                }
            }
            S::L(xs) => {
                write!(f, "(")?;
                for (i, x) in xs.iter().enumerate() { if i > 0 { write!(f, " ")?; } write!(f, "{}", x)?; }
                write!(f, ")")
            }
        }
    }
}

impl S {
    pub fn parse(src: &str) -> S {
        let cs: Vec<char> = src.chars().collect();
        let mut i = 0;
        Self::p(&cs, &mut i)
    }
    fn ws(cs: &[char], i: &mut usize) { while *i < cs.len() && cs[*i].is_whitespace() { *i += 1; } }
    fn p(cs: &[char], i: &mut usize) -> S {
        Self::ws(cs, i);
        if *i >= cs.len() { panic!("sexp: unexpected end"); }
        match cs[*i] {
            '(' => {
                *i += 1;
                let mut xs = vec![];
                loop {
                    Self::ws(cs, i);
                    if *i >= cs.len() { panic!("sexp: unclosed"); }
                    if cs[*i] == ')' { *i += 1; return S::L(xs) }
                    xs.push(Self::p(cs, i));
                }
            }
            '"' => {
                *i += 1;
                let mut s = String::new();
                while cs[*i] != '"' {
                    if cs[*i] == '\\' { *i += 1; s.push(match cs[*i] { 'n' => '\n', 'r' => '\r', 't' => '\t', c => c }); }
                    else { s.push(cs[*i]); }
                    *i += 1;
                }
                *i += 1;
                S::A(s)
            }
            _ => {
                let mut s = String::new();
                while *i < cs.len() && !cs[*i].is_whitespace() && cs[*i] != '(' && cs[*i] != ')' { s.push(cs[*i]); *i += 1; }
                S::A(s)
            }
        }
    }
    pub fn list(&self) -> &[S] { match self { S::L(x) => x, S::A(s) => panic!("sexp: list expected, got {}", s) } }
    pub fn atom(&self) -> &str { match self { S::A(s) => s, S::L(_) => panic!("sexp: atom expected: {}", self) } }
    pub fn num<T: std::str::FromStr>(&self) -> T { self.atom().parse().ok().expect("sexp: number") }
    pub fn tag(&self) -> &str { self.list()[0].atom() }
    pub fn rest(&self) -> &[S] { &self.list()[1..] }
    /// The field `(name ...)` of a tagged list.
    pub fn field(&self, name: &str) -> Option<&S> {
        self.rest().iter().find(|x| matches!(x, S::L(v) if !v.is_empty() && matches!(&v[0], S::A(n) if n == name)))
    }
    pub fn f1(&self, name: &str) -> &S { &self.field(name).unwrap_or_else(|| panic!("sexp: no field {} in {}", name, self)).list()[1] }
}
