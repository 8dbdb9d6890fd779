//! Grammars as data: abstract syntax, types, serialisation, and the oak source text they stand for.
use crate::sexp::*;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Inv, Unit, Char, Span, Range, Tok, BTok,
    List(Box<Ty>), Opt(Box<Ty>), Tup(Vec<Ty>),
    /// The value of a rule of another grammar, ascribed with its Rust type: one opaque component.
    Opq(Box<Ty>),
}
use Ty::*;

impl Ty {
    pub fn unitish(&self) -> bool { matches!(self, Inv | Unit) }
    /// Number of components an expression of this type contributes to a sequence.
    pub fn card(&self) -> usize { match self { Inv | Unit => 0, Tup(v) => v.len(), _ => 1 } }
    pub fn comps(&self) -> Vec<Ty> { match self { Inv | Unit => vec![], Tup(v) => v.clone(), t => vec![t.clone()] } }
    pub fn rust(&self) -> String {
        match self {
            Inv | Unit => "()".into(), Char => "char".into(), Span => "Span".into(),
            Range => "Range<SimStream>".into(), Tok => "Tok".into(), BTok => "Box<Tok>".into(),
            List(t) => format!("Vec<{}>", t.rust()), Opt(t) => format!("Option<{}>", t.rust()),
            Tup(v) => format!("({})", v.iter().map(|t| t.rust()).collect::<Vec<_>>().join(", ")),
            Opq(t) => t.rust(),
        }
    }
    pub fn sx(&self) -> S {
        match self {
            Inv => a("inv"), Unit => a("unit"), Char => a("char"), Span => a("span"), Range => a("range"),
            Tok => a("tok"), BTok => a("btok"),
            List(x) => t("list", vec![x.sx()]), Opt(x) => t("opt", vec![x.sx()]),
            Tup(v) => t("tup", v.iter().map(|x| x.sx()).collect()), Opq(x) => t("opq", vec![x.sx()]),
        }
    }
    pub fn of(s: &S) -> Ty {
        match s {
            S::A(x) => match x.as_str() {
                "inv" => Inv, "unit" => Unit, "char" => Char, "span" => Span, "range" => Range, "tok" => Tok, "btok" => BTok,
                o => panic!("type {}", o),
            },
            S::L(_) => match s.tag() {
                "list" => List(Box::new(Ty::of(&s.rest()[0]))), "opt" => Opt(Box::new(Ty::of(&s.rest()[0]))),
                "opq" => Opq(Box::new(Ty::of(&s.rest()[0]))),
                "tup" => Tup(s.rest().iter().map(Ty::of).collect()), o => panic!("type {}", o),
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AK {
    /// A function declared inside the grammar.
    In,
    /// A function named by a path (its type is ascribed).
    Out,
    /// An upper-case path on an expression of unit type: a constant, not a call.
    Var,
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Lit(String), Any, Class(Vec<(char, char)>),
    Seq(Vec<N>), Alt(Vec<N>), Star(Box<N>), Plus(Box<N>), Opt(Box<N>), Not(Box<N>), And(Box<N>),
    Rule(usize), Ext(usize, usize),
    Act(Box<N>, u32, AK, bool),
    /// `e:()`, `e:(^)`, `e:(Tok)`, `e:(Box<Tok>)`
    Asc(Box<N>, Ty),
    Span(Box<N>), Rng(Box<N>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct N { pub k: K, pub ty: Ty }

pub fn seq_ty(xs: &[N]) -> Ty {
    if xs.iter().all(|x| x.ty == Inv) { return Inv }
    let cs: Vec<Ty> = xs.iter().flat_map(|x| x.ty.comps()).collect();
    tup_ty(cs)
}
pub fn tup_ty(mut cs: Vec<Ty>) -> Ty { match cs.len() { 0 => Unit, 1 => cs.pop().unwrap(), _ => Tup(cs) } }

pub fn alt_ty(xs: &[N]) -> Ty {
    if xs.iter().all(|x| x.ty == xs[0].ty) { return xs[0].ty.clone() }
    if xs.iter().all(|x| x.ty.unitish()) { return Inv }
    panic!("ill-typed choice {:?}", xs.iter().map(|x| x.ty.clone()).collect::<Vec<_>>())
}

/// Expression constructor: computes the type.
pub fn mk(k: K, rt: &dyn Fn(usize) -> Ty, ext_ty: Option<Ty>) -> N {
    let ty = match &k {
        K::Lit(_) | K::Not(_) | K::And(_) => Inv,
        K::Any | K::Class(_) => Char,
        K::Seq(xs) => seq_ty(xs),
        K::Alt(xs) => alt_ty(xs),
        K::Star(x) | K::Plus(x) => if x.ty == Inv { Inv } else { List(Box::new(x.ty.clone())) },
        K::Opt(x) => if x.ty == Inv { Inv } else { Opt(Box::new(x.ty.clone())) },
        K::Rule(i) => rt(*i),
        K::Ext(..) => ext_ty.unwrap(),
        K::Act(_, _, _, b) => if *b { BTok } else { Tok },
        K::Asc(_, t) => t.clone(),
        K::Span(x) => { let mut v = vec![Span]; v.extend(x.ty.comps()); tup_ty(v) }
        K::Rng(_) => Range,
    };
    N { k, ty }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule { pub name: String, pub ty: Ty, pub asc: Option<Ty>, pub body: N }

#[derive(Clone, Debug, PartialEq)]
pub struct Gram { pub id: usize, pub rules: Vec<Rule> }

/// The names of the rules of all grammars read so far, for calls from other grammars.
static NAMES: std::sync::Mutex<BTreeMap<(usize, usize), String>> = std::sync::Mutex::new(BTreeMap::new());

pub type World = BTreeMap<usize, Gram>;

impl N {
    pub fn sx(&self) -> S {
        match &self.k {
            K::Lit(s) => t("lit", vec![S::A(s.clone())]), K::Any => t("any", vec![]),
            K::Class(v) => t("cls", v.iter().map(|(x, y)| S::A(format!("{}{}", x, y))).collect()),
            K::Seq(v) => t("seq", v.iter().map(|x| x.sx()).collect()), K::Alt(v) => t("alt", v.iter().map(|x| x.sx()).collect()),
            K::Star(x) => t("star", vec![x.sx()]), K::Plus(x) => t("plus", vec![x.sx()]), K::Opt(x) => t("opt", vec![x.sx()]),
            K::Not(x) => t("not", vec![x.sx()]), K::And(x) => t("and", vec![x.sx()]),
            K::Rule(i) => t("rule", vec![a(i)]), K::Ext(g, r) => t("ext", vec![a(g), a(r), self.ty.sx()]),
            K::Act(x, i, k, b) => t("act", vec![a(i), a(match k { AK::In => "in", AK::Out => "out", AK::Var => "var" }), a(*b as u8), x.sx()]),
            K::Asc(x, ty) => t("asc", vec![ty.sx(), x.sx()]),
            K::Span(x) => t("span", vec![x.sx()]), K::Rng(x) => t("rng", vec![x.sx()]),
        }
    }
    pub fn of(s: &S, rt: &dyn Fn(usize) -> Ty) -> N {
        let r = s.rest();
        let b = |i: usize| Box::new(N::of(&r[i], rt));
        let vs = || r.iter().map(|x| N::of(x, rt)).collect::<Vec<_>>();
        let mut ext = None;
        let k = match s.tag() {
            "lit" => K::Lit(r[0].atom().to_string()), "any" => K::Any,
            "cls" => K::Class(r.iter().map(|x| { let c: Vec<char> = x.atom().chars().collect(); (c[0], c[1]) }).collect()),
            "seq" => K::Seq(vs()), "alt" => K::Alt(vs()),
            "star" => K::Star(b(0)), "plus" => K::Plus(b(0)), "opt" => K::Opt(b(0)), "not" => K::Not(b(0)), "and" => K::And(b(0)),
            "rule" => K::Rule(r[0].num()), "ext" => { ext = Some(Ty::of(&r[2])); K::Ext(r[0].num(), r[1].num()) }
            "act" => K::Act(b(3), r[0].num(), match r[1].atom() { "in" => AK::In, "out" => AK::Out, _ => AK::Var }, r[2].atom() == "1"),
            "asc" => K::Asc(b(1), Ty::of(&r[0])), "span" => K::Span(b(0)), "rng" => K::Rng(b(0)),
            o => panic!("node {}", o),
        };
        mk(k, rt, ext)
    }
    pub fn kids(&self) -> Vec<&N> {
        match &self.k {
            K::Seq(v) | K::Alt(v) => v.iter().collect(),
            K::Star(x) | K::Plus(x) | K::Opt(x) | K::Not(x) | K::And(x) | K::Act(x, ..) | K::Asc(x, _) | K::Span(x) | K::Rng(x) => vec![x],
            _ => vec![],
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a N)) { f(self); for c in self.kids() { c.walk(f); } }
    pub fn size(&self) -> usize { 1 + self.kids().iter().map(|x| x.size()).sum::<usize>() }

    fn level(&self) -> u8 {
        match &self.k {
            K::Alt(_) => 0, K::Act(_, _, AK::In, _) | K::Span(_) | K::Rng(_) => 1, K::Seq(_) => 2,
            K::Asc(..) | K::Act(..) | K::Ext(..) => 3, K::Not(_) | K::And(_) => 4, K::Star(_) | K::Plus(_) | K::Opt(_) => 5, _ => 6,
        }
    }
    /// Is its type unknown to oak unless it is ascribed?
    fn foreign(&self) -> bool { matches!(self.k, K::Ext(..) | K::Act(_, _, AK::Out, _) | K::Act(_, _, AK::Var, _)) }
    /// Oak source; `bare`: an expression of a type unknown to oak may stand here without ascription.
    /// Levels: 0 choice, 1 branch, 2 sequence, 3 ascription, 4 prefix, 5 suffix, 6 atom.
    pub fn src(&self, g: &Gram, min: u8, bare: bool, o: &mut String) {
        // Parentheses that are needed, and some that are not.
        let paren = self.level() < min || crate::rng::mix(g.id as u64, o.len() as u64) % 14 == 0;
        if paren { o.push('('); }
        match &self.k {
            K::Lit(s) => { write!(o, "{}", rust_str(s, (g.id * 131 + o.len()) as u64)).unwrap(); }
            K::Any => o.push('.'),
            K::Class(v) => { write!(o, "[{}]", rust_str(&class_text(v), (g.id * 131 + o.len()) as u64)).unwrap(); }
            K::Seq(v) => for (i, x) in v.iter().enumerate() { if i > 0 { o.push(' '); } x.src(g, 3, bare, o); },
            K::Alt(v) => for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(" / "); } x.src(g, 1, bare && x.foreign(), o); },
            K::Star(x) => { x.src(g, 6, bare, o); o.push('*'); }
            K::Plus(x) => { x.src(g, 6, bare, o); o.push('+'); }
            K::Opt(x) => { x.src(g, 6, bare, o); o.push('?'); }
            K::Not(x) => { o.push('!'); x.src(g, 5, false, o); }
            K::And(x) => { o.push('&'); x.src(g, 5, false, o); }
            K::Rule(i) => o.push_str(&g.rules[*i].name),
            K::Ext(gi, r) => {
                let t = match &self.ty { Inv => "^".into(), Unit => String::new(), t => t.rust() };
                let n = NAMES.lock().unwrap().get(&(*gi, *r)).cloned().unwrap_or_else(|| format!("r{}", r));
                // The same module by different paths.
                let path = match crate::rng::mix((g.id * 64 + gi) as u64, *r as u64) % 8 { 0 => format!("crate::g{}", gi), 1 => format!("self::super::g{}", gi), 2 => format!("h{}", gi), _ => format!("super::g{}", gi) };
                write!(o, "{}::{}", path, n).unwrap();
                if !(bare && !self.ty.unitish() && crate::rng::mix((g.id * 64 + gi) as u64, *r as u64 + 77) % 4 != 0) { write!(o, ":({})", t).unwrap(); }
            }
            K::Act(x, id, k, b) => {
                // The branch `e > f` cannot be a direct operand of another `>`.
                let lv = if matches!(x.k, K::Act(_, _, AK::In, _)) { 2 } else { 1 };
                let bx = if *b { "box " } else { "" };
                match k {
                    AK::In => { x.src(g, lv, true, o); write!(o, " > {}{}", bx, action_name(*id, *k, 0)).unwrap(); }
                    _ => {
                        o.push('('); x.src(g, lv, true, o);
                        // The same function by different paths.
                        let path = match crate::rng::mix(g.id as u64, *id as u64) % 6 { 0 => "self::outs::".into(), 1 => "".into(), 2 => format!("super::g{}::outs::", g.id), _ => "outs::".to_string() };
                        write!(o, " > {}{}{})", bx, path, action_name(*id, *k, x.ty.card())).unwrap();
                        if !(bare && id % 2 == 0) { write!(o, ":({})", self.ty.rust()).unwrap(); }
                    }
                }
            }
            K::Asc(x, t) => {
                // `e:(T):(U)` is not in the concrete syntax.
                x.src(g, 4, false, o);
                match t { Inv => o.push_str(":(^)"), Unit => o.push_str(":()"), t => { write!(o, ":({})", t.rust()).unwrap() } }
            }
            K::Span(x) => { o.push_str(".. "); x.src(g, 2, bare, o); }
            K::Rng(x) => { o.push_str("... "); x.src(g, 2, false, o); }
        }
        if paren { o.push(')'); }
    }
    /// The text of the terminal in reports.
    pub fn item(&self) -> String {
        match &self.k {
            K::Lit(s) => s.clone(), K::Any => "<character>".into(),
            K::Class(v) => {
                let mut o = String::from("[\"");
                for (lo, hi) in v { for c in lo.escape_default() { o.push(c); } if lo != hi { o.push('-'); for c in hi.escape_default() { o.push(c); } } }
                o.push_str("\"]");
                o
            }
            _ => unreachable!(),
        }
    }
}

/// Names of functions in all styles; one in upper case is a constant only on a unit expression.
fn action_name(id: u32, k: AK, card: usize) -> String {
    match (k, id % 9) {
        (AK::Var, 0 | 3) => format!("VALUE_{}", id), (AK::Var, _) => format!("V{}", id),
        (AK::Out, 1 | 6) if card > 0 => format!("Make{}", id), (AK::Out, 4) => format!("_out{}", id), (AK::Out, _) => format!("out{}", id),
        (AK::In, 1) => format!("_a{}", id), (AK::In, 3) => format!("make_a{}", id), (AK::In, 5) => format!("aB{}", id), (AK::In, 7) => format!("\u{e9}tat{}", id),
        _ => format!("a{}", id),
    }
}

pub fn class_text(v: &[(char, char)]) -> String {
    let mut s = String::new();
    for (lo, hi) in v { s.push(*lo); if lo != hi { s.push('-'); s.push(*hi); } }
    s
}

/// A literal in one of the ways Rust has for writing it, according to `salt`.
pub fn rust_str(s: &str, salt: u64) -> String {
    let h = crate::rng::mix(salt, 0x6c69_7465);
    let plain = |c: char| !(c.is_control() || matches!(c, '\u{200b}'..='\u{200f}' | '\u{2028}'..='\u{202e}' | '\u{2060}'..='\u{206f}' | '\u{feff}' | '\u{fff0}'..='\u{ffff}' | '\u{10fff0}'..='\u{10ffff}'));
    if h % 9 == 0 && s.chars().all(|c| plain(c) || c == '\t') {
        let k = (1..).find(|k| !s.contains(&format!("\"{}", "#".repeat(*k)))).unwrap();
        let k = if h % 2 == 0 && !s.contains('"') { 0 } else { k + (h % 3) as usize };
        return format!("r{0}\"{1}\"{0}", "#".repeat(k), s);
    }
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        if h % 11 == 1 && crate::rng::mix(h, i as u64) % 3 == 0 {
            if (c as u32) < 0x80 && i % 2 == 0 { write!(o, "\\x{:02x}", c as u32).unwrap() } else { write!(o, "\\u{{{:04x}}}", c as u32).unwrap() }
            continue
        }
        // A line that goes on below; white space at the start of it would be left out.
        if h % 23 == 2 && i > 0 && !c.is_whitespace() { o.push_str("\\\n    "); }
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), '\0' => o.push_str("\\0"),
            '\'' if h % 5 == 0 => o.push_str("\\'"),
            c if !plain(c) => { write!(o, "\\u{{{:x}}}", c as u32).unwrap() }
            c => o.push(c) }
    }
    o.push('"');
    o
}

impl Gram {
    pub fn sx(&self) -> S {
        let mut v = vec![a(self.id)];
        for r in &self.rules {
            v.push(t("r", vec![a(&r.name), r.ty.sx(), match &r.asc { None => a("-"), Some(x) => x.sx() }, r.body.sx()]));
        }
        t("gram", v)
    }
    pub fn of(s: &S) -> Gram {
        let rs = &s.rest()[1..];
        let tys: Vec<Ty> = rs.iter().map(|r| Ty::of(&r.rest()[1])).collect();
        let rt = |i: usize| tys[i].clone();
        let rules = rs.iter().map(|r| {
            let f = r.rest();
            Rule { name: f[0].atom().to_string(), ty: Ty::of(&f[1]), asc: if f[2] == a("-") { None } else { Some(Ty::of(&f[2])) }, body: N::of(&f[3], &rt) }
        }).collect();
        let g = Gram { id: s.rest()[0].num(), rules };
        for (i, r) in g.rules.iter().enumerate() { NAMES.lock().unwrap().insert((g.id, i), r.name.clone()); }
        g
    }
    pub fn rt(&self, i: usize) -> Ty { self.rules[i].ty.clone() }
    pub fn rule_src(&self, r: &Rule) -> String {
        let mut o = String::new();
        match &r.asc { None => write!(o, "{} = ", r.name).unwrap(), Some(Inv) => write!(o, "{}: (^) = ", r.name).unwrap(),
            Some(Unit) => write!(o, "{}: () = ", r.name).unwrap(), 
            Some(t) if r.name.len() % 2 == 0 && matches!(t, Tok | BTok) => write!(o, "{}: {} = ", r.name, t.rust()).unwrap(), Some(t) => write!(o, "{}: ({}) = ", r.name, t.rust()).unwrap() }
        r.body.src(self, 0, false, &mut o);
        o
    }
    pub fn actions(&self) -> Vec<(u32, AK, usize)> {
        let mut v: BTreeMap<u32, (AK, usize)> = BTreeMap::new();
        for r in &self.rules { r.body.walk(&mut |n| if let K::Act(x, id, k, _) = &n.k { v.insert(*id, (*k, x.ty.card())); }); }
        v.into_iter().map(|(i, (k, c))| (i, k, c)).collect()
    }
    pub fn exts(&self) -> Vec<usize> {
        let mut v = vec![];
        for r in &self.rules { r.body.walk(&mut |n| if let K::Ext(g, _) = &n.k { if !v.contains(g) { v.push(*g); } }); }
        v
    }
    pub fn fn_src(&self, out: bool) -> String { self.fns(out).concat() }
    pub fn fns(&self, out: bool) -> Vec<String> {
        let mut all = vec![];
        for (id, k, c) in self.actions() {
            if (k == AK::In) == out { continue }
            if k == AK::Var { all.push(format!("    pub const {}: Tok = Tok::konst({});\n", action_name(id, k, 0), id)); continue }
            let gen = if c == 0 { String::new() } else { format!("<{}>", (0..c).map(|i| format!("T{}: ToVal", i)).collect::<Vec<_>>().join(", ")) };
            let args = (0..c).map(|i| format!("p{}: T{}", i, i)).collect::<Vec<_>>().join(", ");
            let vals = (0..c).map(|i| format!("p{}.to_val()", i)).collect::<Vec<_>>().join(", ");
            let attr = if out { "pub " } else { match crate::rng::mix(self.id as u64, id as u64) % 8 { 0 => "#[inline] ", 1 => "/// An action.\n    pub ", 2 => "pub(crate) ", _ => "" } };
            all.push(format!("    {}fn {}{}({}) -> Tok {{ let h = enter_action({}); let v = vec![{}]; leave_action(h, {}, v) }}\n",
                attr, action_name(id, k, c), gen, args, id, vals, id));
        }
        all
    }
    /// The Rust module that holds the grammar.
    pub fn module(&self, glue: bool) -> String {
        let mut o = String::new();
        writeln!(o, "#![allow(warnings)]\nuse oak::oak;\nuse oak_runtime::Span;\nuse oaksim::prelude::*;").unwrap();
        for e in self.exts() { writeln!(o, "use super::g{} as h{};", e, e).unwrap(); }
        writeln!(o, "pub mod outs {{\n    use oaksim::prelude::*;\n{}}}", self.fn_src(true)).unwrap();
        writeln!(o, "use self::outs::*;").unwrap();
        // What a grammar is made of, in different forms and orders.
        let mut h = crate::rng::Rng::new(crate::rng::mix(0x0a4, self.id as u64));
        let alias = format!("    {}\n", ["type Stream<'a> = SimStream;", "pub type Stream<'a> = SimStream;", "type Stream = SimStream;"][h.below(3)]);
        let mut rules: Vec<String> = self.rules.iter().map(|r| format!("    {}\n", self.rule_src(r))).collect();
        let mut fns = self.fns(false);
        if h.chance(1, 4) { let n = rules.len(); rules.rotate_left(h.below(n)); }
        if h.chance(1, 6) { rules.reverse(); }
        if h.chance(1, 4) { fns.push((*h.pick(&["    pub struct Unit;\n", "    const LIMIT: usize = 1;\n", "    pub mod inner { pub fn f() -> u8 { 1 } }\n", "    use std::collections::BTreeMap;\n", "    // A comment.\n", "    impl Unit2 { fn f(&self) {} }\n    struct Unit2;\n", "    enum Kind { A, B }\n"])).into()); }
        let mut parts = match h.below(4) { 0 => { fns.extend(rules); fns } 1 => { for f in fns { let i = h.below(rules.len() + 1); rules.insert(i, f); } rules } _ => { rules.extend(fns); rules } };
        let i = match h.below(4) { 0 => parts.len(), 1 => h.below(parts.len() + 1), _ => 0 };
        parts.insert(i, alias);
        writeln!(o, "oak! {{\n{}}}", parts.concat()).unwrap();
        if glue {
            writeln!(o, "pub fn table() -> Vec<RuleFns> {{ vec![").unwrap();
            for r in &self.rules {
                writeln!(o, "    RuleFns {{ recog: |s| finish(recognize_{}(s.into_state())), parse: |s| finish(parse_{}(s.into_state())) }},", r.name, r.name).unwrap();
            }
            writeln!(o, "] }}").unwrap();
        }
        o
    }
}
