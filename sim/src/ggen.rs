//! Seeded generation of grammars (type-directed) and of inputs for them.
use crate::gram::*;
use crate::refi;
use crate::rng::Rng;

#[path = "tmpl.rs"]
mod tmpl;

const ODD: &[char] = &['-', '"', '\\', '\n', '\r', 'é', '→', '𝄞', ' ', '\t', '`', '\'', '{', '}', '0', 'Z', '~', '\u{301}', '_', '/', '%', '\u{7f}'];
/// Characters at the ends of ranges, with a meaning of their own, or whose case or neighbours are unusual.
const EDGE: &[char] = &['\0', '\u{1}', '\u{80}', '\u{85}', '\u{a0}', '\u{ff}', '\u{100}', '\u{130}', '\u{131}', '\u{df}', '\u{149}', '\u{3c2}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{200d}', '\u{2028}', '\u{202e}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{3ffff}', '\u{e0041}', '\u{100000}', '\u{10fffe}', '\u{10ffff}'];
/// Numbers of repetitions next to the sizes of small integers and of buffers.
const COUNTS: &[usize] = &[31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025];
const HUGE: &[usize] = &[4096, 32767, 32768, 65535, 65536, 65537];
const STEMS: &[&str] = &["r", "e", "expr", "expr_list", "x", "rule", "recognize", "parse", "state", "result", "s_", "_u", "T", "main", "parse_rule", "a", "b", "list", "start", "term", "stream", "Token", "the_rule_with_a_very_long_name_to_be_read_aloud", "é", "règle"];
/// The name of a rule: most grammars number their rules, others name them in all sorts of ways.
pub fn rule_name(gid: usize, i: usize) -> String {
    let h = crate::rng::mix(gid as u64, 0x6e61_6d65);
    if h % 3 == 0 {
        let n = STEMS.len();
        let k = (h as usize / 3 % n + i * (1 + h as usize / 1000 % (n - 1))) % n;
        // Different rules, different names.
        let first = (0..i).all(|j| (h as usize / 3 % n + j * (1 + h as usize / 1000 % (n - 1))) % n != k);
        if first { STEMS[k].to_string() } else { format!("{}{}", STEMS[k], i) }
    } else { format!("r{}", i) }
}

pub struct GG<'w> {
    pub r: Rng,
    w: &'w World,
    id: usize,
    alpha: Vec<char>,
    tys: Vec<Ty>,
    /// Rules that may be called from the rule being generated without making the type depend on itself.
    cur: usize,
    acts: u32,
    budget: i32,
    /// Ill-formed grammars are wanted (left recursion, loops).
    ill: bool,
    /// Grammars that may be called as external.
    ext: Vec<usize>,
    deep: bool,
    /// Large rules: dozens of scopes.
    big: bool,
    noact: bool,
    /// Many spans and ranges.
    spans: bool,
    /// More of the shapes that real grammars have.
    real: bool,
}

fn ty_size(t: &Ty) -> usize { match t { Ty::List(x) | Ty::Opt(x) | Ty::Opq(x) => 1 + ty_size(x), Ty::Tup(v) => v.iter().map(ty_size).sum(), _ => 1 } }

impl<'w> GG<'w> {
    fn node(&self, k: K) -> N { let t = self.tys.clone(); mk(k, &move |i| t[i].clone(), None) }
    fn rule(&mut self, i: usize) -> N { self.node(K::Rule(i)) }

    pub fn rand_ty(&mut self, d: usize) -> Ty {
        let s = if self.spans { 6 } else { 2 };
        if d > 0 && !self.ext.is_empty() && self.r.chance(1, 9) { if let Some(t) = self.foreign_ty() { return t } }
        match self.r.weighted(&[4, 2, 6, if d > 0 { 5 } else { 0 }, if d > 0 { 4 } else { 0 }, if d > 0 { 6 } else { 0 }, 7, 2, s, s]) {
            0 => Ty::Inv, 1 => Ty::Unit, 2 => Ty::Char,
            3 => { let x = self.elem_ty(d - 1); Ty::List(Box::new(x)) }
            4 => { let x = self.elem_ty(d - 1); Ty::Opt(Box::new(x)) }
            5 => {
                let n = if self.r.chance(1, 12) { self.r.range(5, 30) } else { self.r.range(2, 4) };
                let mut v = vec![];
                let wide = self.r.chance(1, 2);
                for _ in 0..n { v.push(if n > 4 { if wide && self.r.chance(3, 4) { Ty::Tok } else { Ty::Char } } else { self.comp_ty(d - 1) }); }
                if self.spans && self.r.chance(1, 2) || self.r.chance(1, 5) { v[0] = Ty::Span; }
                Ty::Tup(v)
            }
            6 => Ty::Tok, 7 => Ty::BTok, 8 => Ty::Span, _ => Ty::Range,
        }
    }
    fn elem_ty(&mut self, d: usize) -> Ty { loop { let t = self.rand_ty(d); if t != Ty::Inv { return t } } }
    fn comp_ty(&mut self, d: usize) -> Ty { loop { let t = self.rand_ty(d); if !t.unitish() && !matches!(t, Ty::Tup(_)) { return t } } }

    fn ch(&mut self) -> char { *self.r.pick(&self.alpha.clone()) }
    fn lit(&mut self) -> N {
        let n = match self.r.below(20) { 0..=11 => 1, 12..=16 => 2, 17..=18 => 3, _ => if self.r.chance(1, 12) { *self.r.pick(&[127usize, 128, 255, 256, 257, 258, 260, 300, 511, 512, 515, 700, 1025, 1100]) } else if self.r.chance(1, 5) { self.r.range(5, 40) } else { self.r.range(0, 4) } };
        let s: String = (0..n).map(|_| self.ch()).collect();
        self.node(K::Lit(s))
    }
    fn class(&mut self) -> N {
        let n = if self.r.chance(1, 16) { if self.r.chance(1, 6) { self.r.range(15, 70) } else { self.r.range(4, 14) } } else { self.r.range(1, 3) };
        let mut v: Vec<(char, char)> = vec![];
        for i in 0..n {
            let x = self.ch();
            let y = if self.r.chance(1, 2) { self.ch() } else { x };
            let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
            // `-` stands for itself only at the ends.
            if lo == '-' && hi == '-' { if i == 0 && v.is_empty() || i == n - 1 { v.push((lo, hi)); } continue }
            if lo == '-' || hi == '-' { continue }
            v.push((lo, hi));
        }
        if v.is_empty() { v.push(('a', 'c')); }
        let last = v.len() - 1;
        for i in 0..v.len() { if v[i] == ('-', '-') && i != 0 && i != last { v[i] = ('a', 'a'); } }
        self.node(K::Class(v))
    }
    fn filler(&mut self, d: usize) -> N { if self.r.chance(4, 5) { self.gen(&Ty::Inv, d) } else { self.gen(&Ty::Unit, d) } }

    /// Puts invisible and unit parts around an expression.
    fn dress(&mut self, x: N, d: usize) -> N {
        let ty = x.ty.clone();
        let mut v = vec![x];
        let k = self.r.range(1, 2);
        for _ in 0..k {
            let f = self.filler(d);
            if self.r.chance(1, 2) { v.insert(0, f); } else { v.push(f); }
        }
        if self.r.chance(1, 8) && v[0].size() < 12 { let f = self.attempt(&v); v.insert(0, f); }
        let n = self.node(K::Seq(v));
        if n.ty == ty { n } else { n.into_first(ty) }
    }
    /// Something that goes through the start of what follows first, and stops short of it or goes beyond.
    fn attempt(&mut self, v: &[N]) -> N {
        let n = self.r.range(1, v.len());
        let mut w: Vec<N> = v[..n].to_vec();
        w = w.into_iter().map(|x| self.renumber(x)).collect();
        if self.r.chance(2, 3) { let l = self.some_lit(); w.push(l); }
        let s = if w.len() == 1 { w.pop().unwrap() } else { self.seq(w) };
        match self.r.below(3) {
            0 => self.node(K::Not(Box::new(s))),
            1 => self.node(K::And(Box::new(s))),
            _ => { let o = self.node(K::Opt(Box::new(s))); if o.ty == Ty::Inv { o } else { self.node(K::Asc(Box::new(o), Ty::Inv)) } }
        }
    }
    /// Branches that start or end with the same expression.
    fn family(&mut self, t: &Ty, n: usize, d: usize) -> Vec<N> {
        let c = self.callable(t);
        let base = if !c.is_empty() && self.r.chance(2, 3) { let i = *self.r.pick(&c); self.rule(i) } else { self.gen(t, d) };
        let all = self.r.chance(1, 2);
        (0..n).map(|i| {
            if i > 0 && !all && self.r.chance(1, 3) { return self.gen(t, d) }
            let x = if i == 0 { base.clone() } else { self.renumber(base.clone()) };
            if i + 1 == n && self.r.chance(1, 3) { return x }
            let f = if self.r.chance(3, 4) { self.some_lit() } else { self.filler_inv(d) };
            let mut v = vec![x];
            if self.r.chance(5, 6) { v.push(f); } else { v.insert(0, f); }
            if self.r.chance(1, 4) { let f = self.filler_inv(d); v.push(f); }
            self.seq(v)
        }).collect()
    }
    fn callable(&mut self, t: &Ty) -> Vec<usize> {
        // Calls go to later rules, and back to earlier ones through types that do not mention the recursion.
        let (cur, ill) = (self.cur, self.ill);
        (0..self.tys.len()).filter(|i| &self.tys[*i] == t && (*i > cur || matches!(t, Ty::Tok | Ty::BTok | Ty::Inv | Ty::Unit) || ill)).collect()
    }
    /// The type of a rule of another grammar, as one opaque component.
    fn foreign_ty(&mut self) -> Option<Ty> {
        let g = *self.r.pick(&self.ext.clone());
        let gr = &self.w[&g];
        let nb = refi::nullables(gr);
        let c: Vec<Ty> = gr.rules.iter().enumerate().filter(|(i, r)| !nb[*i] && !r.ty.unitish() && ty_size(&r.ty) <= 12).map(|(_, r)| match &r.ty { t @ (Ty::Tok | Ty::BTok) => t.clone(), t => Ty::Opq(Box::new(t.clone())) }).collect();
        if c.is_empty() { return None }
        Some(self.r.pick(&c).clone())
    }
    fn ext_call(&mut self, t: &Ty) -> Option<N> {
        if self.ext.is_empty() { return None }
        let mut c = vec![];
        for g in &self.ext {
            let gr = &self.w[g];
            let nb = refi::nullables(gr);
            for (i, r) in gr.rules.iter().enumerate() {
                let ok = match t { Ty::Inv | Ty::Unit => true, Ty::Tok | Ty::BTok => &r.ty == t, Ty::Opq(x) => **x == r.ty, _ => false };
                // The analysis of the macro takes it for granted that external rules consume something.
                if ok && !nb[i] { c.push((*g, i)); }
            }
        }
        if c.is_empty() { return None }
        let (g, i) = *self.r.pick(&c);
        Some(N { k: K::Ext(g, i), ty: t.clone() })
    }

    fn not(&mut self, x: N) -> N { self.node(K::Not(Box::new(x))) }
    fn seq(&mut self, v: Vec<N>) -> N { self.node(K::Seq(v)) }
    fn some_lit(&mut self) -> N { loop { let x = self.lit(); if let K::Lit(s) = &x.k { if !s.is_empty() { return x } } } }
    /// Shapes that grammars of real languages are made of.
    fn shape(&mut self, t: &Ty, d: usize) -> Option<N> {
        match t {
            Ty::Inv => Some(match self.r.below(5) {
                // A keyword that is not the start of a longer word.
                0 => { let l = self.some_lit(); let c = self.class(); let n = self.not(c); self.seq(vec![l, n]) }
                // White space.
                1 => { let c = self.class(); let c = self.node(K::Asc(Box::new(c), Ty::Inv)); self.node(K::Star(Box::new(c))) }
                // A comment, or something else with an end of its own.
                2 => {
                    let (o, c) = (self.some_lit(), self.some_lit());
                    let n = self.not(c.clone());
                    let a = self.node(K::Any);
                    let s = self.seq(vec![n, a]);
                    let s = self.node(K::Asc(Box::new(s), Ty::Inv));
                    let s = self.node(K::Star(Box::new(s)));
                    self.seq(vec![o, s, c])
                }
                // Balanced brackets.
                3 => {
                    let (o, c) = (self.some_lit(), self.some_lit());
                    let cs = self.callable(&Ty::Inv);
                    if cs.is_empty() { return None }
                    let i = *self.r.pick(&cs);
                    let r = self.rule(i);
                    let r = if self.r.chance(1, 2) { self.node(K::Opt(Box::new(r))) } else { r };
                    self.seq(vec![o, r, c])
                }
                // The end of the input.
                _ => { let a = self.node(K::Any); self.not(a) }
            }),
            Ty::List(e) if **e == Ty::Char => {
                let c = if self.r.chance(1, 2) { self.some_lit() } else { let x = self.class(); self.node(K::Asc(Box::new(x), Ty::Inv)) };
                let n = self.not(c.clone());
                let x = if self.r.chance(2, 3) { self.node(K::Any) } else { self.class() };
                let s = self.seq(vec![n, x]);
                let s = if self.r.chance(1, 2) { self.node(K::Star(Box::new(s))) } else { self.node(K::Plus(Box::new(s))) };
                if self.r.chance(1, 2) { let o = self.some_lit(); Some(self.seq(vec![o, s, c])) } else { Some(s) }
            }
            Ty::Tok | Ty::BTok => {
                let b = *t == Ty::BTok;
                self.acts += 1;
                let id = self.acts;
                let x = match self.r.below(4) {
                    // Separated lists.
                    0 | 1 => {
                        let e = self.elem_ty(1);
                        let e = if e.unitish() { Ty::Char } else { e };
                        let x = self.gen(&e, d - 1);
                        let y = if self.r.chance(1, 2) { x.clone() } else { self.gen(&e, d - 1) };
                        let y = self.renumber(y);
                        let sep = self.some_lit();
                        let s = self.seq(vec![sep, y]);
                        let s = self.node(K::Star(Box::new(s)));
                        let mut v = vec![x, s];
                        if self.r.chance(1, 4) { let z = self.some_lit(); v.push(self.node(K::Opt(Box::new(z)))); }
                        self.seq(v)
                    }
                    // Chains of operators: which operator, and its right side.
                    2 => {
                        let e = if self.r.chance(1, 2) { Ty::Tok } else { Ty::Char };
                        let x = self.gen(&e, d - 1);
                        let k = self.r.range(1, 3);
                        let mut ops = vec![];
                        for _ in 0..k { self.acts += 1; let i = self.acts; let l = self.some_lit(); let k = if self.r.chance(1, 2) { AK::Var } else { AK::In }; ops.push(self.node(K::Act(Box::new(l), i, k, false))); }
                        let op = if k == 1 { ops.pop().unwrap() } else { self.node(K::Alt(ops)) };
                        let y = self.gen(&e, d - 1);
                        let s = self.seq(vec![op, y]);
                        let s = self.node(K::Star(Box::new(s)));
                        self.seq(vec![x, s])
                    }
                    // Something in brackets, or not.
                    _ => {
                        let cs = self.callable(&Ty::Tok);
                        if cs.is_empty() { return None }
                        let i = *self.r.pick(&cs);
                        let r = self.rule(i);
                        let (o, c) = (self.some_lit(), self.some_lit());
                        self.seq(vec![o, r, c])
                    }
                };
                if x.ty.unitish() { return None }
                let n = self.node(K::Act(Box::new(x), id, AK::In, b));
                Some(n)
            }
            _ => None,
        }
    }
    /// A copy of an expression with actions of its own.
    fn renumber(&mut self, mut n: N) -> N {
        fn go(g: &mut GG, n: &mut N) {
            // One function for both, or another one.
            if let K::Act(_, id, ..) = &mut n.k { if g.r.chance(2, 3) { g.acts += 1; *id = g.acts; } }
            match &mut n.k {
                K::Seq(v) | K::Alt(v) => for x in v { go(g, x) },
                K::Star(x) | K::Plus(x) | K::Opt(x) | K::Not(x) | K::And(x) | K::Act(x, ..) | K::Asc(x, _) | K::Span(x) | K::Rng(x) => go(g, x),
                _ => {}
            }
        }
        go(self, &mut n);
        n
    }

    fn suffix(&mut self, x: N) -> K {
        let x = Box::new(x);
        match self.r.below(3) { 0 => K::Star(x), 1 => K::Plus(x), _ => K::Opt(x) }
    }

    pub fn gen(&mut self, t: &Ty, d: usize) -> N {
        self.budget -= 1;
        let small = d == 0 || self.budget <= 0;
        // Constructs available at every type.
        if !small {
            if d > 1 && self.r.chance(1, if self.real { 3 } else { 10 }) { if let Some(n) = self.shape(t, d) { return n } }
            if self.r.chance(1, 5) {
                let wide = self.r.chance(1, 70);
                let n = if wide { self.r.range(9, 36) } else if self.r.chance(1, 10) { self.r.range(4, 8) } else { self.r.range(2, 3) };
                let d = if wide { d.min(2) } else { d };
                let v: Vec<N> = if n <= 8 && self.r.chance(1, 3) { self.family(t, n, d - 1) } else { (0..n).map(|_| {
                    if t.unitish() && *t == Ty::Inv && self.r.chance(1, 6) { self.gen(&Ty::Unit, d - 1) } else { self.gen(t, d - 1) }
                }).collect() };
                if v.iter().all(|x| x.ty == v[0].ty) && v[0].ty == *t || *t == Ty::Inv { return self.inv_if(K::Alt(v), t) }
                return v.into_iter().next().unwrap()
            }
            if !t.unitish() && self.r.chance(1, 4) { let x = self.gen(t, d - 1); return self.dress(x, d - 1) }
            let c = self.callable(t);
            if !c.is_empty() && self.r.chance(1, 3) { let i = *self.r.pick(&c); return self.rule(i) }
            if self.r.chance(1, 4) { if let Some(n) = self.ext_call(t) { return n } }
        }
        match t {
            Ty::Inv => {
                if small { return self.lit() }
                match self.r.below(13) {
                    0..=4 => self.lit(),
                    // Branches that may match nothing, or do so always.
                    12 => {
                        let n = self.r.range(1, 2);
                        let mut v: Vec<N> = (0..n).map(|_| self.gen(&Ty::Inv, d - 1)).collect();
                        let x = void(self, 1, &[]);
                        let x = if self.r.chance(1, 3) { let l = self.some_lit(); self.seq(vec![x, l]) } else { x };
                        let at = if self.r.chance(3, 4) { n } else { self.r.below(n + 1) };
                        v.insert(at, x);
                        let x = self.node(K::Alt(v));
                        if self.r.chance(1, 2) { self.node(K::Opt(Box::new(x))) } else { let l = self.some_lit(); self.seq(vec![x, l]) }
                    }
                    5 | 6 => { let ty = self.rand_ty(d - 1); let x = self.gen(&ty, d - 1); let k = if self.r.chance(1, 2) { K::Not(Box::new(x)) } else { K::And(Box::new(x)) }; self.node(k) }
                    7 | 8 => { let n = self.r.range(2, 3); let v = (0..n).map(|_| self.gen(&Ty::Inv, d - 1)).collect(); self.node(K::Seq(v)) }
                    9 => { let x = self.gen(&Ty::Inv, d - 1); let k = self.suffix(x); self.node(k) }
                    _ => { let ty = self.rand_ty(d - 1); let x = self.gen(&ty, d - 1); self.node(K::Asc(Box::new(x), Ty::Inv)) }
                }
            }
            Ty::Unit => {
                if small { let x = if self.r.chance(1, 2) { self.class() } else { self.lit() }; return self.node(K::Asc(Box::new(x), Ty::Unit)) }
                match self.r.below(3) {
                    0 => {
                        let n = self.r.range(1, 2);
                        let mut v: Vec<N> = (0..n).map(|_| self.gen(&Ty::Unit, d - 1)).collect();
                        v.insert(self.r.below(n + 1), self.filler_inv(d - 1));
                        self.node(K::Seq(v))
                    }
                    _ => { let ty = self.rand_ty(d - 1); let x = self.gen(&ty, d - 1); self.node(K::Asc(Box::new(x), Ty::Unit)) }
                }
            }
            Ty::Char => if self.r.chance(1, 4) { self.node(K::Any) } else { self.class() },
            Ty::List(e) => {
                let x = self.gen(e, d.saturating_sub(1));
                let k = if self.r.chance(1, 2) { K::Star(Box::new(x)) } else { K::Plus(Box::new(x)) };
                self.node(k)
            }
            Ty::Opt(e) => { let x = self.gen(e, d.saturating_sub(1)); self.node(K::Opt(Box::new(x))) }
            Ty::Tup(v) => {
                if v[0] == Ty::Span && self.r.chance(3, 4) {
                    let rest = tup_ty(v[1..].to_vec());
                    let x = self.gen(&rest, d.saturating_sub(1));
                    if x.ty == rest { return self.node(K::Span(Box::new(x))) }
                }
                let mut parts = vec![];
                let mut i = 0;
                while i < v.len() {
                    let n = if !small && v.len() > 2 && self.r.chance(1, 4) { self.r.range(2, (v.len() - i).max(2)).min(v.len() - i) } else { 1 };
                    let n = if n == v.len() { 1 } else { n };
                    let ty = tup_ty(v[i..i + n].to_vec());
                    let x = self.gen(&ty, d.saturating_sub(1));
                    parts.push(x);
                    i += n;
                    if !small && self.r.chance(1, 3) { let f = self.filler(d - 1); parts.push(f); }
                }
                if !small && self.r.chance(1, 6) { let f = self.filler(d - 1); parts.insert(0, f); }
                self.node(K::Seq(parts))
            }
            Ty::Tok | Ty::BTok => {
                self.acts += 1;
                let id = self.acts;
                let b = *t == Ty::BTok;
                if self.r.chance(1, 10) {
                    let ut = if self.r.chance(1, 2) { Ty::Inv } else { Ty::Unit };
                    let x = self.gen(&ut, d.saturating_sub(1));
                    if x.ty.unitish() { return self.node(K::Act(Box::new(x), id, AK::Var, b)) }
                }
                let ty = if small { Ty::Char } else { self.rand_ty(d - 1) };
                let x = self.gen(&ty, d.saturating_sub(1));
                let k = if self.r.chance(1, 8) { AK::Out } else { AK::In };
                let n = self.node(K::Act(Box::new(x), id, k, b));
                if k == AK::In && self.r.chance(1, 12) { let ty = n.ty.clone(); return self.node(K::Asc(Box::new(n), ty)) }
                n
            }
            Ty::Span => { let ut = if self.r.chance(2, 3) { Ty::Inv } else { Ty::Unit }; let x = self.gen(&ut, d.saturating_sub(1)); self.node(K::Span(Box::new(x))) }
            Ty::Range => {
                let ty = if small { Ty::Char } else { self.rand_ty(d - 1) };
                let x = self.gen(&ty, d.saturating_sub(1));
                self.node(K::Rng(Box::new(x)))
            }
            Ty::Opq(_) => self.ext_call(t).expect("a rule of this type"),
        }
    }
    fn filler_inv(&mut self, d: usize) -> N { self.gen(&Ty::Inv, d) }
    fn inv_if(&mut self, k: K, t: &Ty) -> N {
        let n = self.node(k);
        if n.ty == *t { n } else { self.node(K::Asc(Box::new(n), t.clone())) }
    }
}

impl N {
    /// Only reached when dressing changed the type (it cannot for non-unit types).
    fn into_first(self, ty: Ty) -> N { match self.k { K::Seq(v) => v.into_iter().find(|x| x.ty == ty).unwrap(), _ => self } }
}

/// A normal form the concrete syntax can express: no ascription directly on an ascription, no one-element sequence or choice.
fn fix(n: &mut N) {
    match &mut n.k {
        K::Seq(v) | K::Alt(v) => { for x in v.iter_mut() { fix(x); } if v.len() == 1 { let x = v.pop().unwrap(); *n = x; } }
        K::Star(x) | K::Plus(x) | K::Opt(x) | K::Not(x) | K::And(x) | K::Act(x, ..) | K::Asc(x, _) | K::Span(x) | K::Rng(x) => fix(x),
        _ => {}
    }
}

/// What the macro's analysis works out for an expression: (may fail, may succeed, always consumes, never consumes).
type W = (bool, bool, bool, bool);
const W0: W = (true, true, true, false);

/// `ok` becomes false where the macro refuses the expression because it never succeeds, always succeeds in vain, or hides a branch.
fn wfa(n: &N, rules: &[W], ok: &mut bool) -> W {
    let w = match &n.k {
        K::Lit(s) => if s.is_empty() { (false, true, false, false) } else { W0 },
        K::Any | K::Class(_) | K::Ext(..) => W0,
        K::Rule(i) => rules[*i],
        K::Seq(v) => {
            let mut w = (false, true, false, true);
            for x in v { let c = wfa(x, rules, ok); w = (w.0 | c.0, w.1 & c.1, w.2 | c.2, w.3 & c.3); }
            w
        }
        K::Alt(v) => {
            let mut w = (true, false, true, true);
            for (i, x) in v.iter().enumerate() {
                let c = wfa(x, rules, ok);
                w = (w.0 & c.0, w.1 | c.1, w.2 & c.2, w.3 & c.3);
                if i + 1 < v.len() && !c.0 { *ok = false; }
            }
            w
        }
        K::Star(x) | K::Opt(x) => { let c = wfa(x, rules, ok); (false, true, false, c.3) }
        K::And(x) => { let c = wfa(x, rules, ok); (c.0, c.1, false, true) }
        K::Not(x) => { let c = wfa(x, rules, ok); (c.1, c.0, false, true) }
        K::Plus(x) | K::Act(x, ..) | K::Asc(x, _) | K::Span(x) | K::Rng(x) => wfa(x, rules, ok),
    };
    if w.0 && !w.1 || w.1 && !w.0 && w.3 { *ok = false; }
    w
}

/// Type ascriptions apply to everything below them down to the next action. `known`: the type of the expression is worked out
/// by then (not so below predicates, and below ascriptions where values are not wanted, `void`).
fn asc_ok(n: &N, under: Option<&Ty>, known: bool, void: bool) -> bool {
    let void = void || known && n.ty.unitish() && under.is_none();
    match &n.k {
        K::Asc(x, t) => {
            let void = void || t.unitish() && under.is_none();
            under.map_or(true, |u| u == t) && !matches!(x.k, K::Asc(..) | K::Ext(..) | K::Act(_, _, AK::Out, _) | K::Act(_, _, AK::Var, _)) && asc_ok(x, Some(t), !void, void)
        }
        K::Act(x, _, AK::In, _) => asc_ok(x, None, true, void),
        K::Act(x, ..) => under.map_or(true, |u| *u == n.ty) && asc_ok(x, None, true, void),
        K::Ext(..) => under.map_or(true, |u| *u == n.ty),
        K::Seq(v) => v.iter().all(|x| asc_ok(x, if known && x.ty.unitish() { None } else { under }, known, void)),
        // `... e` is read as `... (e:())`.
        K::Rng(x) => under.map_or(true, |u| *u == Ty::Unit) && asc_ok(x, Some(&Ty::Unit), false, true),
        K::Not(x) | K::And(x) => asc_ok(x, under, false, void),
        _ => n.kids().into_iter().all(|x| asc_ok(x, under, known, void)),
    }
}

/// What the macro works out as the type of an expression: a type, or the cycles of rules it depends on, each with whether there
/// is more than unit types on it.
#[derive(Clone, PartialEq)]
enum It { Rec(Vec<(bool, Vec<usize>)>), Ty(Ty) }

struct Typing<'a> { rules: &'a [Rule], memo: Vec<Option<It>>, path: Vec<usize>, bad: bool }

impl<'a> Typing<'a> {
    fn union(set: &mut Vec<(bool, Vec<usize>)>, more: Vec<(bool, Vec<usize>)>) { for x in more { if !set.contains(&x) { set.push(x); } } }
    fn poly(set: Vec<(bool, Vec<usize>)>) -> It { It::Rec(set.into_iter().map(|(_, p)| (true, p)).collect()) }
    fn reduce(&self, t: &It) -> Option<It> {
        match t {
            It::Rec(r) => {
                if !r.iter().any(|x| x.0) { for (_, p) in r { for i in p { match &self.memo[*i] { Some(It::Rec(_)) => {} t => return t.clone() } } } }
                Some(It::Ty(Ty::Inv))
            }
            t => Some(t.clone()),
        }
    }
    fn rule(&mut self, i: usize) -> It {
        if let Some(t) = &self.memo[i] { return t.clone() }
        if self.path.contains(&i) {
            let mut p = vec![i];
            p.extend(self.path.iter().rev().take_while(|j| **j != i));
            return It::Rec(vec![(false, p)])
        }
        self.path.push(i);
        let rules = self.rules;
        let t = match &rules[i].asc { Some(t) => It::Ty(t.clone()), None => self.node(&rules[i].body) };
        self.path.pop();
        self.memo[i] = Some(t.clone());
        if let It::Rec(r) = &t { if r[0].1[0] == i { match self.reduce(&t) { Some(u) => { self.memo[i] = Some(u.clone()); return u } None => { self.bad = true; } } } }
        t
    }
    fn node(&mut self, n: &N) -> It {
        match &n.k {
            K::Rule(i) => self.rule(*i),
            K::Star(x) | K::Plus(x) | K::Opt(x) => match self.node(x) { It::Rec(r) => Self::poly(r), _ => It::Ty(n.ty.clone()) },
            K::Span(x) => match self.node(x) { It::Rec(r) => Self::poly(r), _ => It::Ty(n.ty.clone()) },
            K::Seq(v) => {
                let mut set = vec![];
                let mut poly = false;
                for x in v { match self.node(x) { It::Rec(r) => Self::union(&mut set, r), It::Ty(t) => poly |= !t.unitish() } }
                if set.is_empty() { It::Ty(n.ty.clone()) } else if poly { Self::poly(set) } else { It::Rec(set) }
            }
            K::Alt(v) => {
                let mut set = vec![];
                let mut tys: Vec<Ty> = vec![];
                for x in v { match self.node(x) { It::Rec(r) => Self::union(&mut set, r), It::Ty(t) => if !tys.contains(&t) { tys.push(t) } } }
                if set.iter().any(|x| x.0) || tys.len() > 1 && !tys.iter().all(|t| t.unitish()) { self.bad = true; return It::Ty(Ty::Inv) }
                if tys.is_empty() { It::Rec(set) } else if tys.len() == 1 { It::Ty(tys.pop().unwrap()) } else { It::Ty(Ty::Inv) }
            }
            _ => It::Ty(n.ty.clone()),
        }
    }
}

/// Does the macro work out the types that the rules are meant to have?
fn typed(rules: &[Rule]) -> bool {
    let n = rules.len();
    // Whichever rule it begins with, in either direction: that is how the rules may be written.
    (0..2 * n).all(|k| {
        let mut t = Typing { rules, memo: vec![None; n], path: vec![], bad: false };
        for j in 0..n { t.rule(if k < n { (k + j) % n } else { (k + n - j) % n }); }
        !t.bad && (0..n).all(|i| t.memo[i].as_ref().and_then(|x| t.reduce(x)) == Some(It::Ty(rules[i].ty.clone())))
    })
}

/// Rules the macro refuses for reasons that are of no interest here.
fn refused(rules: &[Rule]) -> Vec<usize> {
    let mut w = vec![W0; rules.len()];
    // Refused for what is known about the rules at first, later on, or in the end.
    let mut fine = vec![true; rules.len()];
    for k in 0..60 + 2 * rules.len() {
        let mut next = w.clone();
        for (i, r) in rules.iter().enumerate() { next[i] = wfa(&r.body, &w, &mut fine[i]); }
        if next == w { break }
        w = next;
        if k == 59 + 2 * rules.len() { return (0..rules.len()).collect() }
    }
    // A recursive type is replaced by the invisible one: only ascription makes a recursive rule a unit one.
    fn calls(n: &N, out: &mut Vec<usize>) {
        match &n.k { K::Rule(i) => out.push(*i), K::Asc(..) | K::Act(..) | K::Not(_) | K::And(_) => {} _ => for x in n.kids() { calls(x, out) } }
    }
    let mut reach: Vec<std::collections::BTreeSet<usize>> = rules.iter().map(|r| { let mut v = vec![]; if r.asc.is_none() { calls(&r.body, &mut v); } v.into_iter().collect() }).collect();
    if !typed(rules) { return (0..rules.len()).collect() }
    loop { let before: usize = reach.iter().map(|x| x.len()).sum(); for i in 0..rules.len() { let add: Vec<usize> = reach[i].iter().flat_map(|j| reach[*j].iter().cloned()).collect(); reach[i].extend(add); } if reach.iter().map(|x| x.len()).sum::<usize>() == before { break } }
    (0..rules.len()).filter(|i| rules[*i].ty != Ty::Inv && reach[*i].contains(i) || !fine[*i] || !asc_ok(&rules[*i].body, rules[*i].asc.as_ref(), rules[*i].asc.as_ref().map_or(true, |t| !t.unitish()), rules[*i].asc.as_ref().map_or(false, |t| t.unitish()))).collect()
}

pub fn alphabet(r: &mut Rng) -> Vec<char> {
    let mut v = vec!['a', 'b'];
    let k = r.range(0, 3);
    for _ in 0..k { v.push(*r.pick(&['c', 'd', 'e'])); }
    if r.chance(2, 3) { let k = r.range(1, 2); for _ in 0..k { let c = if r.chance(1, 5) { *r.pick(EDGE) } else { *r.pick(ODD) }; v.push(c); } }
    v
}

pub fn gram(seed: u64, id: usize, w: &World, ill: bool, focus: &str) -> Gram {
    for attempt in 0.. {
        let mut r = Rng::new(crate::rng::mix(seed, attempt));
        let alpha = alphabet(&mut r);
        let n = r.range(2, 6);
        let ext: Vec<usize> = if !ill && r.chance(1, 2) { w.keys().cloned().filter(|k| *k < id && *k + 6 > id).collect() } else { vec![] };
        let deep = r.chance(1, 4);
        let noact = r.chance(1, 8);
        let big = !ill && r.chance(1, 14);
        let n = if big { r.range(1, 3) } else { n };
        let spans = if focus == "C12" { r.chance(3, 4) } else { r.chance(1, 8) };
        let real = r.chance(1, 4);
        let spoil = ill && r.chance(3, 4);
        let n = if spoil { r.range(1, 3) } else { n };
        // Many small rules.
        let n = if !ill && !big && r.chance(1, 25) { r.range(8, 16) } else { n };
        let mut g = GG { r, w, id, alpha, tys: vec![], cur: 0, acts: 0, budget: 0, ill: ill && !spoil, ext, deep, big, noact, spans, real };
        if !ill && g.r.chance(1, if focus == "C06" || focus == "C12" { 2 } else { 3 }) {
            let mut rules = g.language(focus);
            // Its types are fixed on the way: by actions.
            if rules.iter().any(|r| r.body.ty != r.ty) { panic!("template: {:?}", rules.iter().map(|r| (r.body.ty.clone(), r.ty.clone())).collect::<Vec<_>>()) }
            if refused(&rules).is_empty() && refi::well_formed(&Gram { id, rules: rules.clone() }) {
                // Rules of any kind that use these.
                let more = g.r.below(3);
                let k = rules.len();
                for _ in 0..more { loop { let t = g.rand_ty(2); if ty_size(&t) <= 32 { g.tys.push(t); break } } }
                let mut v = vec![];
                for i in k..k + more { v.push(one_rule(&mut g, i)); }
                let mut all = rules.clone();
                all.extend(v);
                for _ in 0..10 { let b = refused(&all); if b.is_empty() { break } for i in b { if i >= k { all[i] = one_rule(&mut g, i); } } }
                if refused(&all).is_empty() && all.iter().all(|r| r.body.ty == r.ty) && refi::well_formed(&Gram { id, rules: all.clone() }) { rules = all; }
                return Gram { id, rules }
            }
            continue
        }
        for _ in 0..n { loop { let t = g.rand_ty(2); if ty_size(&t) <= 32 { g.tys.push(t); break } } }
        let mut rules: Vec<Rule> = vec![];
        for i in 0..n { let r = one_rule(&mut g, i); rules.push(r); }
        for _ in 0..30 {
            let b = refused(&rules);
            if b.is_empty() { break }
            for i in b { rules[i] = one_rule(&mut g, i); }
        }
        if !refused(&rules).is_empty() { continue }
        let _ = (g.id, g.noact);
        let gr = Gram { id, rules };
        if gr.rules.iter().any(|r| r.body.ty != r.ty) { continue }
        // Recursion through rules whose type is not fixed on the way is refused by the macro: keep calls acyclic there.
        let mut gr = gr;
        if spoil {
            if !refi::well_formed(&gr) { continue }
            match g.r.below(9) { 0 => chain(&mut g, &mut gr, true), 1..=3 => tangle(&mut g, &mut gr, true), _ => spoil_gram(&mut g, &mut gr) }
            if !refused(&gr.rules).is_empty() { continue }
        }
        if !ill && g.r.chance(1, if focus == "C06" { 4 } else { 16 }) { tangle(&mut g, &mut gr, false); if !refused(&gr.rules).is_empty() { continue } }
        else if !ill && g.r.chance(1, if focus == "C06" { 10 } else { 60 }) { chain(&mut g, &mut gr, false); if !refused(&gr.rules).is_empty() { continue } }
        if refi::well_formed(&gr) != ill { return gr }
    }
    unreachable!()
}

/// An invisible expression that consumes when it matches.
fn solid(g: &mut GG) -> N {
    let lit = g.some_lit();
    match g.r.below(6) {
        0 => { let l = g.some_lit(); g.seq(vec![lit, l]) }
        1 => { let c = g.class(); let c = g.node(K::Asc(Box::new(c), Ty::Inv)); let c = if g.r.chance(1, 2) { g.node(K::Opt(Box::new(c))) } else { c }; if g.r.chance(1, 2) { g.seq(vec![lit, c]) } else { g.seq(vec![c, lit]) } }
        2 => { let l = g.some_lit(); g.node(K::Alt(vec![lit, l])) }
        3 => g.node(K::Plus(Box::new(lit))),
        _ => lit,
    }
}

/// An invisible expression that may match without consuming.
fn void(g: &mut GG, d: usize, rules: &[usize]) -> N {
    let k = g.r.below(if d == 0 { 5 } else { 13 });
    match k {
        0 => { let x = solid(g); g.node(K::Opt(Box::new(x))) }
        1 => { let x = if g.r.chance(1, 2) { let x = g.class(); g.node(K::Asc(Box::new(x), Ty::Inv)) } else { solid(g) }; g.node(K::Star(Box::new(x))) }
        2 => g.node(K::Lit(String::new())),
        3 => { let x = if g.r.chance(1, 2) { g.class() } else { solid(g) }; g.node(K::And(Box::new(x))) }
        4 => { let x = solid(g); g.node(K::Not(Box::new(x))) }
        5 => { let v = vec![void(g, d - 1, rules), void(g, d - 1, rules)]; g.node(K::Seq(v)) }
        6 => { let v = vec![solid(g), void(g, d - 1, rules)]; g.node(K::Alt(v)) }
        7 => { let x = void(g, d - 1, rules); let y = g.class(); let y = g.node(K::Asc(Box::new(y), Ty::Inv)); let v = vec![y, x]; g.node(K::Alt(v)) }
        8 => { let x = g.class(); let x = g.node(K::Opt(Box::new(x))); g.node(K::Asc(Box::new(x), Ty::Inv)) }
        9 => { g.acts += 1; let id = g.acts; let x = void(g, d - 1, rules); let x = g.node(K::Act(Box::new(x), id, AK::In, false)); g.node(K::Asc(Box::new(x), Ty::Inv)) }
        10 => { let x = void(g, d - 1, rules); let k = if g.r.chance(1, 2) { K::Span(Box::new(x)) } else { K::Rng(Box::new(x)) }; let x = g.node(k); g.node(K::Asc(Box::new(x), Ty::Inv)) }
        11 => { let x = g.lit(); let x = g.node(K::Not(Box::new(x))); g.node(K::And(Box::new(x))) }
        _ => if rules.is_empty() { g.node(K::Lit(String::new())) } else { let i = *g.r.pick(rules); g.rule(i) },
    }
}

/// Adds rules that call each other in all directions, behind something that consumes; one cycle of calls is not (`bad`).
fn tangle(g: &mut GG, gr: &mut Gram, bad: bool) {
    let first = gr.rules.len();
    let k = g.r.range(2, 5);
    for _ in 0..k { g.tys.push(Ty::Inv); }
    let mut order: Vec<usize> = (0..k).collect();
    for i in (1..k).rev() { let j = g.r.below(i + 1); order.swap(i, j); }
    order.truncate(g.r.range(1, k));
    for j in 0..k {
        let mut v = vec![];
        for _ in 0..g.r.range(if bad { 0 } else { 1 }, 2) {
            let x = solid(g);
            let mut w = vec![x];
            if g.r.chance(1, 4) { let x = void(g, 1, &[]); w.push(x); }
            let c = g.r.below(k);
            let c = g.rule(first + c);
            let c = match g.r.below(8) { 0 => g.node(K::Opt(Box::new(c))), 1 => { let l = g.some_lit(); g.node(K::Alt(vec![c, l])) } _ => c };
            w.push(c);
            if g.r.chance(1, 2) { let l = g.some_lit(); w.push(l); }
            // All of it may be left out, too.
            v.push(g.seq(w));
        }
        if let (true, Some(at)) = (bad, order.iter().position(|x| *x == j)) {
            let mut w = vec![];
            if g.r.chance(1, 3) { let x = void(g, 1, &[]); w.push(x); }
            let c = g.rule(first + order[(at + 1) % order.len()]);
            w.push(c);
            if w.len() == 1 || g.r.chance(1, 2) { let l = g.some_lit(); w.push(l); }
            let x = g.seq(w);
            let i = g.r.below(v.len() + 1);
            v.insert(i, x);
        } else if !bad && g.r.chance(1, 3) && j + 1 < k {
            // Calls of later rules need not be guarded.
            let c = g.rule(first + j + 1);
            let l = g.some_lit();
            let x = g.seq(vec![c, l]);
            v.insert(0, x);
        }
        if v.is_empty() || g.r.chance(5, 6) { let l = g.some_lit(); let i = if g.r.chance(2, 3) { v.len() } else { 0 }; v.insert(i, l); }
        let body = if v.len() == 1 { v.pop().unwrap() } else { g.node(K::Alt(v)) };
        let i = gr.rules.len();
        gr.rules.push(Rule { name: rule_name(gr.id, i), ty: Ty::Inv, asc: None, body });
    }
    for r in gr.rules.iter_mut() { fix(&mut r.body); }
}

/// Adds a long line of rules, each calling the next one, in any order in the grammar. `bad`: it comes back to where it began (or is
/// repeated) without anything consumed on the way; else something is consumed at one place of it.
fn chain(g: &mut GG, gr: &mut Gram, bad: bool) {
    let first = gr.rules.len();
    let k = if g.r.chance(1, 2) { g.r.range(8, 24) } else { g.r.range(30, 90) };
    let mut at: Vec<usize> = (0..k).collect();
    match g.r.below(4) { 0 => {} 1 => at.reverse(), _ => for i in (1..k).rev() { let j = g.r.below(i + 1); at.swap(i, j); } }
    for _ in 0..=k { g.tys.push(Ty::Inv); }
    // Whether it is a cycle, or else ends with what decides.
    let cycle = g.r.chance(2, 3);
    let guard = match g.r.below(3) { 0 => 0, 1 => k - 1, _ => g.r.below(k) };
    let mut bodies: Vec<Option<N>> = vec![None; k];
    for j in 0..k {
        let next = if j + 1 < k { Some(first + at[j + 1]) } else if cycle { Some(first + at[0]) } else { None };
        let body = match next {
            None => if bad { void(g, 1, &[]) } else { solid(g) },
            Some(to) => {
                let mut w = vec![];
                if cycle && !bad && j == guard { let x = solid(g); w.push(x); } else if g.r.chance(1, 12) { let x = void(g, 1, &[]); w.push(x); }
                let c = g.rule(to);
                w.push(c);
                // What follows must not make an end that may be empty consume.
                if (cycle || !bad) && g.r.chance(1, 6) { let l = g.some_lit(); w.push(l); }
                let x = if w.len() == 1 { w.pop().unwrap() } else { g.seq(w) };
                // The way out of a cycle.
                if cycle && (j + 1 == k || g.r.chance(1, 12)) { let l = g.some_lit(); let v = if g.r.chance(1, 2) && !(bad && j + 1 == k) { vec![l, x] } else { vec![x, l] }; g.node(K::Alt(v)) } else { x }
            }
        };
        bodies[at[j]] = Some(body);
    }
    for b in bodies {
        let i = gr.rules.len();
        gr.rules.push(Rule { name: rule_name(gr.id, i), ty: Ty::Inv, asc: None, body: b.unwrap() });
    }
    let start = at[if g.r.chance(1, 2) { 0 } else { g.r.below(k) }];
    let c = g.rule(first + start);
    let body = if cycle { c } else { let c = Box::new(c); let c = if g.r.chance(1, 2) { K::Star(c) } else { K::Plus(c) }; g.node(c) };
    let i = gr.rules.len();
    gr.rules.push(Rule { name: rule_name(gr.id, i), ty: Ty::Inv, asc: None, body });
    for r in gr.rules.iter_mut() { fix(&mut r.body); }
}

/// Adds rules with exactly one flaw: a left recursion or a loop that does not consume.
fn spoil_gram(g: &mut GG, gr: &mut Gram) {
    let base = gr.rules.len();
    let add = |g: &mut GG, gr: &mut Gram, body: N| { let i = gr.rules.len(); g.tys[i] = Ty::Inv; gr.rules.push(Rule { name: rule_name(gr.id, i), ty: Ty::Inv, asc: None, body }); };
    let lit = |g: &mut GG| loop { let x = g.lit(); if let K::Lit(s) = &x.k { if !s.is_empty() { break x } } };
    let opt_lit = |g: &mut GG, k: usize| -> Vec<N> { let mut v = vec![]; if g.r.chance(1, k) { let x = lit(g); v.push(x); } v };
    let k = g.r.range(1, 3);
    for _ in 0..k + 2 { g.tys.push(Ty::Inv); }
    // Something that may be empty, for the flaw to hide behind.
    let hide = if g.r.chance(1, 2) { let x = void(g, 2, &[]); add(g, gr, x); vec![base] } else { vec![] };
    let first = gr.rules.len();
    if g.r.chance(1, 2) {
        // Left recursion through k rules.
        for j in 0..k {
            let to = first + (j + 1) % k;
            let mut v = vec![];
            for _ in 0..g.r.below(3) { let x = void(g, 1, &hide); v.push(x); }
            let c = g.rule(to);
            let c = match g.r.below(9) {
                0 => g.node(K::And(Box::new(c))), 1 => g.node(K::Not(Box::new(c))), 2 => g.node(K::Opt(Box::new(c))), 3 => g.node(K::Plus(Box::new(c))),
                4 => { let x = lit(g); g.node(K::Alt(vec![x, c])) } 5 => { let x = lit(g); g.node(K::Alt(vec![c, x])) }
                6 => g.node(K::Asc(Box::new(c), Ty::Inv)),
                _ => c,
            };
            v.push(c);
            let l = lit(g);
            v.push(l);
            let body = g.node(K::Seq(v));
            let l = lit(g);
            let body = if g.r.chance(2, 3) { if g.r.chance(1, 2) { g.node(K::Alt(vec![body, l])) } else { g.node(K::Alt(vec![l, body])) } } else { body };
            add(g, gr, body);
        }
    } else {
        let x = void(g, 3, &hide);
        let x = if g.r.chance(1, 2) { g.node(K::Star(Box::new(x))) } else { g.node(K::Plus(Box::new(x))) };
        let x = match g.r.below(8) { 0 => g.node(K::And(Box::new(x))), 1 => g.node(K::Not(Box::new(x))), 2 => g.node(K::Opt(Box::new(x))), 3 => g.node(K::Asc(Box::new(x), Ty::Inv)), _ => x };
        let mut v = opt_lit(g, 2);
        v.push(x);
        v.extend(opt_lit(g, 2));
        let mut body = if v.len() == 1 { v.pop().unwrap() } else { g.node(K::Seq(v)) };
        if g.r.chance(1, 3) { let l = lit(g); body = g.node(K::Alt(vec![l, body])); }
        add(g, gr, body);
        // Reached through other rules, or not.
        for _ in 1..k { let i = gr.rules.len() - 1; let l = lit(g); let c = g.rule(i); let body = if g.r.chance(1, 2) { g.node(K::Seq(vec![l, c])) } else { g.node(K::Seq(vec![c, l])) }; add(g, gr, body); }
    }
    for r in gr.rules.iter_mut() { fix(&mut r.body); }
}

/// The most values that a sequence in the expression builds.
fn width(n: &N) -> usize {
    let own = if let Ty::Tup(v) = &n.ty { v.len() } else { 1 };
    n.kids().into_iter().map(width).max().unwrap_or(1).max(own)
}

fn one_rule(g: &mut GG, i: usize) -> Rule {
    g.cur = i;
    g.budget = if g.tys.len() > 12 { 12 } else if g.big { 220 } else if g.deep { 60 } else { 26 };
    let t = g.tys[i].clone();
    let d = if g.big { g.r.range(6, 8) } else { g.r.range(2, if g.deep { 6 } else { 4 }) };
    let mut body = g.gen(&t, d);
    // What is large in both ways expands to more than the compiler can take.
    for _ in 0..20 { if body.size() * width(&body) <= 4000 { break } g.budget = 60; body = g.gen(&t, d); }
    fix(&mut body);
    let mut asc = None;
    if body.ty == t && matches!(t, Ty::Tok | Ty::BTok | Ty::Unit | Ty::Inv) && g.r.chance(1, 6) && !matches!(body.k, K::Asc(..) | K::Ext(..) | K::Act(_, _, AK::Out, _) | K::Act(_, _, AK::Var, _)) { asc = Some(t.clone()); }
    Rule { name: rule_name(g.id, i), ty: t, asc, body }
}

/// The grammar is well-formed but may have typing the macro refuses; see `driver`.
pub fn sample(g: &Gram, w: &World, r: &mut Rng, rule: usize) -> String {
    let mut o = String::new();
    let mut fuel = 120i32;
    derive(g, w, r, &g.rules[rule].body, &mut o, &mut fuel, 0, 0);
    o
}

/// One that recurses and repeats as long as it can.
fn sample_deep(g: &Gram, w: &World, r: &mut Rng, rule: usize, very: bool) -> String {
    let mut o = String::new();
    let mut fuel = if very { *r.pick(&[2000, 4000, 8000, 16000]) } else { 400i32 };
    derive(g, w, r, &g.rules[rule].body, &mut o, &mut fuel, 0, if very { 16_000 } else { 160 });
    o
}
/// A long one: repetitions go on for hundreds of times.
fn sample_long(g: &Gram, w: &World, r: &mut Rng, rule: usize) -> String {
    let mut o = String::new();
    let huge = r.chance(1, 120);
    let mut fuel = if huge { 300_000 } else { *r.pick(&[600i32, 1500, 4000]) };
    let times = if huge { *r.pick(HUGE) } else if r.chance(1, 2) { *r.pick(COUNTS) } else { 0 };
    derive_(g, w, r, &g.rules[rule].body, &mut o, &mut fuel, 0, 0, Some(times));
    o
}
fn calls_rule(n: &N) -> bool { matches!(n.k, K::Rule(_)) || n.kids().into_iter().any(calls_rule) }

fn derive(g: &Gram, w: &World, r: &mut Rng, n: &N, o: &mut String, fuel: &mut i32, depth: usize, deep: usize) { derive_(g, w, r, n, o, fuel, depth, deep, None) }
fn derive_(g: &Gram, w: &World, r: &mut Rng, n: &N, o: &mut String, fuel: &mut i32, depth: usize, deep: usize, long: Option<usize>) {
    macro_rules! derive { ($g:expr, $w:expr, $r:expr, $n:expr, $o:expr, $f:expr, $d:expr, $e:expr) => { derive_($g, $w, $r, $n, $o, $f, $d, $e, long) } }
    *fuel -= 1;
    if *fuel < 0 || depth > deep.max(40) { return }
    match &n.k {
        K::Lit(s) => o.push_str(s),
        K::Any => { let c = any_char(g, r); o.push(c) }
        K::Class(v) => { let (lo, hi) = *r.pick(v); o.push(in_range(lo, hi, r)) }
        K::Seq(v) => for x in v { derive!(g, w, r, x, o, fuel, depth + 1, deep) },
        K::Alt(v) => {
            // Short of fuel: the last branch is as good as any; otherwise uniformly.
            let x = if deep > 0 && *fuel > 60 && v.iter().any(calls_rule) { let c: Vec<&N> = v.iter().filter(|x| calls_rule(x)).collect(); *r.pick(&c) } else if *fuel < 20 { v.iter().min_by_key(|x| x.size()).unwrap() } else { r.pick(v) };
            derive!(g, w, r, x, o, fuel, depth + 1, deep)
        }
        K::Star(x) | K::Plus(x) => {
            let lo = matches!(n.k, K::Plus(_)) as usize;
            let k = match r.below(10) { 0..=2 => lo, 3..=5 => 1, 6 | 7 => 2, 8 => 3, _ => r.range(lo, 9) };
            let k = match long { Some(t) if r.chance(1, 2) => if t == 0 { r.range(20, 1200) } else { t }, _ => k };
            for _ in 0..k { derive!(g, w, r, x, o, fuel, depth + 1, deep) }
        }
        K::Opt(x) => if r.chance(1, 2) || deep > 0 && *fuel > 60 && calls_rule(x) { derive!(g, w, r, x, o, fuel, depth + 1, deep) },
        K::Not(_) => {}
        K::And(x) => if r.chance(1, 8) { derive!(g, w, r, x, o, fuel, depth + 1, deep) },
        K::Rule(i) => derive!(g, w, r, &g.rules[*i].body, o, fuel, depth + 1, deep),
        K::Ext(gi, i) => { let h = &w[gi]; derive!(h, w, r, &h.rules[*i].body, o, fuel, depth + 1, deep) }
        K::Act(x, ..) | K::Asc(x, _) | K::Span(x) | K::Rng(x) => derive!(g, w, r, x, o, fuel, depth + 1, deep),
    }
}

fn in_range(lo: char, hi: char, r: &mut Rng) -> char {
    match r.below(4) { 0 => lo, 1 => hi, _ => char::from_u32(r.range(lo as usize, hi as usize) as u32).unwrap_or(lo) }
}

pub fn chars_of(g: &Gram) -> Vec<char> {
    let mut v = vec![];
    for r in &g.rules {
        r.body.walk(&mut |n| match &n.k { K::Lit(s) => v.extend(s.chars()), K::Class(c) => for (x, y) in c { v.push(*x); v.push(*y); }, _ => {} });
    }
    v.sort(); v.dedup();
    if v.is_empty() { v.push('a'); }
    v
}

fn any_char(g: &Gram, r: &mut Rng) -> char { if r.chance(1, 6) { if r.chance(1, 3) { *r.pick(EDGE) } else { *r.pick(ODD) } } else { let v = chars_of(g); *r.pick(&v) } }

/// One that a careless comparison takes for `c`.
fn neighbour(c: char, r: &mut Rng) -> char {
    let x = c as u32;
    let y = match r.below(8) { 0 => x.wrapping_add(1), 1 => x.wrapping_sub(1), 2 => x ^ 0x20, 3 => x + 0x100, 4 => x + 0x10000, 5 => x & 0xff, 6 => x & 0xffff, _ => x ^ 0x80 };
    char::from_u32(y).unwrap_or(c)
}

/// An input: derived from the rule, then changed or not.
pub fn input(g: &Gram, w: &World, r: &mut Rng, rule: usize, deep: bool) -> String {
    let deep = r.chance(1, if deep { 3 } else { 16 });
    let long = !deep && r.chance(1, 60);
    // Mostly a hundred calls deep, sometimes thousands.
    let very = deep && r.chance(1, 10);
    let mut cs: Vec<char> = match r.below(12) {
        0 => { let al = chars_of(g); (0..r.range(0, 8)).map(|_| *r.pick(&al)).collect() }
        1 => { let x = r.below(g.rules.len()); sample(g, w, r, x).chars().collect() }
        2..=11 if long => sample_long(g, w, r, rule).chars().collect(),
        _ => if deep { sample_deep(g, w, r, rule, very).chars().collect() } else { sample(g, w, r, rule).chars().collect() },
    };
    let cap = if very { 6000 } else if deep { 160 } else if long { 70_000 } else { 80 };
    if cs.len() > cap { cs.truncate(cap); }
    match r.below(8) {
        0..=2 => {}
        3 => { let k = r.below(cs.len() + 1); cs.truncate(k); }
        4 => { let k = r.range(1, 4); for _ in 0..k { let c = any_char(g, r); cs.push(c); } }
        _ => {
            let k = r.range(1, 3);
            for _ in 0..k {
                let c = any_char(g, r);
                // Ends are more interesting than the middle of a long one.
                let i = if cs.len() > 100 && r.chance(1, 2) { cs.len() - r.below(4) } else { r.below(cs.len() + 1) };
                match r.below(5) {
                    4 => { if i < cs.len() { cs[i] = neighbour(cs[i], r); } }
                    0 => cs.insert(i, c),
                    1 => { if i < cs.len() { cs[i] = c; } }
                    2 => { if i < cs.len() { cs.remove(i); } }
                    _ => { if i + 1 < cs.len() { cs.swap(i, i + 1); } }
                }
            }
        }
    }
    cs.into_iter().collect()
}
