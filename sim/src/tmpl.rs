//! Grammars in the manner of those that people write: expressions, data, statements, patterns, tables, nested spans.
use super::*;

const TOKS: &[&str] = &["=", "==", "=>", "+", "++", "+=", "-", "->", "*", "**", "<", "<=", "<<", ".", "..", "&", "&&", "|", ":", "::", "!", "!=", "%", "→", "é", "⊕"];
const WORDS: &[&str] = &["if", "in", "int", "let", "lets", "else", "elif", "do", "done", "end", "fn", "for", "true", "t", "été", "über"];
const PAIRS: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("begin", "end"), ("«", "»"), ("'", "'"), ("{%", "%}")];

impl<'w> GG<'w> {
    fn b(&mut self, x: N, k: fn(Box<N>) -> K) -> N { self.node(k(Box::new(x))) }
    fn star(&mut self, x: N) -> N { self.b(x, K::Star) }
    fn plus(&mut self, x: N) -> N { self.b(x, K::Plus) }
    fn opt(&mut self, x: N) -> N { self.b(x, K::Opt) }
    fn many(&mut self, x: N) -> N { if self.r.chance(1, 2) { self.star(x) } else { self.plus(x) } }
    fn spanned(&mut self, x: N) -> N { self.b(x, K::Span) }
    fn inv(&mut self, x: N) -> N { if x.ty == Ty::Inv { x } else { self.node(K::Asc(Box::new(x), Ty::Inv)) } }
    fn l(&mut self, s: &str) -> N { self.node(K::Lit(s.to_string())) }
    fn any(&mut self) -> N { self.node(K::Any) }
    fn cls(&mut self, s: &[(char, char)]) -> N { self.node(K::Class(s.to_vec())) }
    fn alt(&mut self, mut v: Vec<N>) -> N { if v.len() == 1 { v.pop().unwrap() } else { self.node(K::Alt(v)) } }
    fn tok(&mut self) -> N { let s = *self.r.pick(TOKS); self.l(s) }
    fn pair(&mut self) -> (N, N) { let (o, c) = *self.r.pick(PAIRS); (self.l(o), self.l(c)) }
    fn letter(&mut self) -> N { match self.r.below(3) { 0 => self.cls(&[('a', 'z')]), 1 => self.cls(&[('a', 'f'), ('x', 'z'), ('_', '_')]), _ => self.cls(&[('a', 'z'), ('à', 'ö')]) } }
    fn digit(&mut self) -> N { if self.r.chance(3, 4) { self.cls(&[('0', '9')]) } else { self.cls(&[('0', '3'), ('5', '5')]) } }
    /// `x > f`; the function is a new one, or `box`ed, or a path.
    fn act(&mut self, x: N) -> N {
        self.acts += 1;
        let id = self.acts;
        let k = if x.ty.unitish() && self.r.chance(1, 3) { AK::Var } else if self.r.chance(1, 10) { AK::Out } else { AK::In };
        self.node(K::Act(Box::new(x), id, k, false))
    }
    fn spaced(&mut self, x: N, sp: Option<usize>) -> N { match sp { None => x, Some(i) => { let s = self.rule(i); self.seq(vec![x, s]) } } }
    fn word(&mut self, sp: Option<usize>) -> N {
        let s = *self.r.pick(WORDS);
        let x = self.l(s);
        let x = if self.r.chance(1, 2) { let c = self.letter(); let n = self.not(c); self.seq(vec![x, n]) } else { x };
        self.spaced(x, sp)
    }
    fn list_of(&mut self, x: N, sep: N) -> N {
        let y = self.renumber(x.clone());
        let s = self.seq(vec![sep.clone(), y]);
        let s = self.star(s);
        let mut v = vec![x, s];
        if self.r.chance(1, 4) { v.push(self.b(sep, K::Opt)); }
        self.seq(v)
    }
    /// Possibly within a span.
    fn maybe_span(&mut self, x: N) -> N { if self.r.chance(if self.spans { 3 } else { 1 }, 5) { self.spanned(x) } else { x } }
    fn shuffled(&mut self, mut v: Vec<N>) -> Vec<N> { if self.r.chance(1, 2) { let n = v.len(); for i in (1..n).rev() { let j = self.r.below(i + 1); v.swap(i, j); } } v }

    /// The types and the bodies of the rules of a grammar.
    pub fn language(&mut self, focus: &str) -> Vec<Rule> {
        let k = match focus { "C12" => *self.r.pick(&[3, 3, 4, 7, 0, 2]), "C06" => *self.r.pick(&[3, 3, 0, 1, 2, 5]), _ => self.r.below(9) };
        let chars = Ty::List(Box::new(Ty::Char));
        let spaced = self.r.chance(1, 2);
        match k {
            // Operators of several levels, and brackets.
            0 => {
                let levels = self.r.range(1, 3);
                let prim = levels;
                let (id, sp_i) = (levels + 1, levels + 2);
                self.tys = vec![Ty::Tok; levels + 1];
                self.tys.push(chars);
                self.tys.push(Ty::Inv);
                let sp = if spaced { Some(sp_i) } else { None };
                let mut out = vec![];
                for i in 0..levels {
                    self.cur = i;
                    let x = self.rule(i + 1);
                    let n = self.r.range(1, 3);
                    let mut ops = vec![];
                    for _ in 0..n { let t = self.tok(); let t = self.spaced(t, sp); ops.push(self.act(t)); }
                    let op = self.alt(ops);
                    let body = match self.r.below(4) {
                        // a (op a)*
                        0 | 1 => { let y = self.rule(i + 1); let s = self.seq(vec![op, y]); let s = self.star(s); let s = self.seq(vec![x, s]); let s = self.maybe_span(s); self.act(s) }
                        // a (op r)?
                        2 => { let y = self.rule(i); let s = self.seq(vec![op, y]); let s = self.opt(s); let s = self.seq(vec![x, s]); let s = self.maybe_span(s); self.act(s) }
                        // a op r > f / a
                        _ => { let y = self.rule(i); let z = x.clone(); let s = self.seq(vec![x, op, y]); let s = self.maybe_span(s); let s = self.act(s); self.alt(vec![s, z]) }
                    };
                    out.push(body);
                }
                self.cur = prim;
                let mut v = vec![];
                let d = self.digit(); let d = self.plus(d); let d = self.spaced(d, sp); let d = self.maybe_span(d); v.push(self.act(d));
                let (o, c) = self.pair(); let e = self.rule(0);
                let o = self.spaced(o, sp); let c = self.spaced(c, sp);
                let x = self.seq(vec![o, e, c]); let x = if self.r.chance(1, 2) { self.act(x) } else { x }; v.push(x);
                if self.r.chance(1, 2) { let t = self.tok(); let p = self.rule(prim); let x = self.seq(vec![t, p]); v.push(self.act(x)); }
                if self.r.chance(2, 3) {
                    let f = self.rule(id); let (o, c) = self.pair(); let e = self.rule(0); let sep = self.l(","); let a = self.list_of(e, sep); let a = self.opt(a);
                    let x = self.seq(vec![f, o, a, c]); v.push(self.act(x));
                }
                let x = self.rule(id); v.push(self.act(x));
                let v = self.shuffled(v);
                let b = self.alt(v);
                out.push(b);
                let l = self.letter(); let l = self.plus(l); let l = self.spaced(l, sp); out.push(l);
                let c = self.cls(&[(' ', ' '), ('\n', '\n')]); let c = self.inv(c); out.push(self.b(c, K::Star));
                self.rules_of(out)
            }
            // Nested data with strings, numbers and constants.
            1 => {
                self.tys = vec![Ty::Tok, Ty::Tup(vec![chars.clone(), Ty::Tok]), chars.clone(), Ty::Inv, Ty::Tok];
                let sp = if spaced { Some(3) } else { None };
                let mut out = vec![];
                let mut v = vec![];
                let (o, c) = self.pair(); let p = self.rule(1); let sep = self.l(","); let sep = self.spaced(sep, sp); let x = self.list_of(p, sep.clone()); let x = self.opt(x);
                let o = self.spaced(o, sp); let c = self.spaced(c, sp); let x = self.seq(vec![o, x, c]); let x = self.maybe_span(x); v.push(self.act(x));
                let (o, c) = self.pair(); let e = self.rule(0); let x = self.list_of(e, sep); let x = self.opt(x); let o = self.spaced(o, sp); let c = self.spaced(c, sp); let x = self.seq(vec![o, x, c]); v.push(self.act(x));
                let x = self.rule(2); v.push(self.act(x));
                v.push(self.rule(4));
                for _ in 0..self.r.range(1, 3) { let w = self.word(sp); v.push(self.act(w)); }
                let v = self.shuffled(v);
                let b = self.alt(v); out.push(b);
                let k = self.rule(2); let c = self.l(":"); let e = self.rule(0); let c = self.spaced(c, sp); out.push(self.seq(vec![k, c, e]));
                // A string with escapes.
                let q = *self.r.pick(&["\"", "'", "«"]);
                let q2 = if q == "«" { "»" } else { q };
                let (o, c) = (self.l(q), self.l(q2));
                let esc = self.l("\\"); let a = self.any(); let e = self.seq(vec![esc, a]);
                let n = self.not(c.clone()); let a = self.any(); let p = self.seq(vec![n, a]);
                let x = if self.r.chance(2, 3) { self.alt(vec![e, p]) } else { p };
                let x = self.star(x); let x = self.seq(vec![o, x, c]); let x = self.spaced(x, sp); out.push(x);
                let c = self.cls(&[(' ', ' '), ('\t', '\n')]); let c = self.inv(c); out.push(self.b(c, K::Star));
                // A number: -? digits ("." digits)? (e [+-]? digits)?
                let m = self.l("-"); let m = if self.r.chance(1, 2) { let m = self.act(m); self.opt(m) } else { self.opt(m) };
                let d = self.digit(); let d = self.plus(d);
                let p = self.l("."); let d2 = self.digit(); let d2 = self.plus(d2); let fr = self.seq(vec![p, d2]); let fr = self.opt(fr);
                let e = self.cls(&[('e', 'e'), ('E', 'E')]); let s = self.cls(&[('+', '+'), ('~', '~')]); let s = self.opt(s); let d3 = self.digit(); let d3 = self.plus(d3);
                let ex = self.seq(vec![e, s, d3]); let ex = self.opt(ex);
                let x = self.seq(vec![m, d, fr, ex]); let x = self.spaced(x, sp); let x = self.maybe_span(x); out.push(self.act(x));
                self.rules_of(out)
            }
            // Statements.
            2 => {
                let whole = self.r.chance(1, 2);
                self.tys = vec![if whole { Ty::List(Box::new(Ty::Tok)) } else { Ty::Tok }, Ty::Tok, Ty::Tok, chars.clone(), Ty::Inv];
                let sp = Some(4);
                let mut out = vec![];
                let s0 = self.rule(4); let st = self.rule(1); let st = self.many(st); let a = self.any(); let end = self.not(a);
                let x = if self.r.chance(1, 2) { self.seq(vec![s0, st, end]) } else { self.seq(vec![s0, st]) };
                out.push(if whole { x } else { self.act(x) });
                let mut v = vec![];
                let w = self.word(sp); let e = self.rule(2); let s = self.rule(1); let w2 = self.word(sp); let s2 = self.rule(1); let el = self.seq(vec![w2, s2]); let el = self.opt(el);
                let x = self.seq(vec![w, e, s, el]); let x = self.maybe_span(x); v.push(self.act(x));
                let w = self.word(sp); let i = self.rule(3); let c = self.l(":"); let c = self.spaced(c, sp); let t = self.rule(3); let t = self.seq(vec![c, t]); let t = self.opt(t);
                let q = self.l("="); let q = self.spaced(q, sp); let e = self.rule(2); let q = self.seq(vec![q, e]); let q = self.opt(q); let semi = self.l(";"); let semi = self.spaced(semi, sp);
                let x = self.seq(vec![w, i, t, q, semi]); v.push(self.act(x));
                let (o, c) = self.pair(); let o = self.spaced(o, sp); let c = self.spaced(c, sp); let s = self.rule(1); let s = self.star(s); let x = self.seq(vec![o, s, c]); let x = self.maybe_span(x); v.push(self.act(x));
                let e = self.rule(2); let semi = self.l(";"); let semi = self.spaced(semi, sp); let x = self.seq(vec![e, semi]); v.push(if self.r.chance(1, 2) { x } else { self.act(x) });
                let v = self.shuffled(v);
                let b = self.alt(v); out.push(b);
                let i = self.rule(3); let t = self.tok(); let t = self.spaced(t, sp); let e = self.rule(2); let r = self.seq(vec![t, e]); let r = self.opt(r); let x = self.seq(vec![i, r]); out.push(self.act(x));
                let n = if self.r.chance(1, 2) { let w = self.word(None); vec![self.not(w)] } else { vec![] };
                let l = self.letter(); let l = self.plus(l); let l = self.spaced(l, sp); let mut n = n; n.push(l); let x = if n.len() == 1 { n.pop().unwrap() } else { self.seq(n) }; out.push(x);
                // White space and comments.
                let c = self.cls(&[(' ', ' '), ('\n', '\n')]); let c = self.inv(c);
                let o = self.l("//"); let nl = self.l("\n"); let n = self.not(nl); let a = self.any(); let a = self.seq(vec![n, a]); let a = self.inv(a); let a = self.star(a); let cm = self.seq(vec![o, a]);
                let x = if self.r.chance(1, 2) { self.alt(vec![c, cm]) } else { c };
                out.push(self.b(x, K::Star));
                self.rules_of(out)
            }
            // Nesting through optional and repeated parts.
            3 => {
                self.tys = vec![Ty::Tok, Ty::Tok, Ty::Tok];
                let mut out = vec![];
                for i in 0..3 {
                    self.cur = i;
                    let (o, c) = self.pair();
                    let o = if i > 0 && self.r.chance(1, 2) { self.tok() } else { o };
                    let j = self.r.below(3); let x = self.rule(j);
                    let j = self.r.below(3); let y = self.rule(j);
                    let x = match self.r.below(7) {
                        0 | 1 => { let x = self.opt(x); self.seq(vec![o, x, c]) }
                        2 => { let x = self.star(x); self.seq(vec![o, x, c]) }
                        3 => { let x = self.opt(x); let m = self.tok(); let y = self.opt(y); self.seq(vec![o, x, m, y, c]) }
                        4 => { let s = self.seq(vec![x, y]); let s = self.opt(s); self.seq(vec![o, s, c]) }
                        5 => { let s = self.spanned(x); let s = self.opt(s); self.seq(vec![o, s, c]) }
                        _ => { let t = self.tok(); let s = self.seq(vec![t, x]); let s = self.opt(s); let s = self.opt(s); let t = self.tok(); let s2 = self.seq(vec![t, y]); let s2 = self.star(s2); self.seq(vec![o, s, s2]) }
                    };
                    let x = self.maybe_span(x);
                    let x = self.act(x);
                    let x = match self.r.below(4) {
                        0 => { let l = self.letter(); let l = self.act(l); let v = self.shuffled(vec![x, l]); self.alt(v) }
                        1 => { let j = i + 1; if j < 3 { let y = self.rule(j); let v = self.shuffled(vec![x, y]); self.alt(v) } else { x } }
                        _ => x,
                    };
                    out.push(x);
                }
                self.rules_of(out)
            }
            // Spans within spans.
            4 => {
                self.tys = vec![Ty::Tok, Ty::Tup(vec![Ty::Span, Ty::Span]), Ty::Tup(vec![Ty::Span, chars.clone()]), Ty::Inv];
                let mut out = vec![];
                let sp = if spaced { Some(3) } else { None };
                let (o, c) = self.pair(); let o = self.spaced(o, sp); let x = self.rule(0); let a = self.rule(1); let b = self.rule(2); let x = self.star(x);
                let x = self.seq(vec![o, x, c]); let x = self.spanned(x); let x = self.act(x);
                let y = self.spaced(a, sp); let y = self.spanned(y); let y = self.act(y);
                let z = self.opt(b); let t = self.tok(); let z = self.seq(vec![t, z]); let z = self.spanned(z); let z = self.act(z);
                let v = self.shuffled(vec![x, y, z]); let x = self.alt(v); out.push(x);
                // .. a (.. (b / c) d)
                let mut v = vec![];
                for _ in 0..self.r.range(2, 3) { let k = self.r.range(1, 2); let mut s = vec![]; for _ in 0..k { s.push(self.tok()); } v.push(if s.len() == 1 { s.pop().unwrap() } else { self.seq(s) }); }
                let i = self.alt(v); let mut s = vec![i]; if self.r.chance(2, 3) { s.push(self.tok()); } if self.r.chance(1, 2) { let t = self.tok(); s.insert(0, t); }
                let i = if s.len() == 1 { s.pop().unwrap() } else { self.seq(s) };
                let i = self.spanned(i); let mut s = vec![]; if self.r.chance(4, 5) { let t = self.tok(); s.push(self.spaced(t, sp)); } s.push(i); if self.r.chance(1, 2) { s.push(self.tok()); }
                let x = if s.len() == 1 { s.pop().unwrap() } else { self.seq(s) };
                out.push(self.spanned(x));
                let l = self.letter(); let l = self.plus(l); let t = self.tok(); let x = self.seq(vec![t, l]); let x = self.spaced(x, sp); out.push(self.spanned(x));
                let c = self.cls(&[(' ', ' '), ('\n', '\n')]); let c = self.inv(c); out.push(self.b(c, K::Star));
                self.rules_of(out)
            }
            // Patterns: alternatives, sequences, repetition, groups, classes.
            5 => {
                self.tys = vec![Ty::Tok, Ty::Tok, Ty::Tok, Ty::Tok];
                let mut out = vec![];
                let x = self.rule(1); let t = self.l("|"); let x = self.list_of(x, t); out.push(self.act(x));
                let x = self.rule(2); let x = self.plus(x); let x = self.maybe_span(x); out.push(self.act(x));
                let x = self.rule(3);
                let mut v = vec![]; for s in ["*", "+", "?"] { let l = self.l(s); v.push(self.act(l)); }
                let s = self.alt(v); let s = if self.r.chance(1, 2) { self.opt(s) } else { self.star(s) }; let x = self.seq(vec![x, s]); out.push(self.act(x));
                let mut v = vec![];
                let (o, c) = (self.l("("), self.l(")")); let x = self.rule(0); let x = self.seq(vec![o, x, c]); v.push(if self.r.chance(1, 2) { x } else { self.act(x) });
                let (o, c) = (self.l("["), self.l("]")); let h = self.l("^"); let h = self.act(h); let h = self.opt(h); let n = self.not(c.clone()); let a = self.any(); let y = self.seq(vec![n, a]); let y = self.plus(y); let x = self.seq(vec![o, h, y, c]); v.push(self.act(x));
                let e = self.l("\\"); let a = self.any(); let x = self.seq(vec![e, a]); v.push(self.act(x));
                let c = self.cls(&[('*', '+'), ('|', '|'), ('?', '?'), ('(', ')'), ('[', ']')]); let n = self.not(c); let a = self.any(); let x = self.seq(vec![n, a]); v.push(self.act(x));
                let x = self.alt(v); out.push(x);
                self.rules_of(out)
            }
            // Tables: lines of fields.
            6 => {
                let field = chars.clone();
                self.tys = vec![Ty::Tok, Ty::Tok, field, Ty::Inv];
                let mut out = vec![];
                let x = self.rule(1); let t = if self.r.chance(1, 2) { self.l("\n") } else { let a = self.l("\r"); let a = self.opt(a); let b = self.l("\n"); self.seq(vec![a, b]) };
                let x = self.list_of(x, t.clone()); out.push(self.act(x));
                let x = self.rule(2); let s = self.rule(3); let x = self.list_of(x, s); let x = self.maybe_span(x); out.push(self.act(x));
                let q = self.l("\""); let q2 = self.l("\"\""); let c = self.cls(&[('"', '"')]);
                let dq = { let k = self.b(q2, K::And); let a = self.any(); let b = self.any(); let b = self.inv(b); self.seq(vec![k, a, b]) };
                let n = self.not(c); let a = self.any(); let p = self.seq(vec![n, a]); let x = self.alt(vec![dq, p]); let x = self.star(x); let quoted = self.seq(vec![q.clone(), x, q]);
                let s = self.rule(3); let nl = self.l("\n"); let e = self.alt(vec![s, nl]); let n = self.not(e); let a = self.any(); let p = self.seq(vec![n, a]); let plain = self.star(p);
                let x = self.alt(vec![quoted, plain]); out.push(x);
                out.push(self.l(","));
                self.rules_of(out)
            }
            // Elements with names and attributes.
            7 => {
                self.tys = vec![Ty::Tok, Ty::Tup(vec![chars.clone(), Ty::Opt(Box::new(chars.clone()))]), chars.clone(), Ty::Inv];
                let mut out = vec![];
                let (lt, gt, end) = (self.l("<"), self.l(">"), self.l("</"));
                let name = self.rule(2); let sp = self.rule(3); let at = self.rule(1); let at = self.seq(vec![sp, at]); let at = self.star(at);
                let e = self.rule(0); let e = self.star(e); let name2 = self.rule(2); let name2 = if self.r.chance(1, 2) { self.inv(name2) } else { name2 };
                let x = self.seq(vec![lt.clone(), name, at, gt.clone(), e, end, name2, gt.clone()]); let x = self.maybe_span(x); let x = self.act(x);
                let name = self.rule(2); let sl = self.l("/>"); let y = self.seq(vec![lt.clone(), name, sl]); let y = self.maybe_span(y); let y = self.act(y);
                let n = self.not(lt); let a = self.any(); let p = self.seq(vec![n, a]); let p = self.plus(p); let p = self.maybe_span(p); let z = self.act(p);
                let v = self.shuffled(vec![x, y, z]); let x = self.alt(v); out.push(x);
                let n = self.rule(2); let q = self.l("="); let v = self.rule(2); let v = self.seq(vec![q, v]); let v = self.opt(v); out.push(self.seq(vec![n, v]));
                let l = self.letter(); out.push(self.plus(l));
                let c = self.l(" "); out.push(self.plus(c));
                self.rules_of(out)
            }
            // What follows decides: lookahead with values, and long common prefixes.
            _ => {
                self.tys = vec![Ty::Tok, chars.clone(), Ty::Tok];
                let mut out = vec![];
                let n = self.r.range(2, 5);
                let mut v = vec![];
                for _ in 0..n {
                    let i = self.rule(1); let mut s = vec![i];
                    for _ in 0..self.r.below(3) { let t = self.tok(); s.push(t); if self.r.chance(1, 2) { let j = self.rule(2); s.push(j); } }
                    if self.r.chance(1, 2) { let t = self.tok(); s.push(if self.r.chance(1, 2) { self.not(t) } else { self.b(t, K::And) }); }
                    if self.r.chance(1, 3) { let t = self.tok(); let i = self.rule(1); let la = self.seq(vec![i, t]); let la = self.b(la, K::And); s.insert(0, la); }
                    let x = if s.len() == 1 { s.pop().unwrap() } else { self.seq(s) };
                    let x = self.maybe_span(x);
                    v.push(self.act(x));
                }
                let x = self.alt(v);
                let x = if self.r.chance(1, 2) { let s = self.plus(x); self.act(s) } else { x };
                out.push(x);
                let l = self.letter(); let l = self.plus(l); out.push(l);
                let (o, c) = self.pair(); let e = self.rule(0); let x = self.seq(vec![o, e, c]); let d = self.digit(); let d = self.plus(d); let d = self.act(d); let v = self.shuffled(vec![x, d]); out.push(self.alt(v));
                self.rules_of(out)
            }
        }
    }
    fn rules_of(&mut self, out: Vec<N>) -> Vec<Rule> {
        let (gid, tys) = (self.id, self.tys.clone());
        out.into_iter().enumerate().map(|(i, mut b)| { fix(&mut b); Rule { name: rule_name(gid, i), ty: tys[i].clone(), asc: None, body: b } }).collect()
    }
}
