//! The reference: a direct interpreter of parsing expression grammars over the delivered items.
use crate::gram::*;
use crate::val::*;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct RefCall { pub id: u32, pub args: Arc<Vec<Val>> }

#[derive(Debug)]
pub struct RefOut {
    pub ok: bool,
    /// Item index where a successful match ends.
    pub pos: usize,
    pub val: Option<Val>,
    pub log: Vec<RefCall>,
    pub reqs_at: Vec<u64>,
    pub far: usize,
    pub expected: BTreeSet<String>,
    pub max_req: usize,
    pub requests: u64,
    pub steps: u64,
    /// Statistics: backtracks (branches given up after consuming), predicates evaluated, loop iterations.
    pub backtracks: u64,
    pub preds: u64,
    pub iters: u64,
}

#[derive(Debug, PartialEq)]
pub enum Give { Diverges, TooLong }

pub struct Ref<'a> {
    w: &'a World,
    items: &'a [char],
    off: &'a [usize],
    base: u32,
    log: Vec<RefCall>,
    reqs_at: Vec<u64>,
    far: usize,
    expected: BTreeSet<String>,
    max_req: usize,
    requests: u64,
    steps: u64,
    limit: u64,
    depth: usize,
    active: HashMap<(usize, usize, bool), Vec<usize>>,
    backtracks: u64, preds: u64, iters: u64,
}

type R = Result<Option<(usize, Vec<Val>)>, Give>;

pub fn eval(w: &World, g: usize, r: usize, parse: bool, items: &[char], off: &[usize], base: u32, limit: u64) -> Result<RefOut, Give> {
    let mut e = Ref { w, items, off, base, log: vec![], reqs_at: vec![], far: 0, expected: BTreeSet::new(), max_req: 0, requests: 0, steps: 0, limit, depth: 0, active: HashMap::new(), backtracks: 0, preds: 0, iters: 0 };
    let res = e.rule(g, r, 0, parse)?;
    let (ok, pos, val) = match res { Some((p, v)) => (true, p, Some(tuple_val(v))), None => (false, 0, None) };
    Ok(RefOut { ok, pos, val, log: e.log, reqs_at: e.reqs_at, far: e.far, expected: e.expected, max_req: e.max_req, requests: e.requests, steps: e.steps, backtracks: e.backtracks, preds: e.preds, iters: e.iters })
}

impl<'a> Ref<'a> {
    fn rule(&mut self, g: usize, r: usize, p: usize, parse: bool) -> R {
        let key = (g, r, parse);
        let st = self.active.entry(key).or_default();
        // The same rule at the same position, entered again without consuming: left recursion.
        // (Calls that are active start further and further.)
        if st.last() == Some(&p) { return Err(Give::Diverges) }
        st.push(p);
        self.depth += 1;
        if self.depth > 8000 { return Err(Give::TooLong) }
        let w = self.w;
        let body = &w[&g].rules[r].body;
        let ty = &w[&g].rules[r].ty;
        let res = self.node(g, body, p, parse && !ty.unitish());
        self.depth -= 1;
        self.active.get_mut(&key).unwrap().pop();
        res
    }
    fn fail(&mut self, p: usize, n: &N) {
        if p > self.far { self.far = p; self.expected.clear(); }
        if p == self.far { self.expected.insert(n.item()); }
    }
    fn ask(&mut self, p: usize) -> Option<char> { if p + 1 > self.max_req { self.max_req = p + 1; } self.items.get(p).cloned() }

    fn node(&mut self, g: usize, n: &'a N, p: usize, parse: bool) -> R {
        self.steps += 1;
        if self.steps > self.limit { return Err(Give::TooLong) }
        let parse = parse && !n.ty.unitish();
        match &n.k {
            K::Lit(s) => {
                self.requests += 1;
                let mut q = p;
                for c in s.chars() {
                    if self.ask(q) != Some(c) { self.fail(p, n); return Ok(None) }
                    q += 1;
                }
                Ok(Some((q, vec![])))
            }
            K::Any => {
                self.requests += 1;
                match self.ask(p) { Some(c) => Ok(Some((p + 1, if parse { vec![Val::Ch(c)] } else { vec![] }))), None => { self.fail(p, n); Ok(None) } }
            }
            K::Class(v) => {
                self.requests += 1;
                match self.ask(p) {
                    Some(c) if v.iter().any(|(lo, hi)| *lo <= c && c <= *hi) => Ok(Some((p + 1, if parse { vec![Val::Ch(c)] } else { vec![] }))),
                    _ => { self.fail(p, n); Ok(None) }
                }
            }
            K::Seq(xs) => {
                let mut q = p;
                let mut vs = vec![];
                for x in xs {
                    match self.node(g, x, q, parse)? { None => { return Ok(None) } Some((r, v)) => { q = r; vs.extend(v); } }
                }
                Ok(Some((q, vs)))
            }
            K::Alt(xs) => {
                for x in xs {
                    let before = self.max_req;
                    if let Some(r) = self.node(g, x, p, parse)? { return Ok(Some(r)) }
                    if before > p || self.max_req > p + 1 { self.backtracks += 1; }
                }
                Ok(None)
            }
            K::Star(x) | K::Plus(x) => {
                let min = matches!(n.k, K::Plus(_)) as usize;
                let mut q = p;
                let mut vs = vec![];
                let mut k = 0;
                while let Some((r, v)) = self.node(g, x, q, parse)? {
                    if r == q { return Err(Give::Diverges) }
                    q = r;
                    k += 1;
                    self.iters += 1;
                    if parse { vs.push(tuple_val(v)); }
                }
                if k < min { return Ok(None) }
                Ok(Some((q, if parse { vec![Val::List(vs)] } else { vec![] })))
            }
            K::Opt(x) => {
                let r = self.node(g, x, p, parse)?;
                let (q, v) = match r { None => (p, None), Some((q, v)) => (q, Some(Box::new(tuple_val(v)))) };
                Ok(Some((q, if parse { vec![Val::Opt(v)] } else { vec![] })))
            }
            K::Not(x) => { self.preds += 1; Ok(if self.node(g, x, p, false)?.is_some() { None } else { Some((p, vec![])) }) }
            K::And(x) => { self.preds += 1; Ok(if self.node(g, x, p, false)?.is_some() { Some((p, vec![])) } else { None }) }
            K::Rule(r) => self.rule(g, *r, p, parse),
            K::Ext(gi, r) => Ok(self.rule(*gi, *r, p, parse)?.map(|(q, v)| (q, if parse { vec![tuple_val(v)] } else { vec![] }))),
            K::Act(x, id, k, _) => {
                match self.node(g, x, p, parse)? {
                    None => Ok(None),
                    Some((q, v)) => {
                        if !parse { return Ok(Some((q, vec![]))) }
                        let v = Arc::new(v);
                        if *k != AK::Var { self.log.push(RefCall { id: *id, args: v.clone() }); self.reqs_at.push(self.requests); }
                        Ok(Some((q, vec![Val::Tok(*id, v)])))
                    }
                }
            }
            K::Asc(x, _) => self.node(g, x, p, parse),
            K::Span(x) => Ok(self.node(g, x, p, parse)?.map(|(q, v)| {
                if !parse { return (q, vec![]) }
                let mut vs = vec![Val::Span(self.base + self.off[p] as u32, self.base + self.off[q] as u32)];
                vs.extend(v);
                (q, vs)
            })),
            K::Rng(x) => Ok(self.node(g, x, p, false)?.map(|(q, _)| (q, if parse { vec![Val::Range(self.off[p], self.off[q])] } else { vec![] }))),
        }
    }
}

/// Well-formedness (Ford): which expressions may match without consuming, and whether a grammar may loop.
pub struct Wf { pub nullable: Vec<bool> }

pub fn nullable(n: &N, rules: &[bool]) -> bool {
    match &n.k {
        K::Lit(s) => s.is_empty(),
        K::Any | K::Class(_) => false,
        K::Seq(v) => v.iter().all(|x| nullable(x, rules)),
        K::Alt(v) => v.iter().any(|x| nullable(x, rules)),
        K::Star(_) | K::Opt(_) | K::Not(_) | K::And(_) => true,
        K::Plus(x) | K::Act(x, ..) | K::Asc(x, _) | K::Span(x) | K::Rng(x) => nullable(x, rules),
        K::Rule(r) => rules[*r],
        K::Ext(..) => false,
    }
}

pub fn nullables(g: &Gram) -> Vec<bool> {
    let mut v = vec![false; g.rules.len()];
    loop {
        let w: Vec<bool> = g.rules.iter().map(|r| nullable(&r.body, &v)).collect();
        if w == v { return v }
        v = w;
    }
}

/// Does every repetition consume, and is there no left recursion?
pub fn well_formed(g: &Gram) -> bool {
    let nb = nullables(g);
    fn left(n: &N, nb: &[bool], out: &mut BTreeSet<usize>) {
        match &n.k {
            K::Rule(r) => { out.insert(*r); }
            K::Seq(v) => for x in v { left(x, nb, out); if !nullable(x, nb) { break } },
            _ => for x in n.kids() { left(x, nb, out) },
        }
    }
    fn loops(n: &N, nb: &[bool]) -> bool {
        if let K::Star(x) | K::Plus(x) = &n.k { if nullable(x, nb) { return true } }
        n.kids().into_iter().any(|x| loops(x, nb))
    }
    if g.rules.iter().any(|r| loops(&r.body, &nb)) { return false }
    let k = g.rules.len();
    let mut reach: Vec<BTreeSet<usize>> = g.rules.iter().map(|r| { let mut s = BTreeSet::new(); left(&r.body, &nb, &mut s); s }).collect();
    loop {
        let before: usize = reach.iter().map(|x| x.len()).sum();
        for i in 0..k {
            let add: Vec<usize> = reach[i].iter().flat_map(|j| reach[*j].iter().cloned().collect::<Vec<_>>()).collect();
            reach[i].extend(add);
        }
        if reach.iter().map(|x| x.len()).sum::<usize>() == before { break }
    }
    (0..k).all(|i| !reach[i].contains(&i))
}
