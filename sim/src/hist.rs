//! Histories of operations on text cursors (C09, C10, C12) and on parse states (C14), against models.
use crate::ctx::*;
use crate::rng::{hash_str, mix, Rng};
use crate::run::*;
use crate::sched;
use crate::sexp::*;
use crate::stream::*;
use crate::val::Tok;
use oak_runtime::file_map_stream::FileMapStream;
use oak_runtime::parse_state::{IntoState, ParseResult, ParseState};
use oak_runtime::str_stream::StrStream;
use oak_runtime::stream::*;
use std::collections::BTreeSet;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;
use syntex_pos::{BytePos, FileMap};

#[derive(Clone, Debug, PartialEq)]
pub struct HOp { pub k: String, pub i: usize, pub j: usize, pub n: usize, pub s: String, pub fault: Option<(FK, u64)> }

impl HOp {
    fn sx(&self) -> S {
        let mut v = vec![a(self.i), a(self.j), a(self.n), S::A(self.s.clone())];
        if let Some((k, n)) = self.fault { v.push(t("fault", vec![a(k.name()), a(n)])); }
        t(&self.k, v)
    }
    fn of(s: &S) -> HOp {
        let r = s.rest();
        HOp { k: s.tag().to_string(), i: r[0].num(), j: r[1].num(), n: r[2].num(), s: r[3].atom().to_string(),
            fault: r.get(4).map(|x| (FK::of(x.rest()[0].atom()), x.rest()[1].num())) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct HPlan { pub states: bool, pub src: SrcSpec, pub ops: Vec<HOp> }

impl HPlan {
    pub fn sx(&self) -> S { t("hist", vec![a(if self.states { "states" } else { "cursors" }), self.src.sx(), t("ops", self.ops.iter().map(|o| o.sx()).collect())]) }
    pub fn of(s: &S) -> HPlan {
        let r = s.rest();
        HPlan { states: r[0].atom() == "states", src: SrcSpec::of(&r[1]), ops: r[2].rest().iter().map(HOp::of).collect() }
    }
}

const SLOTS: usize = 6;
const ITEMS: &[&str] = &["\"a\"", ".", "[\"a-z\"]", "\"let\"", "\"\u{e9}\"", "`", " or "];

// ---------------------------------------------------------------- plans

fn text(r: &mut Rng) -> String {
    // Characters from the whole range, and those at the ends of what fits in one, two, three or four bytes.
    if r.chance(1, 8) {
        const EDGES: &[u32] = &[0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x40000, 0xe0041, 0xfffff, 0x100000, 0x10ffff];
        let n = r.range(1, 10);
        return (0..n).map(|_| if r.chance(1, 2) { *r.pick(EDGES) } else { r.below(0x110000) as u32 }).filter_map(char::from_u32).collect();
    }
    // Positions and columns past what fits in sixteen bits.
    if r.chance(1, 2500) {
        let n = *r.pick(&[65_530usize, 65_536, 70_000]);
        let u = *r.pick(&["a", "\n", "a\n", "\u{e9}", "\u{2192}"]);
        let mut t = u.repeat(n / u.len());
        for _ in 0..r.range(0, 12) { t.push_str(*r.pick(&["a", "\n", "\u{e9}", "b"])); }
        return t;
    }
    // Long texts, of one line or many.
    if r.chance(1, 60) {
        let n = *r.pick(&[100usize, 127, 128, 255, 256, 257, 300, 1100, 5000]);
        let u = *r.pick(&["a", "\n", "ab\n", "\u{e9}", "a\u{2192}b\r\n", "xyz"]);
        let mut t = u.repeat(n / u.len() + 1);
        if r.chance(1, 2) { t.push_str("\u{e9}\nb"); }
        return t;
    }
    let pool: Vec<&str> = match r.below(6) {
        0 => vec!["a", "b", "ab"],
        1 => vec!["a", "\n", "b\n", "\n\n"],
        2 => vec!["a", "\r\n", "\n", "\r", "\r\r\n", "b"],
        3 => vec!["\u{e9}", "\u{e8}", "e", "\u{301}", "\u{2192}", "\u{2193}", "\u{1d11e}", "\u{1d11f}", "\u{a0}"],
        4 => vec!["\u{feff}", "\0", "\t", "\u{2028}", "\u{85}", "\u{b}", "a"],
        _ => vec!["a", "b", "\n", "\r\n", "\u{e9}", "\u{2192}", "\u{1d11e}", "abc", " ", "\t", "\u{10ffff}", "\u{301}"],
    };
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => r.range(30, 60), _ => r.range(2, 16) };
    let mut s = String::new();
    for _ in 0..n { s.push_str(*r.pick(&pool)); }
    if r.chance(1, 6) { s.push_str(*r.pick(&["\n", "\r\n", "\r"])); }
    s
}

fn off_of(cs: &[char], i: usize) -> usize { cs[..i].iter().map(|c| c.len_utf8()).sum() }

/// A prefix to try at item `i`: a real one, one that is nearly right, or another.
fn prefix(r: &mut Rng, cs: &[char], i: usize) -> String {
    let rest = &cs[i..];
    let k = if r.chance(1, 3) { rest.len() } else { r.below(rest.len() + 1).min(r.range(1, 6)) };
    let mut p: Vec<char> = rest[..k].to_vec();
    match r.below(8) {
        0..=3 => {}
        4 => { let c = *r.pick(&['a', '\n', '\u{e9}', '\u{e8}', '\u{1d11e}', '\0']); p.push(c); }
        5 => if !p.is_empty() { let j = p.len() - 1; p[j] = char::from_u32(p[j] as u32 ^ 1).unwrap_or('x'); },
        6 => if !p.is_empty() { let j = r.below(p.len()); p.remove(j); },
        _ => { p = (0..r.range(0, 3)).map(|_| *r.pick(&['a', 'b', '\n', '\r', '\u{e9}', '\u{2192}'])).collect(); }
    }
    p.into_iter().collect()
}

fn consumes(cs: &[char], i: usize, p: &str) -> Option<usize> {
    let mut j = i;
    for c in p.chars() { if j < cs.len() && cs[j] == c { j += 1 } else { return None } }
    Some(j)
}

fn op(k: &str, i: usize, j: usize, n: usize, s: String) -> HOp { HOp { k: k.into(), i, j, n, s, fault: None } }

fn plan_cursors(prop: &str, r: &mut Rng) -> HPlan {
    let t = text(r);
    let cs: Vec<char> = t.chars().collect();
    let mut src = SrcSpec::plain(if r.chance(1, 2) { SK::Str } else { SK::Fm }, &t);
    if src.kind == SK::Str && r.chance(1, 4) { src.base = 1 + r.below(140) as u32; }
    if src.kind == SK::Fm && r.chance(3, 4) { src.base = file_base(r, src.text.len()); }
    let mut at: Vec<Option<usize>> = vec![None; SLOTS];
    let mut ops = vec![op("start", 0, 0, 0, String::new())];
    at[0] = Some(0);
    let n = match r.below(4) { 0 => r.range(1, 8), 1 => r.range(30, 80), _ => r.range(8, 30) };
    // Which operations this history is about.
    let w: [usize; 15] = match prop {
        "C10" => [1, 4, 2, 2, 2, 1, 1, 12, 1, 3, 1, 1, 2, 0, 0],
        "C12" => [1, 4, 3, 3, 3, 1, 1, 1, 12, 1, 1, 1, 1, 0, 0],
        _ => { let mut w = [1, 6, 6, 3, 4, 3, 4, 1, 1, 1, 2, 1, 2, 1, 2]; for x in w.iter_mut() { if r.chance(1, 4) { *x = r.below(8); } } w }
    };
    for _ in 0..n {
        let live: Vec<usize> = (0..SLOTS).filter(|i| at[*i].is_some()).collect();
        let i = if live.is_empty() { 0 } else { *r.pick(&live) };
        let j = if live.is_empty() { 0 } else { *r.pick(&live) };
        let k = if live.is_empty() { 0 } else { r.weighted(&w) };
        let pos = at[i].unwrap_or(0);
        let mut o = match k {
            0 => { let d = r.below(SLOTS); at[d] = Some(0); op("start", d, 0, r.below(2), String::new()) }
            1 => { let n = if r.chance(1, 4) { r.range(1, 9) } else { 1 }; at[i] = Some((pos + n).min(cs.len())); op("next", i, 0, n, String::new()) }
            2 => { let p = prefix(r, &cs, pos); if let Some(q) = consumes(&cs, pos, &p) { at[i] = Some(q); } op("prefix", i, 0, 0, p) }
            3 => { let d = r.below(SLOTS); at[d] = at[i]; op("copy", i, d, 0, String::new()) }
            4 => { at[i] = at[j]; op("copy", j, i, r.range(1, 3), String::new()) }
            5 => op("has_next", i, 0, 0, String::new()),
            6 => op("cmp", i, j, 0, String::new()),
            7 => op("report", i, 0, *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 10, 10, 10, 20, 100, usize::MAX]), String::new()),
            8 => { let (x, y) = if at[i] <= at[j] { (i, j) } else { (j, i) }; op("span", x, y, 0, String::new()) }
            9 => op("every", i, 0, r.range(0, 12), String::new()),
            10 => { let n = if cs.len() > 80 && r.chance(1, 2) { r.below(cs.len()) } else { r.below(4) }; at[i] = Some((pos + n + 1).min(cs.len())); op("nth", i, 0, n, String::new()) }
            11 => { at[i] = None; op("drop", i, 0, 0, String::new()) }
            14 => op("iter", i, j, r.below(16) * 8 + r.below(8), String::new()),
            13 => op("cross", i, 0, r.below(32), String::new()),
            _ => { at[i] = Some(cs.len()); let q = at[i]; if r.chance(3, 4) { let d = r.below(SLOTS); if d != i { at[d] = Some(pos); ops.push(op("copy", i, d, 0, String::new())); } } at[i] = q; op("drain", i, 0, 0, String::new()) }
        };
        // Memory may run out while something is rendered, copied or registered.
        if matches!(o.k.as_str(), "report" | "copy" | "start" | "next" | "prefix" | "cmp") && r.chance(1, 14) { o.fault = Some((FK::Alloc, r.range(1, 6) as u64)); }
        ops.push(o);
    }
    HPlan { states: false, src, ops }
}

fn plan_states(r: &mut Rng) -> HPlan {
    let t = text(r);
    let al: Vec<char> = "ab\n\u{e9}".chars().collect();
    let mut src = match r.below(4) {
        0 | 1 => { let f = r.chance(1, 2); transport(r, &t, &al, f) }
        2 => SrcSpec::plain(SK::Str, &t),
        _ => { let mut s = SrcSpec::plain(SK::Fm, &t); let n = s.text.len(); s.base = file_base(r, n); s }
    };
    if src.kind == SK::Net && r.chance(1, 6) { let n = src.text.chars().count(); stall_after(&mut src, r.below(n + 1)); }
    let cs: Vec<char> = src.text.chars().collect();
    // (position, failed, data, error while holding data) of each slot; marks.
    let mut st: Vec<Option<(usize, bool, bool, bool)>> = vec![None; SLOTS];
    let mut marks: Vec<Option<usize>> = vec![None; SLOTS];
    let mut ops = vec![];
    let n = match r.below(4) { 0 => r.range(1, 10), 1 => r.range(40, 120), _ => r.range(10, 40) };
    let illegal = r.chance(1, 2);
    let faults = r.chance(1, 3);
    for _ in 0..n {
        let live: Vec<usize> = (0..SLOTS).filter(|i| st[*i].is_some()).collect();
        if live.is_empty() || r.chance(1, 14) {
            let d = r.below(SLOTS);
            st[d] = Some((0, false, false, false));
            ops.push(op("new", d, 0, 0, String::new()));
            continue
        }
        let i = *r.pick(&live);
        let (pos, failed, data, odd) = st[i].unwrap();
        let j = r.below(SLOTS);
        let mk: Vec<usize> = (0..SLOTS).filter(|m| marks[*m].is_some()).collect();
        // An operation that the protocol allows here, or (sometimes) any operation.
        let any = illegal && r.chance(1, 12);
        let mut choice: Vec<&str> = vec![];
        if odd { choice.extend(["success", "failure", "extract", "mark", "drop"]); if illegal && !mk.is_empty() { choice.extend(["restore", "restore_failure"]); } }
        else {
            choice.extend(["success", "failure", "drop", "flags", "next", "next", "next", "prefix", "prefix", "prefix"]);
            if !data { choice.extend(["error", "error", "error", "error"]); } else if illegal { choice.push("error"); }
            if !failed || any { choice.extend(["mark", "mark", "mark"]); }
            if (!data || any) && !mk.is_empty() { choice.extend(["restore", "restore", "restore"]); if failed || any { choice.extend(["restore_failure", "restore_failure", "restore_failure"]); } }
            if !failed && data || any { choice.extend(["extract", "extract"]); }
            if data || any { choice.push("unwrap"); }
            if data || failed || any { choice.push("result"); }
            choice.push("unit");
        }
        let k = *r.pick(&choice);
        let mut o = op(k, i, j, 0, String::new());
        match k {
            "next" => { if pos < cs.len() { st[i] = Some((pos + 1, failed, data, odd)); } }
            "prefix" => { let p = prefix(r, &cs, pos); if let Some(q) = consumes(&cs, pos, &p) { st[i] = Some((q, failed, data, odd)); } o.s = p; }
            "error" => { o.n = r.below(ITEMS.len()); st[i] = Some((pos, true, data, data)); }
            "success" => { o.n = r.below(1000); st[i] = Some((pos, false, true, false)); }
            "failure" => { o.n = r.below(2); st[i] = Some((pos, true, false, false)); }
            "mark" => { if failed { st[i] = st[i]; } else { marks[j] = Some(pos); } }
            "restore" | "restore_failure" => {
                if mk.is_empty() { continue }
                o.j = *r.pick(&mk);
                o.n = r.below(2);
                let bad = data || k == "restore_failure" && !failed;
                st[i] = if bad { None } else { Some((marks[o.j].unwrap(), false, false, false)) };
            }
            "extract" => { st[i] = if failed || !data { None } else { Some((pos, false, false, false)) }; }
            "unwrap" | "result" | "drop" => { st[i] = None; }
            "unit" => { st[i] = Some((pos, false, false, false)); }
            _ => {}
        }
        if faults && r.chance(1, 10) && k != "result" {
            o.fault = Some((*r.pick(&[FK::Op, FK::Op, FK::Alloc]), r.range(1, 3) as u64));
        }
        ops.push(o);
    }
    HPlan { states: true, src, ops }
}

pub fn plan(prop: &str, r: &mut Rng, _seed: u64) -> Option<HPlan> {
    match prop {
        "C09" => Some(plan_cursors(prop, r)),
        "C14" => Some(plan_states(r)),
        "C10" if r.chance(1, 3) => Some(plan_cursors(prop, r)),
        "C12" if r.chance(1, 8) => Some(plan_cursors(prop, r)),
        _ => None,
    }
}

// ---------------------------------------------------------------- execution

/// How an operation of the system under test ended.
enum Did<T> { Got(T), Injected, Stalled, Panicked(String) }

/// Runs one operation with the fault armed, outside of harness accounting.
fn act<T>(fault: Option<(FK, u64)>, st: &mut Stats, f: impl FnOnce() -> T) -> Did<T> {
    let mut fr = Frame::default();
    fr.req_limit = 1_000_000;
    fr.clone_limit = 1_000_000;
    if let Some((FK::Op, n)) = fault { fr.fault_op = Some(n); }
    FRAMES.with(|x| x.borrow_mut().push(fr));
    ALLOCS.with(|c| c.set(0));
    let a0 = ALLOC_AT.with(|c| c.replace(if let Some((FK::Alloc, n)) = fault { n } else { u64::MAX - 2 }));
    let b0 = BLOCKS.with(|c| c.get());
    let lim0 = BLOCK_LIMIT.with(|c| c.replace(b0 + 3_000_000));
    let depth = IN.with(|c| c.replace(0));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN.with(|c| c.set(depth));
    BLOCK_LIMIT.with(|c| c.set(lim0));
    let starved = ALLOC_AT.with(|c| c.get()) == u64::MAX - 1;
    ALLOC_AT.with(|c| c.set(a0));
    let fr = FRAMES.with(|x| x.borrow_mut().pop().unwrap());
    st.add("operations", 1);
    match r {
        Ok(x) => Did::Got(x),
        Err(e) => {
            if let Some(c) = e.downcast_ref::<Cancel>() { st.add(&format!("fault fired: unwinding {}", c.0.name()), 1); Did::Injected }
            else if starved || fr.fired { st.add("fault fired: unwinding alloc", 1); Did::Injected }
            else if e.downcast_ref::<Stall>().is_some() { st.add("fault fired: stall until cancelled", 1); Did::Stalled }
            else { Did::Panicked(e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("?".into())) }
        }
    }
}

fn leak_str(s: &str) -> &'static str { unsafe { std::mem::transmute::<&str, &'static str>(s) } }

pub fn check(p: &HPlan, st: &mut Stats) -> (Vec<Bad>, HPlan, u64) {
    note_last(|| p.sx(), Vec::new);
    let _h = H::new();
    st.add("runs", 1);
    let (v, trace) = if p.states { states(p, st) } else { cursors(p, st) };
    (v, p.clone(), trace)
}

// ---------------------------------------------------------------- cursors

enum Real { Str(StrStream<'static>), Fm(FileMapStream<'static>) }

macro_rules! each { ($c:expr, $s:ident => $e:expr) => { match $c { Real::Str($s) => $e, Real::Fm($s) => $e } } }
macro_rules! both { ($c:expr, $d:expr, $x:ident, $y:ident => $e:expr) => { match ($c, $d) { (Real::Str($x), Real::Str($y)) => $e, (Real::Fm($x), Real::Fm($y)) => $e, _ => unreachable!() } } }

impl Real { fn copy(&self) -> Real { match self { Real::Str(s) => Real::Str(s.clone()), Real::Fm(s) => Real::Fm(s.clone()) } } }

fn cursors(p: &HPlan, st: &mut Stats) -> (Vec<Bad>, u64) {
    let mut v: Vec<Bad> = vec![];
    let mut tr = hash_str(&p.src.text);
    let fm: Option<Rc<FileMap>> = if p.src.kind == SK::Fm { Some(file_map(&p.src, 26)) } else { None };
    let owned: Rc<String> = match &fm { Some(f) => f.src.clone().unwrap(), None => crate::alloc::placed(26, || Rc::new(p.src.around().0)) };
    let txt: &'static str = leak_str(if p.src.kind == SK::Str { &owned[p.src.around().1] } else { owned.as_str() });
    let cs: Vec<char> = txt.chars().collect();
    let base = if p.src.kind == SK::Fm { p.src.base as usize } else { 0 };
    let mut slots: Vec<Option<(Real, usize)>> = (0..SLOTS).map(|_| None).collect();
    let mut starved_start = false;
    let mut started = false;
    for (oi, o) in p.ops.iter().enumerate() {
        let who = |s: &str| format!("operation {} ({}) on {:?}: {}", oi, o.sx(), txt, s);
        let (i, j) = (o.i % SLOTS, o.j % SLOTS);
        tr = mix(tr, hash_str(&o.k) ^ (slots[i].as_ref().map_or(9999, |x| x.1) as u64) << 20 ^ (i * 8 + j) as u64);
        if o.k != "start" && slots[i].is_none() { continue }
        let from = slots[i].as_ref().map_or(0, |x| x.1);
        macro_rules! got { ($prop:expr, $d:expr) => { match $d { Did::Got(x) => Some(x), Did::Panicked(m) => { bad(&mut v, $prop, "panic", who(&format!("panicked: {}", m))); None } _ => None } } }
        match o.k.as_str() {
            "start" => {
                let d = act(o.fault, st, || match &fm {
                    None => if o.n == 0 || p.src.base != 0 { Real::Str(txt.stream()) } else { Real::Str(unsafe { std::mem::transmute::<&String, &'static String>(&*owned) }.stream()) },
                    Some(f) => Real::Fm(unsafe { std::mem::transmute::<&Rc<FileMap>, &'static Rc<FileMap>>(f) }.stream()),
                });
                if let Did::Injected = d { starved_start = true; }
                if let Some(c) = got!("C09", d) { slots[i] = Some((c, 0)); started = true; }
                if let (Some(f), true, false) = (&fm, started, starved_start) {
                    let mut want = vec![];
                    if !txt.is_empty() { want.push(BytePos(p.src.base)); }
                    for (k, b) in txt.bytes().enumerate() { if b == b'\n' && k + 1 < txt.len() { want.push(BytePos(p.src.base + k as u32 + 1)); } }
                    let have = f.lines.borrow().clone();
                    if have != want { bad(&mut v, "C10", "lines", who(&format!("lines registered at {:?} instead of {:?}", have, want))); }
                    st.add("line tables compared", 1);
                }
            }
            "next" => for _ in 0..o.n.clamp(1, 40) {
                let (c, q) = slots[i].as_mut().unwrap();
                match act(o.fault, st, || each!(c, s => s.next())) {
                    Did::Got(x) => {
                        let want = cs.get(*q).cloned();
                        if x != want { bad(&mut v, "C09", "next", who(&format!("{:?} instead of {:?} at item {}", x, want, q))); }
                        if *q < cs.len() { *q += 1; }
                    }
                    Did::Panicked(m) => { bad(&mut v, "C09", "panic", who(&format!("panicked: {}", m))); break }
                    _ => {}
                }
            },
            "nth" => {
                let (c, q) = slots[i].as_mut().unwrap();
                if let Some(x) = got!("C09", act(o.fault, st, || each!(c, s => s.nth(o.n)))) {
                    let want = cs.get(*q + o.n).cloned();
                    if x != want { bad(&mut v, "C09", "next", who(&format!("{:?} instead of {:?} {} items after item {}", x, want, o.n, q))); }
                    *q = (*q + o.n + 1).min(cs.len());
                }
            }
            "drain" => {
                let (c, q) = slots[i].as_mut().unwrap();
                let (lo, hi) = each!(&*c, s => s.size_hint());
                let left = cs.len() - *q;
                if lo > left || hi.map_or(false, |h| h < left) { bad(&mut v, "C09", "size hint", who(&format!("{} items left, announced {:?}", left, (lo, hi)))); }
                // Bounded: a cursor that does not end is one of the things to be found.
                if let Some(x) = got!("C09", act(o.fault, st, || each!(c, s => s.take(cs.len() + 3).collect::<String>()))) {
                    let want: String = cs[*q..].iter().collect();
                    if x != want { bad(&mut v, "C09", "next", who(&format!("the rest is {:?} instead of {:?}", x, want))); }
                    *q = cs.len();
                }
            }
            "prefix" => {
                let (c, q) = slots[i].as_mut().unwrap();
                let pre = leak_str(&o.s);
                if let Some(x) = got!("C09", act(o.fault, st, || each!(c, s => s.consume_prefix(pre)))) {
                    let want = consumes(&cs, *q, pre);
                    if x != want.is_some() { bad(&mut v, "C09", "prefix", who(&format!("{} instead of {} at item {}", x, want.is_some(), q))); }
                    st.add(if want.is_some() { "prefixes that match" } else { "prefixes that do not match" }, 1);
                    if let Some(w) = want { *q = w; }
                }
            }
            "copy" => {
                let (c, q) = slots[i].as_ref().unwrap();
                let q = *q;
                // Going back assigns a copy to a cursor in use, as restoring does.
                let d = if o.n == 2 && i != j && slots[j].is_some() {
                    // In place.
                    let mut old = slots[j].as_ref().unwrap().0.copy();
                    act(o.fault, st, || { both!(&mut old, c, x, y => x.clone_from(y)); old })
                } else { act(o.fault, st, || c.copy()) };
                if let Some(x) = got!("C09", d) { slots[j] = Some((x, q)); st.add(if o.n >= 1 { "cursors moved to a copy" } else { "copies" }, 1); }
            }
            "iter" => {
                // What every iterator offers, on a copy.
                let (c, q) = slots[i].as_ref().unwrap();
                let (q, n) = (*q, o.n / 8);
                let rest = &cs[q..];
                let mut x = c.copy();
                let text = |v: &[char]| v.iter().collect::<String>();
                let lim = cs.len() + 3;
                let (have, want) = match o.n % 8 {
                    0 => (act(None, st, || each!(x, s => s.take(lim).count()).to_string()), rest.len().to_string()),
                    1 => (act(None, st, || format!("{:?}", each!(x, s => if n % 2 == 0 { s.last() } else { s.take(lim).last() }))), format!("{:?}", rest.last())),
                    2 => (act(None, st, || each!(&mut x, s => { let a: String = s.by_ref().take(n).collect(); let b: String = s.take(lim).collect(); format!("{}|{}", a, b) })), format!("{}|{}", text(&rest[..n.min(rest.len())]), text(&rest[n.min(rest.len())..]))),
                    3 => (act(None, st, || each!(x, s => s.skip(n).take(lim).collect::<String>())), text(&rest[n.min(rest.len())..])),
                    4 => (act(None, st, || each!(x, s => s.step_by(n + 1).take(lim).collect::<String>())), rest.iter().step_by(n + 1).collect()),
                    5 => (act(None, st, || each!(&mut x, s => { let p = s.position(|c| c == 'b' || c == '\n'); let b: String = s.take(lim).collect(); format!("{:?}|{}", p, b) })), { let p = rest.iter().position(|c| *c == 'b' || *c == '\n'); format!("{:?}|{}", p, text(&rest[p.map_or(rest.len(), |p| p + 1)..])) }),
                    6 => (act(None, st, || each!(&mut x, s => {
                        let mut w = String::new();
                        for k in 0..=rest.len().min(40) {
                            let ((lo, hi), left) = (s.size_hint(), rest.len() - k);
                            if lo > left || hi.map_or(false, |h| h < left) { w = format!("{} items left, announced {:?}", left, (lo, hi)); }
                            s.next();
                        }
                        w
                    })), String::new()),
                    _ => {
                        // Equal cursors are interchangeable as keys.
                        use std::hash::{Hash, Hasher};
                        let key = |c: &Real| if let Real::Str(s) = c { let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() } else { 0 };
                        let other = slots[j].as_ref().filter(|y| y.1 == q).map_or(x.copy(), |y| y.0.copy());
                        (act(None, st, || if key(&x) == key(&other) { String::new() } else { "equal cursors have different hashes".into() }), String::new())
                    }
                };
                if let Some(x) = got!("C09", have) { st.add("iterator methods compared", 1); if x != want { bad(&mut v, "C09", "next", who(&format!("{:?} instead of {:?} from item {}", x, want, q))); } }
            }
            "has_next" => {
                let (c, q) = slots[i].as_ref().unwrap();
                let d = act(o.fault, st, || each!(c, s => s.has_next()));
                let q = *q;
                if let Some(x) = got!("C09", d) { if x != (q < cs.len()) { bad(&mut v, "C09", "has_next", who(&format!("{} at item {} of {}", x, q, cs.len()))); } }
            }
            "cmp" => {
                if slots[j].is_none() { continue }
                let ((c, q), (d, w)) = (slots[i].as_ref().unwrap(), slots[j].as_ref().unwrap());
                let (q, w) = (*q, *w);
                let r = act(o.fault, st, || both!(c, d, x, y => (x == y, x != y, x.partial_cmp(y), x.cmp(y), (x < y, x <= y, x > y, x >= y))));
                if let Some(x) = got!("C09", r) {
                    let want = (q == w, q != w, Some(q.cmp(&w)), q.cmp(&w), (q < w, q <= w, q > w, q >= w));
                    if x != want { bad(&mut v, "C09", "order", who(&format!("{:?} instead of {:?} for items {} and {}", x, want, q, w))); }
                }
            }
            "cross" => {
                // A cursor over another text is not before, after or at the same position.
                if txt.is_empty() { continue }
                let other = {
                    let mut t = txt.to_string();
                    // Longer by a character, or as long with another character at the end or in front.
                    let alter = |c: char| match c.len_utf8() { 1 => if c == 'x' { 'y' } else { 'x' }, 2 => if c == 'é' { 'ß' } else { 'é' }, 3 => if c == '€' { '‰' } else { '€' }, _ => if c == '𝄞' { '𐀀' } else { '𝄞' } };
                    match o.n & 3 {
                        0 => t.push('x'),
                        1 => t.insert(0, 'y'),
                        2 => { let c = t.pop().unwrap(); t.push(alter(c)); }
                        _ => { let c = t.remove(0); t.insert(0, alter(c)); }
                    }
                    t
                };
                let spec = SrcSpec::plain(p.src.kind, &other);
                let f2 = if p.src.kind == SK::Fm { Some(file_map(&spec, 25)) } else { None };
                let own2: Rc<String> = match &f2 { Some(f) => f.src.clone().unwrap(), None => crate::alloc::placed(25, || Rc::new(other.clone())) };
                let mut d = match &f2 {
                    None => Real::Str(leak_str(own2.as_str()).stream()),
                    Some(f) => Real::Fm(unsafe { std::mem::transmute::<&Rc<FileMap>, &'static Rc<FileMap>>(f) }.stream()),
                };
                let (c, q) = slots[i].as_ref().unwrap();
                let q = *q;
                if o.n & 16 == 0 { for _ in 0..q { each!(&mut d, s => { s.next(); }); } }
                let r = act(None, st, || both!(c, &d, x, y => match o.n >> 2 & 3 { 0 => x == y, 1 => x < y, 2 => x.cmp(y) == std::cmp::Ordering::Less, _ => y.partial_cmp(x).is_some() }));
                if let Did::Got(x) = r { bad(&mut v, "C09", "unrelated", who(&format!("compared with a cursor over the text {:?}: {}", other, x))); } else { st.add("comparisons of unrelated cursors refused", 1); }
                drop(d);
            }
            "report" => {
                let (c, q) = slots[i].as_ref().unwrap();
                let off = off_of(&cs, *q);
                report(c, o.fault, txt, off, o.n, st, &mut v, &who);
            }
            "every" => {
                // The location and the snippet at every position from here on.
                let (c, q) = slots[i].as_ref().unwrap();
                let mut c = c.copy();
                for k in *q..=cs.len().min(*q + 2 + 600_000 / (cs.len() + 500)) {
                    report(&c, None, txt, off_of(&cs, k), o.n, st, &mut v, &who);
                    if let Did::Panicked(m) = act(None, st, || each!(&mut c, s => s.next())) { bad(&mut v, "C09", "panic", who(&format!("panicked: {}", m))); break }
                }
            }
            "span" => {
                if slots[j].is_none() { continue }
                let ((c, q), (d, w)) = (slots[i].as_ref().unwrap(), slots[j].as_ref().unwrap());
                if q > w { continue }
                let want = (base + off_of(&cs, *q), base + off_of(&cs, *w));
                let r = act(o.fault, st, || both!(c, d, x, y => Range { start: x.clone(), end: y.clone() }.stream_span()));
                if let Some(x) = got!("C12", r) {
                    st.add("spans compared", 1);
                    if (x.lo.0 as usize, x.hi.0 as usize) != want { bad(&mut v, "C12", "span of cursors", who(&format!("{}..{} instead of {}..{}", x.lo.0, x.hi.0, want.0, want.1))); }
                }
            }
            "drop" => { slots[i] = None; }
            _ => {}
        }
        // Every cursor is where it was left: nothing done to one of them moves another.
        let mut moved = vec![];
        for (k, s) in slots.iter_mut().enumerate() {
            if let Some((c, q)) = s {
                let rest: String = cs[*q..].iter().collect();
                let copy = c.copy();
                let r = act(None, st, || each!(copy, x => x.take(cs.len() + 3).collect::<String>()));
                if let Real::Str(x) = c {
                    if x.bytes_offset() != off_of(&cs, *q) { moved.push((k, format!("at byte {} instead of {}", x.bytes_offset(), off_of(&cs, *q)))); continue }
                    match act(None, st, || x.current_char()) { Did::Got(x) if x == cs.get(*q).cloned() => {} Did::Got(x) => { moved.push((k, format!("the current character is {:?}", x))); continue } Did::Panicked(m) => { moved.push((k, format!("current character: panicked: {}", m))); continue } _ => {} }
                }
                match r { Did::Got(x) if x == rest => {} Did::Got(x) => moved.push((k, format!("the rest is {:?} instead of {:?}", x, rest))), Did::Panicked(m) => moved.push((k, format!("panicked: {}", m))), _ => {} }
            }
        }
        for (k, m) in moved { let own = k == i || (o.k == "copy" && k == j); bad(&mut v, "C09", if own { "position" } else { "other cursor moved" }, who(&format!("cursor {} {} (item {} before)", k, m, from))); slots[k] = None; }
        if v.len() > 8 { break }
    }
    if txt != p.src.text || *owned != if fm.is_some() { p.src.text.clone() } else { p.src.around().0 } { bad(&mut v, "C07", "text", format!("the text changed from {:?} to {:?}", p.src.text, owned)); }
    slots.clear();
    if let Some(f) = &fm { if Rc::strong_count(f) != 1 { bad(&mut v, "C07", "live streams", format!("{} references to the source file left", Rc::strong_count(f) - 1)); } }
    (v, tr)
}

fn report(c: &Real, fault: Option<(FK, u64)>, txt: &str, off: usize, n: usize, st: &mut Stats, v: &mut Vec<Bad>, who: &dyn Fn(&str) -> String) {
    st.add("locations and snippets compared", 1);
    match act(fault, st, || each!(c, s => s.location())) {
        Did::Got(x) => {
            let w = model_location(txt, off);
            if let Real::Str(s) = c { match act(None, st, || s.line_column()) { Did::Got((l, k)) => if format!("{}:{}", l, k) != w { bad(v, "C10", "location", who(&format!("byte {} is at line {}, column {} instead of {}", off, l, k, w))) }, Did::Panicked(m) => bad(v, "C10", "panic", who(&format!("line and column of byte {}: panicked: {}", off, m))), _ => {} } }
            if x != w { bad(v, "C10", "location", who(&format!("byte {} is located at {} instead of {}", off, x, w))); } }
        Did::Panicked(m) => bad(v, "C10", "panic", who(&format!("location at byte {} panicked: {}", off, m))),
        _ => {}
    }
    match act(fault, st, || each!(c, s => s.code_snippet(n))) {
        Did::Got(x) => if !snippet_ok(txt, off, n, &x) { bad(v, "C10", "snippet", who(&format!("at most {} bytes at byte {}: {:?}", n, off, x))); },
        Did::Panicked(m) => bad(v, "C10", "panic", who(&format!("snippet of {} at byte {} panicked: {}", n, off, m))),
        _ => {}
    }
}

// ---------------------------------------------------------------- parse states

enum PS { U(ParseState<SimStream, ()>), D(ParseState<SimStream, Tok>) }

#[derive(Clone, Debug)]
struct M { cur: usize, far: usize, exp: Vec<&'static str>, failed: bool, data: Option<u32>, unit: bool, odd: bool }

macro_rules! st2 { ($c:expr, $s:ident => $e:expr) => { match $c { PS::U($s) => $e, PS::D($s) => $e } } }

fn tok(id: usize) -> Tok { Tok::made(id as u32, Arc::new(vec![])) }

fn states(p: &HPlan, st: &mut Stats) -> (Vec<Bad>, u64) {
    let mut v: Vec<Bad> = vec![];
    sched::reset_inline_clock();
    let mut tr = hash_str(&p.src.text);
    let src = Source::new(&p.src, 24);
    let cs = src.items.clone();
    let avail = p.src.delivered() + p.src.ends() as usize;
    let (tok0, str0) = (LIVE_TOK.with(|c| c.get()), LIVE_STREAM.with(|c| c.get()));
    {
        let mut slots: Vec<Option<(PS, M)>> = (0..SLOTS).map(|_| None).collect();
        let mut marks: Vec<Option<(SimStream, usize)>> = (0..SLOTS).map(|_| None).collect();
        for (oi, o) in p.ops.iter().enumerate() {
            let (i, j) = (o.i % SLOTS, o.j % SLOTS);
            if o.k == "new" {
                let s = src.start();
                let d = act(o.fault, st, move || -> ParseState<SimStream, ()> { s.into_state() });
                match d {
                    Did::Got(x) => slots[i] = Some((PS::U(x), M { cur: 0, far: 0, exp: vec![], failed: false, data: None, unit: true, odd: false })),
                    Did::Panicked(m) => bad(&mut v, "C14", "panic", format!("operation {}: a new state panicked: {}", oi, m)),
                    _ => {}
                }
            }
            let (ps, m) = match slots[i].take() { Some(x) => x, None => continue };
            let who = |s: &str| format!("operation {} ({}) of the state {:?} over {:?}: {}", oi, o.sx(), m, p.src.text, s);
            tr = mix(tr, hash_str(&o.k) ^ (m.cur * 64 + m.far) as u64 ^ (m.failed as u64) << 40 ^ (m.data.is_some() as u64) << 41 ^ (m.exp.len() as u64) << 44);
            let mut w = m.clone();
            /// What the operation should do: `None`, panic.
            macro_rules! by_value { ($allowed:expr, $after:expr, $f:expr) => {{
                let allowed: bool = $allowed;
                match act(o.fault, st, || $f) {
                    Did::Got(x) => { if !allowed { bad(&mut v, "C14", "forbidden", who("the protocol forbids it, and it did not panic")); None } else { $after; Some(x) } }
                    Did::Panicked(e) => { if allowed { bad(&mut v, "C14", "panic", who(&format!("panicked: {}", e))); } else { st.add("forbidden operations refused", 1); } None }
                    _ => None,
                }
            }} }
            let mut now: Option<PS> = None;
            match o.k.as_str() {
                "new" => now = Some(ps),
                "drop" => drop(ps),
                "next" => {
                    let mut ps = ps;
                    match act(o.fault, st, || st2!(&mut ps, s => s.next())) {
                        Did::Got(x) => {
                            let want = cs.get(w.cur).cloned();
                            if x != want { bad(&mut v, "C14", "next", who(&format!("read {:?} instead of {:?}", x, want))); }
                            if w.cur < cs.len() { w.cur += 1; }
                        }
                        Did::Panicked(e) => bad(&mut v, "C14", "panic", who(&format!("panicked: {}", e))),
                        Did::Stalled => if w.cur < avail { bad(&mut v, "C14", "waits", who("waits although the item was delivered")) },
                        Did::Injected => {}
                    }
                    now = Some(ps);
                }
                "prefix" => {
                    let mut ps = ps;
                    let pre = leak_str(&o.s);
                    match act(o.fault, st, || st2!(&mut ps, s => s.consume_prefix(pre))) {
                        Did::Got(x) => {
                            let want = consumes(&cs, w.cur, pre);
                            if x != want.is_some() { bad(&mut v, "C14", "prefix", who(&format!("{} instead of {}", x, want.is_some()))); }
                            if let Some(q) = want { w.cur = q; }
                        }
                        Did::Panicked(e) => bad(&mut v, "C14", "panic", who(&format!("panicked: {}", e))),
                        _ => {}
                    }
                    now = Some(ps);
                }
                "error" => {
                    let mut ps = ps;
                    let item = ITEMS[o.n % ITEMS.len()];
                    match act(o.fault, st, || st2!(&mut ps, s => s.error(item))) {
                        Did::Got(()) => {
                            w.failed = true;
                            w.odd = w.data.is_some();
                            // Whether an error discards the data is not laid down; what follows has to fit.
                            if w.odd && !st2!(&ps, s => s.data.is_some()) { w.odd = false; w.data = None; }
                            if w.cur > w.far { w.far = w.cur; w.exp = vec![item]; } else if w.cur == w.far { w.exp.push(item); }
                            now = Some(ps);
                        }
                        Did::Panicked(e) => bad(&mut v, "C14", "panic", who(&format!("panicked: {}", e))),
                        // Cut short in the middle: nothing is promised about the state except that it can be released.
                        _ => {}
                    }
                }
                "flags" => {
                    let f = st2!(&ps, s => (s.is_failed(), s.is_successful()));
                    if f != (w.failed, !w.failed) { bad(&mut v, "C14", "status", who(&format!("is_failed, is_successful: {:?}", f))); }
                    now = Some(ps);
                }
                "success" => {
                    let d = o.n;
                    let tk = tok(d);
                    now = by_value!(true, { w.failed = false; w.data = Some(d as u32); w.unit = false; w.odd = false; }, st2!(ps, s => PS::D(s.success(tk))));
                }
                "failure" => {
                    now = by_value!(true, { w.failed = true; w.data = None; w.unit = o.n == 0; w.odd = false; }, if o.n == 0 { st2!(ps, s => PS::U(s.failure())) } else { st2!(ps, s => PS::D(s.failure())) });
                }
                "unit" => {
                    // A successful recognition: unit data, then discarded.
                    now = by_value!(true, { w.failed = false; w.data = None; w.unit = true; w.odd = false; }, st2!(ps, s => { let mut x = s.success(()); x.discard_data(); PS::U(x) }));
                }
                "mark" => {
                    let allowed = !w.failed;
                    match act(o.fault, st, || st2!(&ps, s => s.mark())) {
                        Did::Got(x) => {
                            if !allowed { bad(&mut v, "C14", "forbidden", who("a failed state was marked")); }
                            else {
                                let at = x.real_pos();
                                if at != src.off[w.cur] { bad(&mut v, "C14", "mark", who(&format!("marked byte {}", at))); }
                                marks[j] = Some((x, w.cur));
                            }
                        }
                        Did::Panicked(e) => if allowed { bad(&mut v, "C14", "panic", who(&format!("panicked: {}", e))) } else { st.add("forbidden operations refused", 1) },
                        _ => {}
                    }
                    now = Some(ps);
                }
                "restore" | "restore_failure" => {
                    let (mk, at) = match &marks[j] { Some((x, y)) => (x, *y), None => { slots[i] = Some((ps, m)); continue } };
                    let f = o.k == "restore_failure";
                    let allowed = w.data.is_none() && (!f || w.failed);
                    // The mark is kept for later: going back to it again must work.
                    now = by_value!(allowed, { w.failed = false; w.cur = at; w.data = None; w.unit = true; }, st2!(ps, s => { let k = mk.clone(); PS::U(if f { s.restore_from_failure(k) } else { s.restore(k) }) }));
                    if o.n == 1 { marks[j] = None; }
                }
                "extract" => {
                    let allowed = !w.failed && w.data.is_some();
                    let want = w.data;
                    let got = by_value!(allowed, { w.data = None; w.unit = true; }, match ps {
                        PS::U(s) => { let (s, ()) = s.extract_data(); (s, None) }
                        PS::D(s) => { let (s, d) = s.extract_data(); (s, Some(d.id)) }
                    });
                    if let Some((s, d)) = got {
                        if d != want { bad(&mut v, "C14", "data", who(&format!("extracted {:?} instead of {:?}", d, want))); }
                        now = Some(PS::U(s));
                    }
                }
                "unwrap" => {
                    let allowed = w.data.is_some();
                    let want = w.data;
                    let got = by_value!(allowed, {}, match ps { PS::U(s) => { s.unwrap_data(); None } PS::D(s) => Some(s.unwrap_data().id) });
                    if let Some(d) = got { if d != want { bad(&mut v, "C14", "data", who(&format!("unwrapped {:?} instead of {:?}", d, want))); } }
                }
                "result" => {
                    let allowed = w.data.is_some() || w.failed;
                    let want = (w.data, w.cur < cs.len());
                    // The result as printed, and the report in it.
                    macro_rules! took { ($r:expr, $id:expr) => {{ let r = $r; let all = format!("{:?}", r); match r { ParseResult::Success(d) => (0, $id(d), None, all), ParseResult::Partial(d, e) => (1, $id(d), Some(format!("{:?}", e)), all), ParseResult::Failure(e) => (2, None, Some(format!("{:?}", e)), all) } }} }
                    let got = by_value!(allowed, {}, match ps {
                        PS::U(s) => took!(s.into_result(), |_: ()| None),
                        PS::D(s) => took!(s.into_result(), |d: Tok| Some(d.id)),
                    });
                    if let Some((c, d, rep, all)) = got {
                        let wc = if want.0.is_none() { 2 } else if want.1 { 1 } else { 0 };
                        if (c, d) != (wc, want.0) { bad(&mut v, "C14", "result", who(&format!("result {} with data {:?} instead of {} with {:?} (0 success, 1 partial, 2 failure)", c, d, wc, want.0))); }
                        else if let Some(rep) = rep {
                            let items: BTreeSet<&str> = w.exp.iter().cloned().collect();
                            let items: Vec<String> = items.into_iter().map(|x| x.to_string()).collect();
                            if p.src.kind != SK::Net { if let Err(e) = report_ok(&p.src.text, src.off[w.far], &items, &rep) { bad(&mut v, "C10", "report", who(&e)); bad(&mut v, "C14", "result report", who(&e)); } }
                            if all.matches(rep.as_str()).count() != 1 { bad(&mut v, "C10", "report", who(&format!("the result is printed as {:?}, without its report {:?}", all, rep))); }
                            st.add("results compared", 1);
                        }
                    }
                }
                _ => {}
            }
            // The observable state is the model's.
            if let Some(s) = now {
                let mut exp: Vec<String> = st2!(&s, x => x.expected.iter().map(|y| y.to_string()).collect());
                let mut wexp: Vec<String> = w.exp.iter().map(|y| y.to_string()).collect();
                exp.sort(); exp.dedup(); wexp.sort(); wexp.dedup();
                let have = st2!(&s, x => (x.failed, x.current.real_pos(), x.farthest_read.real_pos()));
                let data = match &s { PS::U(x) => x.data.as_ref().map(|_| u32::MAX), PS::D(x) => x.data.as_ref().map(|d| d.id) };
                let want = (w.failed, src.off[w.cur], src.off[w.far]);
                if have != want { bad(&mut v, "C14", "state", who(&format!("(failed, position, farthest) {:?} instead of {:?}", have, want))); }
                else if exp != wexp { bad(&mut v, "C14", "expectations", who(&format!("{:?} instead of {:?}", exp, wexp))); }
                else if data != w.data && !w.odd { bad(&mut v, "C14", "data", who(&format!("{:?} instead of {:?}", data, w.data))); }
                else { slots[i] = Some((s, w)); }
            }
            // Exactly the data the states hold is alive.
            let want: i64 = slots.iter().flatten().filter(|x| !x.1.odd && x.1.data.is_some()).count() as i64;
            let odd: i64 = slots.iter().flatten().filter(|x| x.1.odd).count() as i64;
            let have = LIVE_TOK.with(|c| c.get()) - tok0;
            if have < want || have > want + odd { bad(&mut v, "C14", "release", format!("operation {} ({}): {} values alive, the states hold {}", oi, o.sx(), have, want)); break }
            if v.len() > 8 { break }
        }
    }
    let (a1, b1) = (LIVE_TOK.with(|c| c.get()) - tok0, LIVE_STREAM.with(|c| c.get()) - str0);
    if a1 != 0 || b1 != 0 || Rc::strong_count(&src) != 1 { bad(&mut v, "C14", "release", format!("at the end of the history {} values and {} stream handles are alive", a1, b1)); }
    LIVE_TOK.with(|c| c.set(tok0));
    LIVE_STREAM.with(|c| c.set(str0));
    st.add("simulated time", sched::now());
    (v, tr)
}

// ---------------------------------------------------------------- shrinking

pub fn shrink(p: &HPlan) -> Vec<HPlan> {
    let mut v = vec![];
    let n = p.ops.len();
    for c in [n / 2, n / 4, 8, 4, 2, 1] {
        if c == 0 || c > n { continue }
        let mut i = 0;
        while i < n { let mut q = p.clone(); q.ops.drain(i..(i + c).min(n)); v.push(q); i += c; }
    }
    for i in 0..n {
        if p.ops[i].fault.is_some() { let mut q = p.clone(); q.ops[i].fault = None; v.push(q); }
        if p.ops[i].n > 1 && matches!(p.ops[i].k.as_str(), "next" | "nth" | "report") { let mut q = p.clone(); q.ops[i].n = p.ops[i].n / 2; v.push(q); }
        let cs: Vec<char> = p.ops[i].s.chars().collect();
        for c in cuts(cs.len()) { for k in 0..cs.len() / c { let mut w = cs.clone(); w.drain(k * c..k * c + c); let mut q = p.clone(); q.ops[i].s = w.into_iter().collect(); v.push(q); } }
    }
    let cs: Vec<char> = p.src.text.chars().collect();
    if p.src.kind == SK::Net && p.src.ends() && (p.src.pieces.len() > 1 || p.src.eof != Some(0)) { let mut q = p.clone(); q.src.pieces = vec![(0, cs.len())]; q.src.eof = Some(0); v.push(q); }
    if p.src.base != 0 { let mut q = p.clone(); q.src.base = p.src.base / 2; v.push(q); }
    if p.src.kind != SK::Net || p.src.pieces.len() == 1 {
        for c in cuts(cs.len()) {
            let mut k = 0;
            while k + c <= cs.len() {
                let mut w = cs.clone();
                w.drain(k..k + c);
                let mut q = p.clone();
                if p.src.pieces.len() == 1 { q.src.pieces = vec![(p.src.pieces[0].0, p.src.pieces[0].1.saturating_sub(c).min(w.len()))]; }
                q.src.text = w.into_iter().collect();
                if q.src.kind != SK::Net { q.src.pieces = vec![(0, q.src.text.chars().count())]; }
                v.push(q);
                k += c;
            }
        }
    }
    if cs.len() <= 300 { for k in 0..cs.len() { if cs[k] != 'a' { let mut w = cs.clone(); w[k] = 'a'; let mut q = p.clone(); q.src.text = w.into_iter().collect(); v.push(q); } } }
    v
}
