//! The simulated stream: the seam through which the system under test gets its input.
use crate::ctx::{self, OpK};
use crate::sexp::*;
use oak_runtime::file_map_stream::FileMapStream;
use oak_runtime::stream::*;
use oak_runtime::str_stream::StrStream;
use oak_runtime::{make_span, Span};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::Range;
use std::rc::Rc;
use syntex_pos::{BytePos, FileMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SK { Net, Str, Fm }

/// What a source delivers, and when (simulated time of each piece).
#[derive(Clone, Debug, PartialEq)]
pub struct SrcSpec {
    pub kind: SK,
    /// Absolute position of the first byte (source files).
    pub base: u32,
    pub text: String,
    /// Pieces: arrival time, number of items. Items not covered never arrive.
    pub pieces: Vec<(u64, usize)>,
    /// Arrival of the end; `None`: the end is never delivered.
    pub eof: Option<u64>,
    /// The transport faults that produced this delivery (for the record).
    pub note: String,
}

/// Where a file starts within the positions of all files. Positions are 32 bits wide: files are placed around the boundaries of narrower integers as well, and at the end of what fits.
pub fn file_base(r: &mut crate::rng::Rng, len: usize) -> u32 {
    let end = u32::MAX as u64 - len as u64 - 16;
    let b = match r.below(8) {
        0 => [1u64 << 8, 1 << 16, 1 << 24, 1 << 31][r.below(4)].saturating_sub(r.below(len + 2) as u64),
        1 => end - r.below(1 << 8) as u64,
        2 => r.below(1 << 31) as u64,
        3 => r.below(1 << 8) as u64,
        _ => r.below(100_000) as u64,
    };
    b.min(end) as u32
}

impl SrcSpec {
    /// A text of its own, or a part of a longer one (which is said by `base`): the text in memory and where the part is.
    pub fn around(&self) -> (String, Range<usize>) {
        if self.kind != SK::Str || self.base == 0 { return (self.text.clone(), 0..self.text.len()) }
        let n = self.base as usize;
        let mut s: String = "a\n\u{e9}(\u{1f600}b ".chars().cycle().skip(n % 5).take(n % 11).collect();
        let lo = s.len();
        s.push_str(&self.text);
        let hi = s.len();
        s.extend("ab\u{301}\n\u{10ffff}0)".chars().cycle().skip(n / 11 % 5).take(n / 11 % 13));
        (s, lo..hi)
    }
    pub fn plain(kind: SK, text: &str) -> SrcSpec {
        SrcSpec { kind, base: 0, text: text.to_string(), pieces: vec![(0, text.chars().count())], eof: Some(0), note: String::new() }
    }
    pub fn sx(&self) -> S {
        t("src", vec![a(match self.kind { SK::Net => "net", SK::Str => "str", SK::Fm => "fm" }), a(self.base), S::A(self.text.clone()),
            t("pieces", self.pieces.iter().map(|(x, n)| l(vec![a(x), a(n)])).collect()),
            match self.eof { None => a("never"), Some(x) => a(x) }, S::A(self.note.clone())])
    }
    pub fn of(s: &S) -> SrcSpec {
        let r = s.rest();
        SrcSpec {
            kind: match r[0].atom() { "net" => SK::Net, "str" => SK::Str, _ => SK::Fm }, base: r[1].num(), text: r[2].atom().to_string(),
            pieces: r[3].rest().iter().map(|p| (p.list()[0].num(), p.list()[1].num())).collect(),
            eof: if r[4].atom() == "never" { None } else { Some(r[4].num()) }, note: r[5].atom().to_string(),
        }
    }
    /// Items delivered in finite time.
    pub fn delivered(&self) -> usize {
        if self.kind != SK::Net { return self.text.chars().count() }
        self.pieces.iter().map(|p| p.1).sum::<usize>().min(self.text.chars().count())
    }
    pub fn ends(&self) -> bool { self.kind != SK::Net || (self.eof.is_some() && self.delivered() == self.text.chars().count()) }
}

pub struct Source {
    pub spec: SrcSpec,
    pub items: Vec<char>,
    pub off: Vec<usize>,
    /// Arrival time of each item.
    at: Vec<Option<u64>>,
    text: Option<(Rc<String>, Range<usize>)>,
    fm: Option<Rc<FileMap>>,
    /// Number of items asked for so far, the end counting as one (reset at the start of each parse).
    pub max_req: Cell<usize>,
}

pub fn file_map(spec: &SrcSpec, slot: usize) -> Rc<FileMap> {
    crate::alloc::placed(slot, || Rc::new(FileMap {
        name: "sim".into(), abs_path: None, src: Some(Rc::new(spec.text.clone())), start_pos: BytePos(spec.base),
        end_pos: BytePos(spec.base + spec.text.len() as u32), lines: Default::default(), multibyte_chars: Default::default(),
    }))
}

impl Source {
    /// The text is put into the given place in memory.
    pub fn new(spec: &SrcSpec, slot: usize) -> Rc<Source> {
        let items: Vec<char> = spec.text.chars().collect();
        let mut off = vec![0];
        for c in &items { let l = off[off.len() - 1] + c.len_utf8(); off.push(l); }
        let mut at = vec![];
        for (when, n) in &spec.pieces { for _ in 0..*n { at.push(Some(*when)); } }
        at.resize(items.len(), None);
        at.push(if at.iter().all(|x| x.is_some()) { spec.eof } else { None });
        let (text, fm) = match spec.kind {
            SK::Net => (None, None),
            SK::Str => (Some(crate::alloc::placed(slot, || { let (s, r) = spec.around(); (Rc::new(s), r) })), None),
            SK::Fm => (None, Some(file_map(spec, slot))),
        };
        Rc::new(Source { spec: spec.clone(), items, off, at, text, fm, max_req: Cell::new(0) })
    }
    /// The text in memory, which nothing may change.
    pub fn text_is(&self, s: &str) -> bool {
        match (&self.text, &self.fm) { (Some((t, r)), _) => t.as_str() == self.spec.around().0 && &t[r.clone()] == s, (_, Some(f)) => f.src.as_ref().map_or(false, |t| t.as_str() == s), _ => true }
    }
    pub fn fm_refs(&self) -> usize { self.fm.as_ref().map_or(1, Rc::strong_count) }
    pub fn start(self: &Rc<Source>) -> SimStream {
        let cur = match self.spec.kind {
            SK::Net => Cur::Net,
            SK::Str => {
                let (t, r) = self.text.as_ref().unwrap();
                let t: &'static String = unsafe { std::mem::transmute::<&String, &'static String>(t) };
                Cur::Str(if self.spec.base == 0 && r.end & 1 == 0 { t.stream() } else { t[r.clone()].stream() })
            }
            SK::Fm => {
                let r: &Rc<FileMap> = self.fm.as_ref().unwrap();
                let r: &'static Rc<FileMap> = unsafe { std::mem::transmute::<&Rc<FileMap>, &'static Rc<FileMap>>(r) };
                Cur::Fm(r.stream())
            }
        };
        SimStream { src: self.clone(), cur, idx: 0, _live: Live::new() }
    }
    fn demand(&self, n: usize) {
        if n > self.max_req.get() { self.max_req.set(n); }
        if self.spec.kind == SK::Net { let i = n.min(self.items.len() + 1) - 1; ctx::await_until(self.at[i]); }
    }
    /// The number of items that `consume_prefix` has to see, and whether it succeeds.
    fn prefix(&self, idx: usize, p: &str) -> (usize, bool) {
        let mut i = idx;
        for c in p.chars() {
            if i >= self.items.len() || self.items[i] != c { return (i + 1, false) }
            i += 1;
        }
        (i, true)
    }
}

pub struct Live;
impl Live { fn new() -> Live { ctx::LIVE_STREAM.with(|c| c.set(c.get() + 1)); Live } }
impl Drop for Live { fn drop(&mut self) { ctx::LIVE_STREAM.with(|c| c.set(c.get() - 1)); } }

enum Cur { Net, Str(StrStream<'static>), Fm(FileMapStream<'static>) }

pub struct SimStream { src: Rc<Source>, cur: Cur, idx: usize, _live: Live }

impl SimStream {
    /// Byte position, as the underlying cursor tells it.
    pub fn real_pos(&self) -> usize {
        match &self.cur {
            Cur::Net => self.src.off[self.idx],
            Cur::Str(s) => s.bytes_offset(),
            Cur::Fm(s) => (Range { start: s.clone(), end: s.clone() }.stream_span().lo.0).wrapping_sub(self.src.spec.base) as usize,
        }
    }
    pub fn source(&self) -> &Rc<Source> { &self.src }
}

impl Clone for SimStream {
    fn clone(&self) -> SimStream {
        ctx::op(OpK::Clone, self.idx);
        let cur = match &self.cur { Cur::Net => Cur::Net, Cur::Str(s) => Cur::Str(s.clone()), Cur::Fm(s) => Cur::Fm(s.clone()) };
        SimStream { src: self.src.clone(), cur, idx: self.idx, _live: Live::new() }
    }
}

impl Stream for SimStream { type Output = SimStream; fn stream(self) -> SimStream { self } }

impl Iterator for SimStream {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        ctx::op(OpK::Next, self.idx);
        self.src.demand(self.idx + 1);
        let r = match &mut self.cur { Cur::Net => self.src.items.get(self.idx).cloned(), Cur::Str(s) => s.next(), Cur::Fm(s) => s.next() };
        if r.is_some() && self.idx < self.src.items.len() { self.idx += 1; }
        r
    }
}

impl ConsumePrefix<&'static str> for SimStream {
    fn consume_prefix(&mut self, p: &'static str) -> bool {
        ctx::op(OpK::Prefix, self.idx);
        let (need, ok) = self.src.prefix(self.idx, p);
        if need > self.idx { for n in self.idx + 1..=need { self.src.demand(n); } }
        let r = match &mut self.cur { Cur::Net => ok, Cur::Str(s) => s.consume_prefix(p), Cur::Fm(s) => s.consume_prefix(p) };
        if r { self.idx = (self.idx + p.chars().count()).min(self.src.items.len()); }
        r
    }
}

impl HasNext for SimStream {
    fn has_next(&self) -> bool {
        ctx::op(OpK::HasNext, self.idx);
        self.src.demand(self.idx + 1);
        match &self.cur { Cur::Net => self.idx < self.src.items.len(), Cur::Str(s) => s.has_next(), Cur::Fm(s) => s.has_next() }
    }
}

impl PartialEq for SimStream { fn eq(&self, o: &SimStream) -> bool {
    ctx::op(OpK::Cmp, self.idx);
    match (&self.cur, &o.cur) { (Cur::Str(x), Cur::Str(y)) => x == y, (Cur::Fm(x), Cur::Fm(y)) => x == y, _ => self.idx == o.idx }
} }
impl Eq for SimStream {}
impl PartialOrd for SimStream { fn partial_cmp(&self, o: &SimStream) -> Option<Ordering> {
    ctx::op(OpK::Cmp, self.idx);
    match (&self.cur, &o.cur) { (Cur::Str(x), Cur::Str(y)) => x.partial_cmp(y), (Cur::Fm(x), Cur::Fm(y)) => x.partial_cmp(y), _ => self.idx.partial_cmp(&o.idx) }
} }
impl Ord for SimStream { fn cmp(&self, o: &SimStream) -> Ordering {
    ctx::op(OpK::Cmp, self.idx);
    match (&self.cur, &o.cur) { (Cur::Str(x), Cur::Str(y)) => x.cmp(y), (Cur::Fm(x), Cur::Fm(y)) => x.cmp(y), _ => self.idx.cmp(&o.idx) }
} }

impl Location for SimStream { fn location(&self) -> String {
    match &self.cur { Cur::Net => format!("net:{}", self.idx), Cur::Str(s) => s.location(), Cur::Fm(s) => s.location() }
} }
impl CodeSnippet for SimStream { fn code_snippet(&self, n: usize) -> String {
    match &self.cur { Cur::Net => self.src.items[self.idx..].iter().take(n).collect(), Cur::Str(s) => s.code_snippet(n), Cur::Fm(s) => s.code_snippet(n) }
} }
/// The coherence rules of Rust do not let `StreamSpan` be implemented for `Range<SimStream>` outside of the runtime:
/// the runtime has a hook for that (`--cfg oak_sim`).
impl SimSpan for SimStream {
    type Output = Span;
    fn sim_span(r: &Range<SimStream>) -> Span {
        match (&r.start.cur, &r.end.cur) {
            (Cur::Str(x), Cur::Str(y)) => Range { start: x.clone(), end: y.clone() }.stream_span(),
            (Cur::Fm(x), Cur::Fm(y)) => Range { start: x.clone(), end: y.clone() }.stream_span(),
            _ => { let b = r.start.src.spec.base as usize; make_span(b + r.start.real_pos(), b + r.end.real_pos()) }
        }
    }
}
