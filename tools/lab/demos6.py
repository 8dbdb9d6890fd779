from specs import HEAD
FMH='''extern crate syntex_pos;
use std::rc::Rc;
use std::cell::RefCell;
use syntex_pos::{FileMap, BytePos};
fn file(text: &str) -> Rc<FileMap> {
  Rc::new(FileMap {
    name: "f".to_string(), abs_path: None, src: Some(Rc::new(text.to_string())),
    start_pos: BytePos(0), end_pos: BytePos(text.len() as u32), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![])
  })
}
'''
# A stream whose operations run user code: the reading position is shared by nothing else.
USR='''
use std::cell::Cell;
use std::cmp::Ordering;
thread_local!(static HOOK: Cell<u32> = Cell::new(0));
fn hook(bit: u32) {
  let h = HOOK.with(|h| h.get());
  if h & bit != 0 {
    HOOK.with(|h| h.set(0));
    user();
    HOOK.with(|h| h.set(h.get() | 0));
  }
}
struct Us { text: &'static [u8], pos: usize }
impl Clone for Us { fn clone(&self) -> Us { hook(1); Us { text: self.text, pos: self.pos } } }
impl PartialEq for Us { fn eq(&self, o: &Us) -> bool { self.pos == o.pos } }
impl Eq for Us {}
impl PartialOrd for Us { fn partial_cmp(&self, o: &Us) -> Option<Ordering> { hook(2); self.pos.partial_cmp(&o.pos) } }
impl Ord for Us { fn cmp(&self, o: &Us) -> Ordering { hook(2); self.pos.cmp(&o.pos) } }
impl Iterator for Us { type Item = char; fn next(&mut self) -> Option<char> { let c = self.text.get(self.pos).map(|b| *b as char); if c.is_some() { self.pos += 1; } c } }
impl HasNext for Us { fn has_next(&self) -> bool { self.pos < self.text.len() } }
impl ConsumePrefix<&'static str> for Us { fn consume_prefix(&mut self, p: &'static str) -> bool { hook(4); if self.text[self.pos..].starts_with(p.as_bytes()) { self.pos += p.len(); true } else { false } } }
impl Location for Us { fn location(&self) -> String { self.pos.to_string() } }
impl CodeSnippet for Us { fn code_snippet(&self, _n: usize) -> String { String::new() } }
'''
D={
'c01-ascii-bitmap':'''
oak! {
  r = ["abxyz_"] .
  s = ["a0cC_"]
}
fn main() {
  assert!(recognize_s("a".into_state()).is_successful());
  assert!(recognize_s("\\u{e1}".into_state()).is_failed(), "U+00E1 is not in the class");
  assert!(recognize_s("\\u{10330}".into_state()).is_failed());
}
''',
'c01-chunked-literal':'''
oak! {
  r = "abcdefghijklmnopqrst" !.
}
fn main() {
  assert!(recognize_r("abcdefghijklmnopqrst".into_state()).is_successful());
  assert!(recognize_r("abcdefghijklmnopqrsX".into_state()).is_failed(), "the end of the literal does not match");
}
''',
'c02-literal-class':'''
oak! {
  r = ["a"] / ["b-c"]
}
fn main() {
  let mut p = parse_r("x".into_state()).expected; p.sort(); p.dedup();
  let mut q = recognize_r("x".into_state()).expected; q.sort(); q.dedup();
  assert_eq!(p, q, "the parser and the recognizer expect different items");
}
''',
'c05-adjacent-range':'''
oak! {
  r = ["0-1"]
}
fn main() {
  match recognize_r("x".into_state()).into_result() {
    Failure(e) => assert_eq!(e.expected_items(), "`[\\"0-1\\"]`"),
    _ => panic!()
  }
}
''',
'c05-stale-farthest':'''
oak! {
  r = (%s) / "last"
}
fn main() {
  let e = match recognize_r("x".into_state()).into_result() { Failure(e) => e.expected_items(), _ => panic!() };
  assert!(e.contains("`last`"), "an expected item is missing: {}", e);
}
''' % ' / '.join('"w%02d"'%i for i in range(70)),
'c07-depth':USR+'''
fn user() { panic!("the stream is interrupted") }
oak! {
  pub type Stream = Us;
  r = ("a" "b")* "c"
}
fn main() {
  ::std::panic::set_hook(Box::new(|_| ()));
  for _ in 0..40 {
    HOOK.with(|h| h.set(1));
    let r = ::std::panic::catch_unwind(|| { let s: ParseState<Us, ()> = ParseState { farthest_read: Us { text: b"ababc", pos: 0 }, expected: vec![], failed: false, current: Us { text: b"ababc", pos: 0 }, data: None }; parse_r(s); });
    assert!(r.is_err());
  }
  HOOK.with(|h| h.set(0));
  let s: ParseState<Us, ()> = ParseState::new(Us { text: b"ababc", pos: 0 });
  assert!(parse_r(s).is_successful(), "interrupted parses must not count for later ones");
}
''',
'c08-lock-error':USR+'''
fn user() { assert!(inner::recognize_inner("x".into_state()).is_failed()); }
mod inner {
  use oak::oak;
  oak! { inner = "a" }
}
oak! {
  pub type Stream = Us;
  r = "a" / "b"
}
fn main() {
  HOOK.with(|h| h.set(2));
  let s: ParseState<Us, ()> = ParseState::new(Us { text: b"b", pos: 0 });
  let t = ::std::thread::spawn(|| { ::std::thread::sleep(::std::time::Duration::from_secs(5)); eprintln!("blocked"); ::std::process::exit(1) });
  HOOK.with(|h| h.set(2));
  assert!(recognize_r(s).is_successful());
}
''',
'c08-scratch-borrow':USR+'''
fn user() { assert!(inner::recognize_inner("x".into_state()).is_failed()); }
mod inner {
  use oak::oak;
  oak! { inner = "a" }
}
oak! {
  pub type Stream = Us;
  r = "a" / "b"
}
fn main() {
  let s: ParseState<Us, ()> = ParseState::new(Us { text: b"b", pos: 0 });
  HOOK.with(|h| h.set(4));
  assert!(recognize_r(s).is_successful());
}
''',
'c09-same-length':'''
fn main() {
  let (a, b) = ("abc".to_string(), "abd".to_string());
  let (x, y) = (a.as_str().stream(), b.as_str().stream());
  let r = ::std::panic::catch_unwind(move || { let _ = x == y; });
  assert!(r.is_err(), "cursors of two different texts are compared");
}
''',
'c10-eof-line':'''
fn main() {
  let mut s = "ab\\n".stream();
  while s.next().is_some() {}
  assert_eq!(s.location(), "2:1");
}
''',
'c10-escape':'''
oak! {
  r = "a`b"
}
fn main() {
  match recognize_r("x".into_state()).into_result() {
    Failure(e) => assert_eq!(e.expected_items(), "`a`b`"),
    _ => panic!()
  }
}
''',
'c12-u16':FMH+'''
fn main() {
  let text: String = ::std::iter::repeat('a').take(70_000).collect();
  let f = file(&text);
  let mut s = (&f).stream();
  while s.next().is_some() {}
  let e = s.clone();
  let span = Range { start: (&f).stream(), end: e }.stream_span();
  assert_eq!((span.lo, span.hi), (BytePos(0), BytePos(70_000)));
}
''',
'c12-trailing-newline':'''
fn main() {
  let s = "a\\r\\nb".stream();
  let mut e = s.clone();
  for _ in 0..3 { e.next(); }
  let span = Range { start: s, end: e }.stream_span();
  assert_eq!(span.hi.0 - span.lo.0, 3, "the matched text is `a\\r\\n`");
}
''',
'c14-error-behind':'''
fn main() {
  let mut s: ParseState<StrStream, ()> = "abc".into_state();
  let start = s.mark();
  s.next(); s.next();
  let s = s.error("x");
  let mut s = s.restore(start);
  s.expected.clear();
  let s = s.error("y");
  assert!(s.expected.is_empty(), "`y` was not expected at the farthest position: {:?}", s.expected);
}
''',
'c14-next-clears':'''
fn main() {
  let mut s: ParseState<StrStream, u32> = "a".into_state();
  s.data = Some(3);
  assert_eq!(s.next(), Some('a'));
  assert_eq!(s.next(), None);
  assert_eq!(s.data, Some(3), "reading does not touch the data");
}
''',
}
