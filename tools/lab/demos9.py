from demos6 import FMH
FM2=FMH.replace('fn file(text: &str)','fn file(text: &str, start: u32)').replace('BytePos(0), end_pos: BytePos(text.len() as u32)','BytePos(start), end_pos: BytePos(start + text.len() as u32)')
D9={
'c01-depth-limit':'''
oak! {
  r = "(" r ")" / "x"
}
fn main() {
  let t = format!("{}x{}", "(".repeat(800), ")".repeat(800));
  let t = Box::leak(t.into_boxed_str());
  std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    assert!(recognize_r((&*t).into_state()).is_successful(), "nested 800 deep");
  }).unwrap().join().unwrap();
}
''',
'c09-offset-u16':'''
fn main() {
  let t = "a".repeat(70_000);
  let mut s = t.as_str().stream();
  for _ in 0..10 { s.next(); }
  let early = s.clone();
  for _ in 0..65_530 { s.next(); }
  assert!(s > early, "{} is behind {}", s.bytes_offset(), early.bytes_offset());
}
''',
'c09-filemap-abs':FM2+'''
fn main() {
  let (f, g) = (file("abc", 0), file("abc", 4));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (&f).stream() < (&g).stream()));
  assert!(r.is_err(), "cursors of different files are compared");
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Ord::cmp(&(&f).stream(), &(&g).stream())));
  assert!(r.is_err(), "cursors of different files are compared");
}
''',
'c10-registered-names':FM2+'''
fn main() {
  let f = file("a\\nb\\n", 0);
  (&f).stream();
  assert_eq!(f.count_lines(), 2);
  let g = file("a\\nb\\nc\\n", 0);
  (&g).stream();
  assert_eq!(g.count_lines(), 3, "the lines of the second file");
}
''',
'c12-cached-start':FM2+'''
fn main() {
  for start in 0..50 {
    let f = file("abc", start * 100);
    let s = (&f).stream();
    let mut e = s.clone();
    e.next();
    let span = Range { start: s, end: e }.stream_span();
    assert_eq!(span.lo.0, start * 100);
    assert_eq!(span.hi.0, start * 100 + 1);
  }
}
''',
'c08-quiet-nested':'''
oak! {
  r = "a" / "b" / "c"
}
fn nested(depth: u32) -> String {
  let s: ParseState<StrStream, ()> = "x".into_state();
  let inner = if depth > 0 { nested(depth - 1) } else { String::new() };
  match recognize_r(s).into_result() {
    Failure(e) => { let m = e.expected_items(); if depth > 0 { assert_eq!(m, inner); } m }
    _ => panic!()
  }
}
fn main() {
  assert_eq!(nested(0), "`a` or `b` or `c`");
  assert_eq!(nested(6), "`a` or `b` or `c`");
}
''',
'c14-forward-mark':'''
fn main() {
  let mut s: ParseState<StrStream, ()> = "abc".into_state();
  let start = s.mark();
  s.next(); s.next();
  let ahead = s.mark();
  let s = s.restore(start).restore(ahead);
  assert_eq!(s.current.bytes_offset(), 2);
}
''',
'c03-span-swap':'''
oak! {
  r = ...(["a-z"] ["a-z"])
}
fn main() {
  let (_, a, b) = parse_r("xy".into_state()).unwrap_data();
  assert_eq!((a, b), ('x', 'y'));
}
''',
'c06-range-nullable':'''
oak! {
  r = (...("a"?))*
}
fn main() {}
''',
'c01-class-edge':'''
oak! {
  r = ["\\u{D000}-\\u{D7FF}"]
  s = ["\\u{10000}-\\u{10FFFF}"]
}
fn main() {
  assert!(recognize_r("\\u{D7FE}".into_state()).is_successful());
  assert!(recognize_r("\\u{D7FF}".into_state()).is_successful());
  assert!(recognize_s("\\u{10FFFF}".into_state()).is_successful());
}
''',
}
