HEAD='''#![allow(warnings)]
extern crate oak;
extern crate oak_runtime;
use oak::oak;
use oak_runtime::*;
use oak_runtime::ParseResult::*;
'''
BE='src/liboak/back/compiler/'
RT='runtime/src/'
WF='src/liboak/middle/analysis/well_formedness.rs'
BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=HEAD+demo,needs=needs,breaks=breaks,**k))

bug('c01-choice-retry','C01',[
 ('src/liboak/back/continuation.rs','let s: syn::Expr = parse_quote!({#before_success #success});',
  'let s: syn::Expr = parse_quote!({ let state = #success; if state.is_successful() { #before_success } state });')],
'''
oak! {
  r = "a" ("b" / "bc") "d"
}
fn main() {
  let s = recognize_r("abcd".into_state());
  // PEG: the first branch matches, so the second is never tried.
  assert!(s.is_failed(), "ordered choice was retried after its continuation failed");
  assert!(recognize_r("abd".into_state()).is_successful());
}
''',
'a choice whose first branch matches, whose continuation then fails, and whose later branch would let the continuation succeed',
'a choice is retried when what follows it fails (full backtracking instead of ordered choice)')

bug('c01-not-keeps-partial','C01',[
 (BE+'syntactic_predicate.rs','state = state.restore(#mark);','state = if is_success { state.restore(#mark) } else { let here = state.current.clone(); state.restore(here) };')],
'''
oak! {
  r = !("a" "b") "a" "c"
}
fn main() {
  assert!(recognize_r("ac".into_state()).is_successful(), "a predicate that fails half-way must not consume");
  assert!(recognize_r("ab".into_state()).is_failed());
}
''',
'a syntactic predicate whose expression fails after it consumed a part of the input',
'the position is not restored after the expression of a predicate fails half-way')

bug('c05-fused-literals','C05',[
 (BE+'sequence.rs','''impl SequenceCompiler
{
  pub fn recognizer(seq: Vec<usize>) -> SequenceCompiler {''','''pub struct FusedLiterals
{
  first: String,
  second: String
}

impl CompileExpr for FusedLiterals
{
  fn compile_expr<'a>(&self, _context: &mut Context<'a>,
    continuation: Continuation) -> syn::Expr
  {
    let first = self.first.as_str();
    let both = format!("{}{}", self.first, self.second);
    let both = both.as_str();
    continuation
      .map_success(|success, failure| parse_quote!(
        if state.consume_prefix(#both) {
          #success
        }
        else {
          state.error(#first);
          #failure
        }
      ))
      .unwrap_success()
  }
}

impl SequenceCompiler
{
  /// Two literals in a row are recognized in one step.
  pub fn fused(first: String, second: String) -> FusedLiterals {
    FusedLiterals { first, second }
  }

  pub fn recognizer(seq: Vec<usize>) -> SequenceCompiler {'''),
 (BE+'mod.rs','    Sequence(seq) => Box::new(SequenceCompiler::recognizer(seq)),\n','''    Sequence(seq) => {
      if seq.len() == 2 {
        if let (StrLiteral(first), StrLiteral(second)) = (grammar.expr_by_index(seq[0]), grammar.expr_by_index(seq[1])) {
          return Box::new(SequenceCompiler::fused(first, second));
        }
      }
      Box::new(SequenceCompiler::recognizer(seq))
    },
''')],
'''
oak! {
  r = ("if" "(")* .
}
fn main() {
  let a = recognize_r("if[".into_state());
  assert!(a.is_successful());
  // The farthest failure is the missing parenthesis at offset 2.
  assert_eq!(a.farthest_read.bytes_offset(), 2);
  assert_eq!(a.expected, vec!["("]);
}
''',
'recognizing a sequence of exactly two literals of which only the first matches, and looking at the error',
'recognizers match two consecutive literals in one step and report the failure at the first one')

bug('c03-short-prefix','C03',[
 ('src/liboak/back/name_factory.rs','''    while num_letter > 0 {
      let x = num_letter % LETTERS.len();
      num_letter /= LETTERS.len();
      prefix.push(LETTERS[x] as char);
    }
''','''    // One letter is enough to tell the scopes of a rule apart.
    num_letter %= LETTERS.len();
    prefix.push(LETTERS[num_letter] as char);
''')],
'''
oak! {
  r = . (. > id) %s
  fn id(c: char) -> char { c }
}
fn main() {
  // The first value is not that of the action.
  let s = parse_r("xy".into_state()).unwrap_data();
  check(s.0, s.1);
}
fn check(a: char, b: char) { assert_eq!((a, b), ('x', 'y')); }
''' % ' '.join(['["a"]?'] * 25),
'a rule with more than 26 nested scopes of variables, an action among them',
'the names of variables of different scopes of a large rule collide: a value is replaced by another one')

bug('c05-expected-cap','C05',[
 (RT+'parse_state.rs','''      self.expected.push(expect);
''','''      // The list is for people: beyond a dozen of entries it does not help any more.
      if self.expected.len() < 12 {
        self.expected.push(expect);
      }
''')],
'''
oak! {
  r = ("a" / "b" / "c" / "d" / "e" / "f" / "g")* ("h" / "i" / "j" / "k" / "l" / "m" / "n" / "o") "."
}
fn main() {
  let s = recognize_r("abcz".into_state());
  assert!(s.is_failed());
  let set: std::collections::BTreeSet<_> = s.expected.iter().cloned().collect();
  assert_eq!(set.len(), 15, "{:?}", set);
}
''',
'more than twelve terminals that fail at the farthest position',
'expected items beyond the twelfth are not reported')

bug('c05-prune-stale','C05',[
 (RT+'parse_state.rs','''    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,
      current: mark,
      data: None
    }
''','''    // What was expected before the mark is of no interest any more.
    let expected = if mark > self.farthest_read { vec![] } else { self.expected };
    ParseState {
      farthest_read: self.farthest_read,
      expected: expected,
      failed: false,
      current: mark,
      data: None
    }
''')],
'''
oak! {
  r = "x"? "a" !"b"
}
fn main() {
  let s = recognize_r("ab".into_state());
  assert!(s.is_failed());
  assert_eq!(s.farthest_read.bytes_offset(), 0);
  assert_eq!(s.expected, vec!["x"]);
}
''',
'a parse that fails through a predicate alone, beyond the farthest terminal that failed',
'expected items are forgotten when the state is restored to a mark beyond the farthest failure')

bug('c06-hidden-left-rec','C06',[
 (WF,'''      if child_wfa.always_consume {
        self.consumed_input = true;''','''      if !child_wfa.never_consume {
        self.consumed_input = true;''')],
'''
oak! {
  r = "a"? r "b" / "c"
}
fn main() { println!("accepted"); }
''',
'left recursion hidden behind an expression that may match nothing',
'a rule that calls itself behind an optional part is accepted and recurses forever',
body='''if cargo build --offline -q 2>"$d/log"; then echo "left recursion was accepted"; exit 1; fi
grep -q "Left-recursion" "$d/log"''')

bug('c06-nullable-repeat','C06',[
 (WF,'if child_wfa.can_succeed && !child_wfa.always_consume {','if child_wfa.can_succeed && (child_wfa.never_consume || !child_wfa.can_fail) {')],
'''
oak! {
  // !"b" ("a" / "") may match nothing: the repetition would never end.
  r = (!"b" ("a" / ""))*
}
fn main() { println!("accepted"); }
''',
'a repetition of an expression that can fail but can also match nothing',
'repetitions of some expressions that may match nothing are accepted and loop forever',
body='''if cargo build --offline -q 2>"$d/log"; then echo "an endless repetition was accepted"; exit 1; fi
grep -q "Infinite loop" "$d/log"''')

bug('c07-error-inplace','C07',[
 (RT+'parse_state.rs','''      self.farthest_read = self.current.clone();
      self.expected = vec![expect];
''','''      // Reuse the storage instead of building the state anew.
      unsafe {
        ::std::ptr::drop_in_place(&mut self.farthest_read);
        ::std::ptr::write(&mut self.farthest_read, self.current.clone());
      }
      self.expected.clear();
      self.expected.push(expect);
''')],
'''
use std::rc::Rc;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local! { static LIVE: Cell<i64> = Cell::new(0); static BOMB: Cell<i64> = Cell::new(-1); }
struct C { t: Rc<Vec<char>>, i: usize, _p: P }
struct P;
fn p() -> P { LIVE.with(|l| l.set(l.get() + 1)); P }
impl Drop for P { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
impl Clone for C { fn clone(&self) -> C {
  BOMB.with(|b| { let n = b.get(); b.set(n - 1); if n == 0 { panic!("cancelled") } });
  C { t: self.t.clone(), i: self.i, _p: p() } } }
impl oak_runtime::stream::Stream for C { type Output = C; fn stream(self) -> C { self } }
impl Iterator for C { type Item = char; fn next(&mut self) -> Option<char> { let c = self.t.get(self.i).cloned(); if c.is_some() { self.i += 1; } c } }
impl PartialEq for C { fn eq(&self, o: &C) -> bool { self.i == o.i } }
impl Eq for C {}
impl PartialOrd for C { fn partial_cmp(&self, o: &C) -> Option<Ordering> { self.i.partial_cmp(&o.i) } }
impl Ord for C { fn cmp(&self, o: &C) -> Ordering { self.i.cmp(&o.i) } }
impl HasNext for C { fn has_next(&self) -> bool { self.i < self.t.len() } }
impl ConsumePrefix<&'static str> for C { fn consume_prefix(&mut self, x: &'static str) -> bool {
  let v: Vec<char> = x.chars().collect();
  if self.t[self.i..].starts_with(&v) { self.i += v.len(); true } else { false } } }
oak! {
  type Stream<'a> = C;
  r = ["a-z"]* "1"
}
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  for n in 0..40 {
    let t = Rc::new(vec!['a', 'b', '2']);
    BOMB.with(|b| b.set(n));
    let t2 = t.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
      let s = C { t: t2, i: 0, _p: p() };
      let st = recognize_r(s.into_state());
      BOMB.with(|b| b.set(-1));
      drop(st);
    }));
    BOMB.with(|b| b.set(-1));
    // A cursor released twice would also have given its count back twice.
    assert_eq!(LIVE.with(|l| l.get()), 0, "after a panic in copy {}", n);
    assert_eq!(Rc::strong_count(&t), 1, "after a panic in copy {}", n);
    let _ = r;
  }
}
''',
'a stream whose copy unwinds at the very moment the farthest failure is moved',
'the previous farthest position is released twice when copying the cursor unwinds')

bug('c08-decode-cache','C08',[
 (RT+'str_stream.rs','''    self.raw_data[self.bytes_offset..].chars().next()
''','''    // Backtracking decodes the same characters again and again: remember the last one.
    let key = self.raw_data.as_ptr() as usize + self.bytes_offset;
    if self.raw_data.as_bytes().get(self.bytes_offset).map_or(false, |b| *b >= 0x80) {
      if LAST_KEY.load(SeqCst) == key {
        if let Some(c) = ::std::char::from_u32(LAST_CHAR.load(SeqCst) as u32) {
          if c.len_utf8() <= self.raw_data.len() - self.bytes_offset && c.len_utf8() > 1 { return Some(c) }
        }
      }
      let c = self.raw_data[self.bytes_offset..].chars().next().unwrap();
      LAST_CHAR.store(c as usize, SeqCst);
      LAST_KEY.store(key, SeqCst);
      return Some(c)
    }
    self.raw_data[self.bytes_offset..].chars().next()
'''),
 (RT+'str_stream.rs','''use std::cmp::{Ordering, min};
''','''use std::cmp::{Ordering, min};
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering::SeqCst;

// The address and the value of the last character that was decoded.
static LAST_KEY: AtomicUsize = AtomicUsize::new(0);
static LAST_CHAR: AtomicUsize = AtomicUsize::new(0);
''')],
'''
oak! {
  r = ("é" "!" / ["à-ÿ"])*
}
fn run(text: &str, n: usize) -> bool {
  for _ in 0..n {
    match parse_r(text.into_state()).into_result() {
      Success(v) => { let s: String = v.into_iter().collect(); if s != text { return false } }
      _ => return false,
    }
  }
  true
}
oak_mod!();
''',
'two parses in different threads that decode non-ASCII characters at the same time',
'a process-wide cache of the last decoded character is torn between threads: a parse sees a character of another text')
BUGS[-1]['demo']=HEAD+'''
oak! {
  r = (["à-ÿ"] "!" / ["à-ÿ"])*
}
fn run(text: &str, n: usize) -> bool {
  for _ in 0..n {
    match parse_r(text.into_state()).into_result() {
      Success(v) => { let s: String = v.into_iter().collect(); if s != text { return false } }
      _ => return false,
    }
  }
  true
}
fn main() {
  let texts = ["éàéàéàéàéàéàéàéàéàéà", "ùöùöùöùöùöùöùöùöùö", "ÿïÿïÿïÿïÿïÿïÿï"];
  let t0 = std::time::Instant::now();
  while t0.elapsed().as_secs() < 20 {
    let hs: Vec<_> = (0..6).map(|i| { let t = texts[i % 3].to_string(); std::thread::spawn(move || run(&t, 3000)) }).collect();
    for h in hs { assert!(h.join().unwrap_or(false), "a parse saw characters of another text"); }
  }
}
'''

bug('c09-filemap-prefix','C09',[
 (RT+'file_map_stream.rs','''    self.str_stream.consume_prefix(prefix)
''','''    // A source file is read character by character.
    for c in prefix.chars() {
      if self.str_stream.current_char() != Some(c) {
        return false;
      }
      self.str_stream.next();
    }
    true
''')],
'''
extern crate syntex_pos;
use std::rc::Rc;
use std::cell::RefCell;
use syntex_pos::{FileMap, BytePos};
fn file(src: &str, start: u32) -> Rc<FileMap> {
  Rc::new(FileMap { name: "fake".to_string(), abs_path: None, src: Some(Rc::new(src.to_string())), start_pos: BytePos(start),
    end_pos: BytePos(start + src.len() as u32), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) })
}
fn main() {
  let filemap = file("letter = 1\\n", 0);
  let mut s = filemap.stream();
  assert!(!s.consume_prefix("let "));
  assert_eq!(s.next(), Some('l'), "a prefix that does not match consumes nothing");
}
''',
'a stream over a source file and a prefix of which only the beginning matches',
'a file stream stays in the middle of a prefix that does not match')

bug('c09-ord','C09',[
 (RT+'file_map_stream.rs','''    (&self.str_stream).cmp(&other.str_stream)
''','''    (&other.str_stream).cmp(&self.str_stream)
''')],
'''
extern crate syntex_pos;
use std::rc::Rc;
use std::cell::RefCell;
use syntex_pos::{FileMap, BytePos};
fn file(src: &str, start: u32) -> Rc<FileMap> {
  Rc::new(FileMap { name: "fake".to_string(), abs_path: None, src: Some(Rc::new(src.to_string())), start_pos: BytePos(start),
    end_pos: BytePos(start + src.len() as u32), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) })
}
fn main() {
  let filemap = file("abc\\n", 0);
  let a = filemap.stream();
  let mut b = a.clone();
  b.next();
  use std::cmp::Ordering;
  assert_eq!(Ord::cmp(&a, &b), Ordering::Less);
  assert_eq!(Ord::cmp(&b, &a), Ordering::Greater);
  assert_eq!(Ord::cmp(&a, &a), Ordering::Equal);
}
''',
'comparing cursors of a source file through Ord (min, max, sorting) instead of the operators',
'the total order of the cursors of a file stream is wrong')

bug('c10-expected-prefix','C10',[
 (RT+'parse_state.rs','''      for expect in &self.expected {
        desc.push('`');''','''      for expect in &self.expected {
        // Already listed.
        if desc.contains(*expect) { continue; }
        desc.push('`');''')],
'''
oak! {
  r = "<=" / "<" / "=" / "=="
}
fn main() {
  match recognize_r("x".into_state()).into_result() {
    Failure(e) => {
      let s = format!("{:?}", e);
      for i in &["`<=`", "`<`", "`=`", "`==`"] { assert!(s.contains(i), "{} misses {}", s, i); }
    }
    _ => panic!("no failure"),
  }
}
''',
'expected items one of which is a part of another that is listed before it',
'an expected item that occurs inside of another one is missing in the report')

bug('c10-line-start','C10',[
 (RT+'str_stream.rs','''      remaining -= line_len;
      line_no += 1;
''','''      remaining -= line_len;
      line_no += 1;
      // The rest of the text has only one line: no need to look for more of them.
      if self.raw_data.len() - self.bytes_offset < 2 { break; }
''')],
'''
fn main() {
  let text = "ab\\ncd\\nef\\ng";
  let mut s = text.stream();
  let mut last = String::new();
  loop {
    last = s.location();
    if s.next().is_none() { break }
  }
  // The end is behind the only character of line 4.
  assert_eq!(last, "4:2");
}
''',
'a position within the last byte of a text of more than two lines',
'lines are no longer counted near the end of the text')

bug('c11-static-uid','C11',[
 ('src/liboak/back/name_factory.rs','''  pub fn next_closure_name(&mut self) -> Ident {
    self.closure_uid += 1;
    format_ident!("success_continuation_{}", self.closure_uid)
''','''  pub fn next_closure_name(&mut self) -> Ident {
    use std::sync::atomic::{AtomicUsize, Ordering};
    // Unique in the whole crate, such that closures of different rules cannot be confused.
    static CLOSURE_UID: AtomicUsize = AtomicUsize::new(0);
    self.closure_uid = CLOSURE_UID.fetch_add(1, Ordering::SeqCst) + 1;
    format_ident!("success_continuation_{}", self.closure_uid)
''')],
'',
'two grammars with choices that are expanded by the same compiler process',
'the code of a grammar depends on how many grammars were expanded before it in the same process',
body='''# The expansion of the same grammar, alone and after another one.
mkdir -p "$d/src/bin"
head='#![allow(warnings)]
extern crate oak; extern crate oak_runtime; use oak::oak; use oak_runtime::*;'
g='mod g { use oak::oak; use oak_runtime::*; oak! { r = ("a" "c" / "b" "d") ("e" "f" / "g" "h") . } }'
h='mod h { use oak::oak; use oak_runtime::*; oak! { r = ("a" "c" / "b" "d") ("e" "f" / "g" "h") . } }'
rm "$d/src/main.rs"
printf '%%s\\n%%s\\nfn main() {}\\n' "$head" "$g" > "$d/src/bin/one.rs"
printf '%%s\\n%%s\\n%%s\\nfn main() {}\\n' "$head" "$h" "$g" > "$d/src/bin/two.rs"
for b in one two; do
  cargo rustc --offline -q --bin $b -- -Zunpretty=expanded 2>"$d/log" | sed -n '/^mod g/,/^}/p' > "$d/$b.txt" || exit 2
  test -s "$d/$b.txt" || { cat "$d/log"; exit 2; }
done
cmp "$d/one.txt" "$d/two.txt"''')

bug('c12-closure-marks','C12',[
 ('src/liboak/back/context.rs','''      .chain(self.mark_variables
        .iter()
        .map(|var| parse_quote!(#var.clone())))''','''      .chain(self.mark_variables
        .iter().rev()
        .map(|var| parse_quote!(#var.clone())))''')],
'''
oak! {
  // Two captures are open when the choice is evaluated.
  r = .. "(" (.. ("a" "b" / "c" "d") "x")
}
fn main() {
  match parse_r("(cdx".into_state()).into_result() {
    Success((outer, inner)) => {
      assert_eq!((outer.lo.0, outer.hi.0), (0, 4));
      assert_eq!((inner.lo.0, inner.hi.0), (1, 4));
    }
    _ => panic!("no match"),
  }
}
''',
'a choice, whose continuation is shared, within two nested captures of spans',
'the starts of nested spans are exchanged')

bug('c12-empty-span','C12',[
 (RT+'file_map_stream.rs','''    mk_sp(
      self.start.abs_pos(),
      self.end.abs_pos()
    )''','''    if self.start == self.end {
      // Nothing was matched.
      let pos = BytePos(self.end.str_stream.bytes_offset() as u32);
      return mk_sp(pos, pos);
    }
    mk_sp(
      self.start.abs_pos(),
      self.end.abs_pos()
    )''')],
'''
extern crate syntex_pos;
use std::rc::Rc;
use std::cell::RefCell;
use syntex_pos::{FileMap, BytePos};
fn file(src: &str, start: u32) -> Rc<FileMap> {
  Rc::new(FileMap { name: "fake".to_string(), abs_path: None, src: Some(Rc::new(src.to_string())), start_pos: BytePos(start),
    end_pos: BytePos(start + src.len() as u32), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) })
}
fn main() {
  let filemap = file("abc\\n", 11);
  let mut s = filemap.stream();
  s.next();
  let e = s.clone();
  let span = Range { start: s, end: e }.stream_span();
  assert_eq!(span.lo, filemap.start_pos + span_of(1));
}
fn span_of(n: u32) -> BytePos { BytePos(n) }
''',
'an empty match in a source file that is not the first one',
'spans of empty matches in a file stream are relative to the file instead of absolute')

bug('c13-success-peek','C13',[
 (RT+'parse_state.rs','''    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,
      current: self.current,
      data: Some(data)
    }''','''    // A full match does not need its expectations any more, unless somebody backtracks.
    let mut expected = self.expected;
    if expected.is_empty() && !self.current.has_next() {
      expected = vec![];
    }
    ParseState {
      farthest_read: self.farthest_read,
      expected: expected,
      failed: false,
      current: self.current,
      data: Some(data)
    }''')],
'''
use std::cmp::Ordering;
#[derive(Clone)]
struct C { i: usize }
// Two items were delivered; asking for a third one would block forever.
const T: &'static [char] = &['a', 'b'];
impl oak_runtime::stream::Stream for C { type Output = C; fn stream(self) -> C { self } }
impl Iterator for C { type Item = char; fn next(&mut self) -> Option<char> { if self.i >= T.len() { panic!("would block"); } self.i += 1; Some(T[self.i - 1]) } }
impl PartialEq for C { fn eq(&self, o: &C) -> bool { self.i == o.i } }
impl Eq for C {}
impl PartialOrd for C { fn partial_cmp(&self, o: &C) -> Option<Ordering> { self.i.partial_cmp(&o.i) } }
impl Ord for C { fn cmp(&self, o: &C) -> Ordering { self.i.cmp(&o.i) } }
impl HasNext for C { fn has_next(&self) -> bool { if self.i >= T.len() { panic!("would block"); } true } }
impl ConsumePrefix<&'static str> for C { fn consume_prefix(&mut self, x: &'static str) -> bool { for c in x.chars() { if self.next() != Some(c) { return false } } true } }
oak! {
  type Stream<'a> = C;
  r = "a" "b"
}
fn main() {
  let s = recognize_r(C { i: 0 }.into_state());
  assert!(s.is_successful());
}
''',
'a stream that has delivered exactly what the rule matches and then stalls, and no failed terminal on the way',
'a successful rule asks the stream whether there is more input')

bug('c14-extract-failed','C14',[
 (RT+'parse_state.rs','''    assert!(self.is_successful() && self.data.is_some(),
      "Data extraction is only possible if the state is successful and contains data.");''','''    assert!(self.data.is_some(),
      "Data extraction is only possible if the state is successful and contains data.");''')],
'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::panic::catch_unwind(|| {
    let mut s = IntoState::<StrStream, ()>::into_state("ab").success(3);
    s.error("x");
    s.extract_data().1
  });
  assert!(r.is_err(), "the data of a failed state was extracted");
}
''',
'extracting the data of a state that failed after it had succeeded',
'extraction from a failed state gives a value instead of panicking')

bug('c14-restore-successful','C14',[
 (RT+'parse_state.rs','''    assert!(self.failed, "Restoring a successful ParseState is not allowed.");
    self.restore(mark)''','''    if self.data.is_some() { panic!("Restoring a ParseState with data is not allowed."); }
    self.restore(mark)''')],
'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::panic::catch_unwind(|| {
    let mut s = IntoState::<StrStream, ()>::into_state("ab");
    let m = s.mark();
    s.next();
    s.restore_from_failure(m).current.bytes_offset()
  });
  assert!(r.is_err(), "a successful state was restored as a failed one");
}
''',
'restoring as failed a state that is successful',
'restore_from_failure accepts a successful state')

bug('c02-any-loop','C02',[
 (BE+'mod.rs','    ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::recognizer(expr_idx, 0)),\n','''    ZeroOrMore(expr_idx) => {
      if let AnySingleChar = grammar.expr_by_index(expr_idx) {
        return Box::new(SkipAllCompiler);
      }
      Box::new(RepeatCompiler::recognizer(expr_idx, 0))
    },
'''),
 (BE+'repeat.rs','''impl CompileExpr for RepeatCompiler
{''','''/// Recognizes `.*`: there is nothing to go back to.
pub struct SkipAllCompiler;

impl CompileExpr for SkipAllCompiler
{
  fn compile_expr<'a>(&self, _context: &mut Context<'a>,
    continuation: Continuation) -> syn::Expr
  {
    continuation
      .map_success(|success, _| parse_quote!({
        while let Some(_) = state.next() {}
        #success
      }))
      .unwrap_success()
  }
}

impl CompileExpr for RepeatCompiler
{'''),
],
'''
oak! {
  r = "(" .* ")"
}
fn main() {
  let p = parse_r("(ab".into_state());
  let q = recognize_r("(ab".into_state());
  assert!(p.is_failed() && q.is_failed());
  assert_eq!(p.farthest_read.bytes_offset(), q.farthest_read.bytes_offset());
  let (mut x, mut y) = (p.expected.clone(), q.expected.clone());
  x.sort(); x.dedup(); y.sort(); y.dedup();
  assert_eq!(x, y, "parser and recognizer report different expected items");
}
''',
'a rule with `.*` whose value is kept, followed by something that fails at the end of the input; the expected items of parser and recognizer have to be compared',
'the recognizer of `.*` skips to the end of the input without recording the failure that ended it, the parser records it')

bug('c02-class-restore','C02',[
 (BE+'character_class.rs','''    let mark = context.next_mark_name();
    continuation
''','''    let mark = context.next_mark_name();
    // Nothing of a recognized character is kept.
    let restore: Option<syn::Stmt> =
      if var == "x" { None }
      else { Some(parse_quote!(state = state.restore(#mark);)) };
    continuation
'''),
 (BE+'character_class.rs','            state = state.restore(#mark);\n','            #restore\n'),
],
'''
oak! {
  r = "a" (["0-9"] / "x")
}
fn main() {
  let p = parse_s("ab".into_state());
  let q = recognize_s("ab".into_state());
  assert!(p.is_failed() && q.is_failed());
  assert_eq!(p.farthest_read.bytes_offset(), 1);
  assert_eq!(q.farthest_read.bytes_offset(), 1, "the recognizer reports another error position than the parser");
}
'''.replace('r = "a" (["0-9"] / "x")','s = "a" ["0-9"]'),
'a rule whose value contains a character class, failing on that class in front of another character, with the error positions of parser and recognizer compared',
'the recognizer of a character class reports its failure after the offending character, the parser in front of it')

bug('c06-lookahead-optional','C06',[
 (BE+'optional.rs','''    let optional_expr = self.compile(context, continuation, body);
''','''    // Look ahead first, such that nothing is built for an expression that does not match.
    let lookahead = context.compile_recognizer_expr(self.expr_idx);
    let lookahead_mark = context.next_mark_name();
    let body: syn::Expr = parse_quote!({
      let #lookahead_mark = state.mark();
      state = #lookahead;
      if state.is_successful() {
        state = state.restore(#lookahead_mark);
        #body
      }
      else { state }
    });
    let optional_expr = self.compile(context, continuation, body);
'''),
],
'''
use std::cell::Cell;
thread_local!(static OPS: Cell<u64> = Cell::new(0));
fn op() { OPS.with(|o| o.set(o.get() + 1)) }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct S { pos: usize, n: usize }
impl HasNext for S { fn has_next(&self) -> bool { self.pos < 2 * self.n } }
impl Iterator for S { type Item = char; fn next(&mut self) -> Option<char> {
  op();
  if self.pos == 2 * self.n { return None }
  self.pos += 1;
  Some(if self.pos <= self.n { '(' } else { ')' })
} }
impl ConsumePrefix<&'static str> for S { fn consume_prefix(&mut self, p: &'static str) -> bool {
  let mut s = self.clone();
  for c in p.chars() { if s.next() != Some(c) { return false } }
  *self = s;
  true
} }
oak! {
  type Stream<'a> = S;
  r = "(" s? ")" > depth
  s = r / ["a-z"] > leaf
  fn depth(x: Option<u32>) -> u32 { x.map_or(1, |x| x + 1) }
  fn leaf(_: char) -> u32 { 0 }
}
fn work(n: usize) -> u64 {
  OPS.with(|o| o.set(0));
  assert_eq!(parse_r(ParseState::new(S { pos: 0, n: n })).unwrap_data(), n as u32);
  OPS.with(|o| o.get())
}
fn main() {
  let (a, b) = (work(20), work(80));
  assert!(b <= 5 * a, "four times the input takes {} stream operations instead of {}", b, a);
}
''',
'a rule that reaches itself below an optional part whose value is kept, on nested input',
'every optional part is matched twice, so nested ones cost work that is not proportional to the evaluation')

bug('c05-optional-eof','C05',[
 (BE+'optional.rs','''          state = #body;
          if state.is_failed() {
            state = state.restore_from_failure(#mark);
          }
''','''          // Nothing optional is left at the end of the input.
          if oak_runtime::HasNext::has_next(&#mark) {
            state = #body;
            if state.is_failed() {
              state = state.restore_from_failure(#mark);
            }
          }
'''),
],
'''
oak! {
  r = "a" ("," "b")? ";"
}
fn main() {
  let s = parse_r("a".into_state());
  let mut e = s.expected.clone();
  e.sort(); e.dedup();
  assert_eq!(s.farthest_read.bytes_offset(), 1);
  assert_eq!(e, vec![",", ";"], "what the optional part expected at the end of the input is missing");
}
''',
'an optional part reached exactly at the end of the input, in a parse that then fails or stops there',
'the terminals of an optional part that is reached at the end of the input are not reported as expected')

bug('c09-high-plane','C09',[
 (RT+'str_stream.rs','''      let current = self.current_char().unwrap();
      self.bytes_offset += current.len_utf8();
''','''      let bytes = &self.raw_data.as_bytes()[self.bytes_offset..];
      let tail = |i: usize| (bytes[i] & 0x3f) as u32;
      let code = match bytes[0] {
        b @ 0x00..=0x7f => b as u32,
        b @ 0x80..=0xdf => (b as u32 & 0x1f) << 6 | tail(1),
        b @ 0xe0..=0xef => (b as u32 & 0x0f) << 12 | tail(1) << 6 | tail(2),
        b => (b as u32 & 0x03) << 18 | tail(1) << 12 | tail(2) << 6 | tail(3),
      };
      let current = ::std::char::from_u32(code).unwrap();
      self.bytes_offset += bytes.iter().skip(1).take_while(|b| **b & 0xc0 == 0x80).count() + 1;
'''),
],
'''
fn main() {
  for c in vec!['a', '\\u{e9}', '\\u{4e2d}', '\\u{1f600}', '\\u{e0041}', '\\u{10fffd}'] {
    let text = format!("<{}>", c);
    let chars: Vec<char> = text.as_str().stream().collect();
    assert_eq!(chars, vec!['<', c, '>'], "the stream does not yield the characters of the text");
  }
}
''',
'a text with a character above U+FFFFF (private use plane 16)',
'the string stream decodes characters by hand and drops a bit of those above U+FFFFF')

bug('c10-location-memo','C10',[
 (RT+'str_stream.rs','''  pub fn line_column(&self) -> (usize, usize) {
''','''  pub fn line_column(&self) -> (usize, usize) {
    use std::cell::Cell;
    // Reports ask for the same place several times.
    thread_local!(static LAST: Cell<(usize, usize, usize, (usize, usize))> = Cell::new((0, 0, 0, (0, 0))));
    let key = (self.raw_data.as_ptr() as usize, self.raw_data.len(), self.bytes_offset);
    LAST.with(|last| {
      let (ptr, len, offset, place) = last.get();
      if (ptr, len, offset) == key { return place; }
      let place = self.compute_line_column();
      last.set((key.0, key.1, key.2, place));
      place
    })
  }

  fn compute_line_column(&self) -> (usize, usize) {
'''),
],
'''
oak! {
  r = ["a-z\\n"]* ";"
}
fn main() {
  // One buffer is used for several texts.
  let mut buffer = String::with_capacity(16);
  let mut places = vec![];
  for text in &["ab\\ncd!", "abcd\\ne!", "abcdef!"] {
    buffer.clear();
    buffer.push_str(text);
    let s = parse_r((&buffer).into_state());
    assert!(s.is_failed());
    places.push(s.farthest_read.location());
  }
  assert_eq!(places, vec!["2:3", "2:2", "1:7"]);
}
''',
'reports of two texts of equal length that are held in the same memory one after the other, at the same offset, in the same thread',
'the location of a position is remembered by address and length of the text, so another text in the same place gets the old location')

bug('c07-next-byvalue','C07',[
 (RT+'parse_state.rs','''  fn next(&mut self) -> Option<Self::Item> {
    self.current.next()
  }
''','''  fn next(&mut self) -> Option<Self::Item> {
    use std::ptr;
    // The cursor is advanced in a local variable, which the compiler keeps in registers.
    unsafe {
      let mut current = ptr::read(&self.current);
      let item = current.next();
      ptr::write(&mut self.current, current);
      item
    }
  }
'''),
],
'''
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local!(static LIVE: Cell<i64> = Cell::new(0));
fn live(d: i64) -> i64 { LIVE.with(|l| { l.set(l.get() + d); l.get() }) }
struct S { pos: usize, limit: usize }
impl S { fn new(pos: usize, limit: usize) -> S { live(1); S { pos: pos, limit: limit } } }
impl Clone for S { fn clone(&self) -> S { S::new(self.pos, self.limit) } }
impl Drop for S { fn drop(&mut self) { live(-1); } }
impl PartialEq for S { fn eq(&self, o: &S) -> bool { self.pos == o.pos } }
impl Eq for S {}
impl PartialOrd for S { fn partial_cmp(&self, o: &S) -> Option<std::cmp::Ordering> { self.pos.partial_cmp(&o.pos) } }
impl Ord for S { fn cmp(&self, o: &S) -> std::cmp::Ordering { self.pos.cmp(&o.pos) } }
impl HasNext for S { fn has_next(&self) -> bool { true } }
impl Iterator for S { type Item = char; fn next(&mut self) -> Option<char> { if self.pos == self.limit { panic!("the source is gone") } self.pos += 1; Some('a') } }
impl ConsumePrefix<&'static str> for S { fn consume_prefix(&mut self, p: &'static str) -> bool { self.pos += p.len(); p.chars().all(|c| c == 'a') } }
oak! {
  type Stream<'a> = S;
  r = . . .
}
fn main() {
  for limit in 0..3 {
    let r = catch_unwind(AssertUnwindSafe(|| { parse_r(ParseState::new(S::new(0, limit))); }));
    assert!(r.is_err());
    assert_eq!(live(0), 0, "stream handles released more or less often than created");
  }
}
''',
'a stream that owns a resource and unwinds from `next`',
'when reading the next item unwinds, the cursor of the parse state is released twice')

bug('c08-last-expected','C08',[
 (RT+'parse_state.rs','''      self.expected = vec![expect];
    }
    else if self.current == self.farthest_read {
      self.expected.push(expect);
    }
''','''      self.expected = vec![expect];
      LAST_EXPECTED.with(|last| last.set(expect));
    }
    else if self.current == self.farthest_read {
      // Loops expect the same item again and again.
      let again = LAST_EXPECTED.with(|last| last.replace(expect)) == expect && !self.expected.is_empty();
      if !again {
        self.expected.push(expect);
      }
    }
'''),
 (RT+'parse_state.rs','''pub trait IntoState<S, T>
''','''thread_local!(static LAST_EXPECTED: ::std::cell::Cell<&'static str> = ::std::cell::Cell::new(""));

pub trait IntoState<S, T>
'''),
],
'''
oak! {
  inner = "a" ";"
  r = "a" mid ";"
  mid = ("," / "!" / "") > nested
  fn nested() -> u32 { let _ = recognize_inner("a".into_state()); 1 }
}
fn main() {
  let mut e = parse_r("a".into_state()).expected;
  e.sort(); e.dedup();
  assert_eq!(e, vec!["!", ",", ";"], "an expected item is missing");
}
''',
'a parse that runs inside a semantic action of another one and fails last on the item that the outer parse expects next at its farthest position',
'the last expected item is remembered per thread, so a nested parse makes the outer one forget what it expected')

bug('c12-mark-names','C12',[
 ('src/liboak/back/name_factory.rs','''    format_ident!("mark{}", self.mark_uid)
''','''    // Old marks are restored or dropped by then.
    format_ident!("mark{}", self.mark_uid % 12)
'''),
],
'''
oak! {
  r = (.. (("a"/"A") ("b"/"B") ("c"/"C") ("d"/"D") ("e"/"E") ("f"/"F") ("g"/"G") ("h"/"H") ("i"/"I") ("j"/"J") ("k"/"K") ("l"/"L") ("m"/"M"))) "."
}
fn main() {
  for (text, hi) in vec![("abcdefghijklm.", 13), ("ABCDEFGHIJKLM.", 13)] {
    let s = parse_r(text.into_state());
    let span = s.unwrap_data();
    assert_eq!((span.lo.0, span.hi.0), (0, hi), "the span of {:?} is shifted", text);
  }
}
''',
'a span over an expression of more than ten parts with marks of their own, one of the last of which comes after matched input',
'names of marks are used again after twelve, so the start of a span is hidden by the mark of an inner expression')

bug('c02-external-parse','C02',[
 (BE+'non_terminal.rs','''  pub fn external_recognizer(path: syn::Path) -> NonTerminalRecognizerCompiler {
    NonTerminalRecognizerCompiler { path }
  }
''','''  pub fn external_recognizer(path: syn::Path) -> NonTerminalRecognizerCompiler {
    NonTerminalRecognizerCompiler { path, external: true }
  }
'''),
 (BE+'non_terminal.rs','''      path: parse_quote!(#id)
    }
  }
''','''      path: parse_quote!(#id),
      external: false
    }
  }
'''),
 (BE+'non_terminal.rs','''pub struct NonTerminalRecognizerCompiler
{
  path: syn::Path
}
''','''pub struct NonTerminalRecognizerCompiler
{
  path: syn::Path,
  external: bool
}
'''),
 (BE+'non_terminal.rs','''    let recognizer_fn = recognizer_name(self.path.clone());
    continuation
''','''    let recognizer_fn = recognizer_name(self.path.clone());
    // A recognizer of another module may be private or unused there, the parser always exists.
    let recognizer_fn: syn::Expr = if self.external {
      let parser_fn = parser_name(self.path.clone());
      parse_quote!((|state| {
        let state = #parser_fn(state);
        if state.is_successful() { let (state, _) = state.extract_data(); state.success(()) } else { state.failure() }
      }))
    }
    else { parse_quote!(#recognizer_fn) };
    continuation
'''),
],
'''
pub mod items {
  use oak::oak;
  use oak_runtime::*;
  use std::sync::atomic::{AtomicUsize, Ordering};
  pub static CALLS: AtomicUsize = AtomicUsize::new(0);
  oak! {
    item = ["a-z"]+ > build
    fn build(_: Vec<char>) -> u32 { CALLS.fetch_add(1, Ordering::SeqCst); 1 }
  }
}
oak! {
  list = (items::item:(u32)) ("," (items::item:(u32)))* > total
  fn total(x: u32, xs: Vec<u32>) -> u32 { x + xs.len() as u32 }
}
fn main() {
  let s = recognize_list("a,b,c".into_state());
  assert!(s.is_successful());
  assert_eq!(items::CALLS.load(std::sync::atomic::Ordering::SeqCst), 0, "a recognizer ran a semantic action");
}
''',
'a rule that calls a rule of another grammar which has a semantic action, being recognized',
'external rules are recognized by parsing them, which runs their semantic actions')

bug('c11-rule-order','C11',[
 (WF,'''      for rule in self.grammar.rules.iter() {
        self.visit_rule(&rule.ident());
''','''      let rules: Vec<Ident> = self.rules_wfa.keys().cloned().collect();
      for rule in rules {
        self.visit_rule(&rule);
'''),
],
'',
'a grammar with errors in several rules, compiled in several processes',
'rules are analysed in the order of a hash map, so which error is reported depends on the hash seed',
body='''cat > src/lib.rs <<'EOF'
extern crate oak;
use oak::oak;
oak! {
  a = "a" b*
  b = ""
  c = "c" (d)*
  d = ""
  e = "e" (f)*
  f = ""
}
EOF
rm -f "$d/src/main.rs"
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
  touch src/lib.rs
  cargo build --offline 2>&1 | grep -E '^ *--> |^error' | grep -v 'could not compile' > out.$i
  cmp -s out.1 out.$i || { echo "the diagnostics differ between two runs of the compiler"; diff out.1 out.$i; exit 1; }
done
grep -q 'Infinite loop' out.1''')

bug('c14-error-once','C14',[
 (RT+'parse_state.rs','''    self.failed = true;
    if self.current > self.farthest_read {
''','''    if self.failed {
      return;
    }
    self.failed = true;
    if self.current > self.farthest_read {
'''),
],
'''
fn main() {
  let mut s: ParseState<StrStream, ()> = "abc".into_state();
  s.error("x");
  s.next();
  s.error("y");
  assert_eq!(s.expected, vec!["y"]);
  assert_eq!(s.farthest_read.bytes_offset(), 1, "a failure farther on is not recorded");
}
''',
'a second error on a state that has failed already, farther on or at the same position',
'errors of a failed state are ignored, also when they are farther')
