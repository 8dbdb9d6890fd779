from specs import *
CX='src/liboak/back/context.rs'
bug('c07-swallow-panic','C07',[
 (BE+'semantic_action.rs','if self.boxed { parse_quote!(Box::new(#action_call)) }',
  '''if self.boxed {
            // A value that cannot be built does not match.
            parse_quote!(
              match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| #action_call)) {
                Ok(value) => Box::new(value),
                Err(_) => return state.failure()
              })
          }''')],
'''
oak! {
  r = ["0-9"] > box digit / "x" > box nine
  fn digit(c: char) -> u32 { if c == '9' { panic!("no nine") } else { c as u32 } }
  fn nine() -> u32 { 9 }
}
fn main() {
  std::panic::set_hook(Box::new(|_| ()));
  assert!(std::panic::catch_unwind(|| parse_r("1".into_state()).is_successful()).unwrap());
  assert!(std::panic::catch_unwind(|| parse_r("9".into_state()).is_successful()).is_err(), "the panic of an action is swallowed");
}
''',
'a boxed semantic action that panics',
'a panic of the function of a boxed action is turned into a failure of its expression instead of unwinding the parse')

bug('c10-filemap-location','C10',[
 (RT+'file_map_stream.rs','''    self.str_stream.location()
''','''    // The starts of the lines are registered in the file map: no need to go through the text again.
    let pos = self.abs_pos();
    let lines = self.filemap.lines.borrow();
    let line = match lines.binary_search(&pos) {
      Ok(line) => line + 1,
      Err(line) => line
    };
    let start = if line == 0 { self.filemap.start_pos } else { lines[line - 1] };
    format!("{}:{}", if line == 0 { 1 } else { line }, pos.0 - start.0 + 1)
''')],
'''
extern crate syntex_pos;
use std::rc::Rc;
use syntex_pos::{FileMap, BytePos};
fn main() {
  let src = "ab\\nc\\n";
  let fm = Rc::new(FileMap { name: "f".into(), abs_path: None, src: Some(Rc::new(src.into())), start_pos: BytePos(7), end_pos: BytePos(7 + src.len() as u32), lines: Default::default(), multibyte_chars: Default::default() });
  let mut s = (&fm).stream();
  let mut t = src.stream();
  loop {
    assert_eq!(s.location(), t.location());
    if s.next().is_none() { break }
    t.next();
  }
}
''',
'the end of a source file whose last line ends with a line feed',
'the location of the end of a source file after its last line feed is on the line before')

bug('c11-type-cache','C11',[
 ('src/liboak/middle/typing/ast.rs','''          if let Some(fun) = self.rust_functions.get(ident) {''','''          thread_local!(static UNIT_FUNCTIONS: ::std::cell::RefCell<::std::collections::BTreeSet<String>> = Default::default());
          let known = UNIT_FUNCTIONS.with(|f| f.borrow().contains(&ident.to_string()));
          if known {
            // Already reported.
            return Regular(Unit)
          }
          if let Some(fun) = self.rust_functions.get(ident) {
            if let syn::ReturnType::Default = fun.sig.output {
              UNIT_FUNCTIONS.with(|f| f.borrow_mut().insert(ident.to_string()));
            }''')],
'''
mod first { use oak::oak; use oak_runtime::*; oak! { r = "a" > build fn build() {} } }
''',
'two grammars in one crate, the first of which has an action function without a result, and the second one of the same name with one',
'whether a function returns unit is remembered from one grammar to the next one that has a function of that name',
body='''
cat > src/main.rs <<'R'
#![allow(warnings)]
extern crate oak;
extern crate oak_runtime;
#[cfg(feature = "first")]
mod first { use oak::oak; use oak_runtime::*; oak! { r = "a" > build
  fn build() {} } }
mod second { use oak::oak; use oak_runtime::*; oak! { r = "a" > build
  fn build() -> u32 { 1 } } }
fn main() { let x: u32 = second::parse_r(oak_runtime::IntoState::into_state("a")).unwrap_data(); }
R
printf '\\n[features]\\nfirst = []\\n' >> Cargo.toml
# The errors reported in the second grammar have to be the same (none) whatever is expanded before it.
cargo build --offline -q 2>/dev/null || exit 3
cargo build --offline -q --features first 2>log
n=$(grep -c "^error" log)
m=$(grep -A4 "^error" log | grep -c "second\\|mismatched\\|u32")
cat log
[ "$m" = 0 ]''')

bug('c14-restore-failed-data','C14',[
 (RT+'parse_state.rs','assert!(self.data.is_none(), "Restoring a ParseState with data is not allowed.");','assert!(self.failed || self.data.is_none(), "Restoring a ParseState with data is not allowed.");')],
'''
fn main() {
  std::panic::set_hook(Box::new(|_| ()));
  assert!(std::panic::catch_unwind(|| {
    let s: ParseState<_, ()> = "ab".into_state();
    let m = s.mark();
    let mut s = s.success(());
    s.error("x");
    s.restore(m);
  }).is_err(), "a state with data was restored");
}
''',
'success with data, then an error, then restoring',
'restoring a state that still holds data is allowed when an error was reported after its success')

bug('c09-bom','C09',[
 (RT+'str_stream.rs','''      raw_data: raw_data,
      bytes_offset: 0
''','''      raw_data: raw_data,
      // The byte order mark is not part of the text.
      bytes_offset: if raw_data.starts_with('\\u{feff}') { 3 } else { 0 }
''')],
'''
fn main() {
  let text = "\\u{feff}a";
  let v: Vec<char> = text.stream().collect();
  assert_eq!(v, text.chars().collect::<Vec<_>>());
}
''',
'a text that begins with U+FEFF',
'the first character of a text that begins with U+FEFF is skipped')

bug('c08-report-buffer','C08',[
 (RT+'parse_state.rs','''    let mut desc = String::new();
    if self.expected.len() > 0 {
      for expect in &self.expected {
        desc.push('`');
        desc.push_str(expect);
        desc.push_str("` or ");
      }
      let len_without_last_or = desc.len() - 4;
      desc.truncate(len_without_last_or);
    }
    desc''','''    use std::sync::Mutex;
    // Reports are built in a buffer which is kept.
    static BUFFER: Mutex<String> = Mutex::new(String::new());
    BUFFER.lock().unwrap().clear();
    let mut items = self.expected.iter();
    if let Some(first) = items.next() {
      let head = format!("`{}`", first);
      BUFFER.lock().unwrap().push_str(&head);
      for expect in items {
        let item = format!(" or `{}`", expect);
        BUFFER.lock().unwrap().push_str(&item);
      }
    }
    let desc = BUFFER.lock().unwrap().clone();
    desc''')],
'''
oak! {
  r = "a" / "b" / "c" / "d" / "e"
  s = "v" / "w" / "x" / "y" / "z"
}
fn main() {
  let stop = std::time::Instant::now() + std::time::Duration::from_secs(20);
  let other = std::thread::spawn(move || while std::time::Instant::now() < stop { format!("{:?}", parse_s("1".into_state()).into_result()); });
  let want = "Error:\\n\\t1:1: unexpected `1`, expecting `a` or `b` or `c` or `d` or `e`.";
  while std::time::Instant::now() < stop {
    let got = format!("{:?}", parse_r("1".into_state()).into_result());
    assert_eq!(got, want);
  }
}
''',
'two threads that print reports at the same time, interleaved between two items',
'reports are built in a buffer that all threads share and that is locked for each item only')

bug('c06-and-consumes','C06',[
 (WF,'''    let child_wfa = self.visit_expr(child);
    let mut wfa = child_wfa;
    wfa.always_consume = false;''','''    let child_wfa = self.visit_expr(child);
    let mut wfa = child_wfa;
    // What fails does not go on.
    wfa.always_consume = wfa.always_consume && !wfa.can_fail && wfa.can_succeed;''')],
'''
fn main() {}
''','','',skip=True)

bug('c06-reparse-failure','C06',[
 (BE+'non_terminal.rs','''    let vars = tuple_pattern(vars_names);
    continuation''','''    let vars = tuple_pattern(vars_names);
    let recognizer_fn = recognizer_name(self.path.clone());
    let mark = context.next_mark_name();
    continuation'''),
 (BE+'non_terminal.rs','''          let stateful = #parser_fn(state);''','''          let #mark = state.mark();
          let stateful = #parser_fn(state);'''),
 (BE+'non_terminal.rs','''            state = stateful.failure();
            #failure''','''            // Find out everything that was expected.
            state = #recognizer_fn(stateful.restore_from_failure(#mark)).failure();
            #failure''')],
'''
use std::cell::Cell;
thread_local!(static OPS: Cell<u64> = Cell::new(0));
fn op() { OPS.with(|o| o.set(o.get() + 1)) }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct S { pos: usize, n: usize }
impl HasNext for S { fn has_next(&self) -> bool { self.pos < self.n } }
impl Iterator for S { type Item = char; fn next(&mut self) -> Option<char> {
  op();
  if self.pos == self.n { return None }
  self.pos += 1;
  Some('(')
} }
impl ConsumePrefix<&'static str> for S { fn consume_prefix(&mut self, p: &'static str) -> bool {
  let mut s = self.clone();
  for c in p.chars() { if s.next() != Some(c) { return false } }
  *self = s;
  true
} }
oak! {
  type Stream<'a> = S;
  r = "(" r ")" > f / "x" > g
  fn f(x: u32) -> u32 { x + 1 }
  fn g() -> u32 { 0 }
}
fn work(n: usize) -> u64 {
  OPS.with(|o| o.set(0));
  assert!(parse_r(ParseState::new(S { pos: 0, n: n })).is_failed());
  OPS.with(|o| o.get())
}
fn main() {
  let (a, b) = (work(20), work(80));
  assert!(b <= 5 * a, "four times the input takes {} stream operations instead of {}", b, a);
}
''',
'nested rules with values, on deeply nested input that fails inside',
'a rule that fails is recognized once more, so nested failures cost more than proportional work')

bug('c01-class-merge','C01',[
 (BE+'character_class.rs','''    let mut intervals = self.classes.intervals.iter().cloned();''','''    // Intervals that overlap or follow each other are tested at once.
    let mut sorted = self.classes.intervals.clone();
    sorted.sort_by_key(|i| i.lo);
    let mut merged: Vec<CharacterInterval> = vec![];
    for i in sorted {
      match merged.last_mut() {
        Some(ref mut last) if i.lo as u32 <= last.hi as u32 + 1 => last.hi = i.hi,
        _ => merged.push(i)
      }
    }
    let mut intervals = merged.into_iter();''')],
'''
oak! {
  r = ["a-zdf"]
}
fn main() {
  for c in 'a'..='z' { assert!(recognize_r((&c.to_string()).into_state()).is_successful(), "{} is in the class", c); }
}
''',
'a class in which one interval contains another',
'intervals of a class are merged such that the end of a contained one cuts the one that contains it')

bug('c05-predicate-silent','C05',[
 (BE+'syntactic_predicate.rs','''        let is_success = state.is_successful();
        state = state.restore(#mark);''','''        let is_success = state.is_successful();
        if is_success && state.farthest_read == state.current {
          // Nothing failed for good here.
          state.expected.clear();
        }
        state = state.restore(#mark);''')],
'''
oak! {
  r = &("a" "b"?) "a" "c"
}
fn main() {
  match parse_r("ax".into_state()).into_result() {
    Failure(e) => assert_eq!(e.expected_items(), "`b` or `c`"),
    _ => panic!()
  }
}
''',
'a predicate that succeeds at the position of the farthest failure',
'expected items at the position where a predicate ended successfully are dropped')

bug('c12-ranged-mark','C12',[
 (BE+'spanned_expr.rs','''      Range { start: #lo_sp.clone(), end: state.mark() }
    );''','''      Range { start: #lo_sp.clone(), end: state.mark() }
    );
    if self.is_ranged {
      // Nothing was read before the end of the input.
      result_expr = parse_quote!({
        let end = state.mark();
        Range { start: if end.has_next() { #lo_sp.clone() } else { #lo_sp.clone().min(end.clone()) }, end: end }
      });
    }''')],
'''
fn main() {}
''','','',skip=True)

bug('c01-literal-choice','C01',[
 (BE+'choice.rs','''  pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {''','''  /// Between literals, the longest one is tried first, such that none hides another.
  fn longest_first<'a>(context: &Context<'a>, mut choices: Vec<usize>) -> Vec<usize> {
    if choices.iter().all(|idx| context.literal(*idx).is_some()) {
      choices.sort_by_key(|idx| ::std::cmp::Reverse(context.literal(*idx).map(|l| l.len())));
    }
    choices
  }

  pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {'''),
 (BE+'choice.rs','''    let mut choices = self.choices.clone();
    let last''','''    let mut choices = Self::longest_first(context, self.choices.clone());
    let last'''),
 (CX,'''  pub fn has_unit_type(&self, expr_idx: usize) -> bool {''','''  pub fn literal(&self, expr_idx: usize) -> Option<String> {
    match self.grammar.expr_by_index(expr_idx) {
      Expression::StrLiteral(lit) => Some(lit),
      _ => None
    }
  }

  pub fn has_unit_type(&self, expr_idx: usize) -> bool {''')],
'''
oak! {
  r = ("a" / "ab") "bc"
}
fn main() {
  assert!(recognize_r("abc".into_state()).is_successful(), "the first branch matches and decides");
}
''',
'a choice between literals one of which is the start of a later one, followed by something that tells which one was taken',
'the branches of a choice between literals are tried in the order of their length')

bug('c03-option-unit','C03',[
 ('src/liboak/middle/typing/type_rewriting.rs','''      Invisible => Invisible,
      Rec(r)''','''      Invisible => Invisible,
      // `Option<()>` says nothing more than `()` unless something else is there.
      Regular(Unit) => match ty { Regular(Optional(_)) => Regular(Unit), ty => ty },
      Rec(r)''')],
'''
oak! {
  r = (["a-z"]:())? "x" > present
  fn present<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
}
fn main() {
  assert_eq!(parse_r("bx".into_state()).unwrap_data(), "Some(())");
}
''',
'an optional part of unit type',
'an optional expression of type unit has the type unit instead of an option of it', compile=True)

bug('c13-literal-ahead','C13',[
 (BE+'str_literal.rs','''        if state.consume_prefix(#lit) {
          #success''','''        if state.consume_prefix(#lit) {
          // Nothing to read any more: remember where the input ended.
          if state.current > state.farthest_read && !state.current.has_next() {
            state.farthest_read = state.current.clone();
            state.expected.clear();
          }
          #success''')],
'''
fn main() {}
''','','',skip=True)
BUGS[:]=[b for b in BUGS if not b.get('skip')]
