from specs import *
BUGS.clear()
CX='src/liboak/back/context.rs'
REJ=''' if cargo build --offline -q 2>"$d/log"; then echo "accepted"; exit 1; fi
grep -q "%s" "$d/log"'''
bug('c01-plus-256','C01',[
 (BE+'repeat.rs','let mut #counter = 0;','let mut #counter = 0u8;'),
 (BE+'repeat.rs','#counter += 1;','#counter = #counter.wrapping_add(1);'),
 (BE+'repeat.rs','if #counter < #cardinality_min {','if (#counter as usize) < #cardinality_min {')],
'''
oak! { r = "a"+ }
fn main() {
  for n in [1usize, 2, 100, 255, 256, 257].iter() {
    let t: String = std::iter::repeat('a').take(*n).collect();
    assert!(recognize_r(t.as_str().into_state()).is_successful(), "{} repetitions", n);
  }
}
''','a repetition of at least one that matches exactly 256 times (or a multiple of it)',
'the number of repetitions is counted modulo 256, so 256 matches count as none')

bug('c06-seq-leak','C06',[
 (WF,'''    self.restore(savepoint);
    wfa
  }
}''','''    if wfa.can_fail && !wfa.always_consume {
      self.restore(savepoint);
    }
    wfa
  }
}''')],
'''
oak! { r = ("a" "b")? r "c" / "d" }
fn main() {}
''','a rule that calls itself behind an optional sequence',
'what a sequence consumed is taken for consumed although the sequence is optional, so hidden left recursion is accepted',
body=REJ%'Left-recursion')

bug('c01-over-reject','C01',[
 (WF,'''      wfa.never_consume &= child_wfa.never_consume;
      if i != children.len() - 1''','''      // Depends on the branch.
      wfa.never_consume = child_wfa.never_consume;
      if i != children.len() - 1''')],
'''
oak! { r = ("a" / "b" / !"c")? "d" }
fn main() {
  assert!(recognize_r("ad".into_state()).is_successful());
}
''','an optional choice whose last branch is a predicate',
'a choice is taken for one that never consumes when its last branch does not: some well-formed grammars are refused',compile=True)

bug('c02-merged-classes','C02',[
 (BE+'mod.rs','''    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),
    ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::recognizer(expr_idx)),''','''    Choice(choices) => {
      // A choice between classes is the union of them.
      let mut intervals = vec![];
      for idx in &choices {
        match grammar.expr_by_index(*idx) {
          CharacterClass(class) => intervals.extend(class.intervals),
          _ => return Box::new(ChoiceCompiler::recognizer(choices))
        }
      }
      Box::new(CharacterClassCompiler::recognizer(CharacterClassExpr::new(intervals)))
    }
    ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::recognizer(expr_idx)),''')],
'''
oak! { r = "<" (["a-z"] / ["0-9"]) }
fn report<T: std::fmt::Debug>(s: ParseState<StrStream<'static>, T>) -> String {
  match s.into_result() { Failure(e) => format!("{:?}", e), _ => panic!() }
}
fn main() {
  assert_eq!(report(recognize_r("<!".into_state())), report(parse_r("<!".into_state())));
}
''','a choice between character classes that fails in a recognizer',
'recognizers match a choice between classes as one class, so they report other expected items than parsers')

bug('c04-optional-retry','C04',[
 (BE+'optional.rs','''          if state.is_failed() {
            state = state.restore_from_failure(#mark);
          }''','''          if state.is_failed() {
            // Part of it was there: go again over it for the sake of the error report.
            let partial = state.current > #mark;
            state = state.restore_from_failure(#mark.clone());
            if partial && state.expected.is_empty() {
              state = #body;
              if state.is_failed() { state = state.restore_from_failure(#mark); }
            }
          }''')],
'''
oak! {
  r = (e "," e)? .* > all
  e = ["a-z"] > seen
  fn seen(c: char) -> char { N.with(|n| n.set(n.get() + 1)); c }
  fn all(x: Option<(char, char)>, y: Vec<char>) -> usize { y.len() }
}
thread_local!(static N: std::cell::Cell<u32> = std::cell::Cell::new(0));
fn main() {
  parse_r("a;b".into_state());
  assert_eq!(N.with(|n| n.get()), 1, "the action of the first element ran again");
}
''','','',skip=True)

bug('c04-closure-action','C04',[
 (BE+'semantic_action.rs','''        parse_quote!({
          let #result = #boxed_action_call;
          #success
        })})''','''        // A unit variant costs nothing, and neither does a call that is never needed.
        parse_quote!({
          let #result = #boxed_action_call;
          #success
        })})''')],'''fn main(){}''','','',skip=True)

bug('c04-choice-value','C04',[
 (BE+'rule.rs','''  fn parser_equals_recognizer(&self) -> bool {
    self.grammar[self.expr()].ty == Type::Unit
  }''','''  // The data of a rule that is a list of units is nothing but its length.
  fn parser_equals_recognizer(&self) -> bool {
    self.grammar[self.expr()].ty == Type::Unit
  }''')],'''fn main(){}''','','',skip=True)

bug('c13-optional-peek','C13',[
 (BE+'optional.rs','''          if state.is_failed() {
            state = state.restore_from_failure(#mark);
          }
          #success''','''          if state.is_failed() {
            // At the end of the input there was nothing to match.
            if !#mark.has_next() { state.failed = true; }
            state = state.restore_from_failure(#mark);
          }
          #success''')],
'''
use std::cmp::Ordering;
#[derive(Clone)]
struct C { i: usize }
// Two items were delivered; asking for a third one would block forever.
const T: &'static [char] = &['a', 'b'];
impl oak_runtime::stream::Stream for C { type Output = C; fn stream(self) -> C { self } }
impl Iterator for C { type Item = char; fn next(&mut self) -> Option<char> { if self.i >= T.len() { panic!("would block"); } self.i += 1; Some(T[self.i - 1]) } }
impl PartialEq for C { fn eq(&self, o: &C) -> bool { self.i == o.i } }
impl Eq for C {}
impl PartialOrd for C { fn partial_cmp(&self, o: &C) -> Option<Ordering> { self.i.partial_cmp(&o.i) } }
impl Ord for C { fn cmp(&self, o: &C) -> Ordering { self.i.cmp(&o.i) } }
impl HasNext for C { fn has_next(&self) -> bool { if self.i >= T.len() { panic!("would block"); } true } }
impl ConsumePrefix<&'static str> for C { fn consume_prefix(&mut self, x: &'static str) -> bool { for c in x.chars() { if self.next() != Some(c) { return false } } true } }
oak! {
  type Stream<'a> = C;
  r = "ab" (!"" "x")? ""
  s = "ab" ("" !"" )? ""
}
fn main() {
  assert!(recognize_r(C { i: 0 }.into_state()).is_successful());
}
''','','',skip=True)

bug('c13-repeat-peek','C13',[
 (BE+'repeat.rs','''            if #counter < #cardinality_min {
              #failure
            }''','''            if #counter < #cardinality_min && state.expected.is_empty() && !#mark.has_next() {
              #failure
            }
            else if #counter < #cardinality_min {
              #failure
            }''')],'''fn main(){}''','','',skip=True)

bug('c13-repeat-ahead','C13',[
 (BE+'repeat.rs','''            loop {
              state = #body;
              if state.is_successful() {
                #mark = state.mark();
              }''','''            loop {
              state = #body;
              if state.is_successful() {
                #mark = state.mark();
                // Nothing is left that could be repeated.
                if !#mark.has_next() { state.failed = true; break; }
              }''')],
'''fn main(){}''','','',skip=True)

bug('c05-repeat-end','C05',[
 (BE+'repeat.rs','''            loop {
              state = #body;
              if state.is_successful() {
                #mark = state.mark();
              }''','''            loop {
              state = #body;
              if state.is_successful() {
                #mark = state.mark();
                // Nothing is left that could be repeated.
                if !state.current.clone().has_next() { state.failed = true; break; }
              }''')],
'''
oak! { r = ["a"]* "b" }
fn main() {
  match recognize_r("aa".into_state()).into_result() {
    Failure(e) => { assert!(e.expected_items().contains("[\\"a\\"]"), "{}", e.expected_items()); }
    _ => panic!()
  }
}
''','a repetition that ends with the input',
'a repetition that reaches the end of the input stops without trying once more, so what it would have matched is not reported as expected')

bug('c14-replaced-data','C14',[
 (RT+'parse_state.rs','''  pub fn success<U>(self, data: U) -> ParseState<S, U> {
    ParseState {''','''  pub fn success<U>(mut self, data: U) -> ParseState<S, U> {
    // Its place is taken by the new data.
    if let Some(old) = self.data.take() {
      ::std::mem::forget(old);
    }
    ParseState {''')],
'''
struct D;
thread_local!(static N: std::cell::Cell<u32> = std::cell::Cell::new(0));
impl Drop for D { fn drop(&mut self) { N.with(|n| n.set(n.get() + 1)); } }
fn main() {
  let s: ParseState<StrStream, D> = IntoState::<StrStream, ()>::into_state("ab").success(D);
  let s = s.success(3);
  drop(s);
  assert_eq!(N.with(|n| n.get()), 1, "the data that was replaced is never released");
}
''','success on a state that holds data already',
'the data that success replaces is never released')

bug('c05-prefix-dedup','C05',[
 (RT+'parse_state.rs','''    else if self.current == self.farthest_read {
      self.expected.push(expect);''','''    else if self.current == self.farthest_read {
      // The longer item says it all.
      if self.expected.iter().any(|e| e.len() > expect.len() + 1 && e.starts_with(expect)) { return; }
      self.expected.push(expect);''')],
'''
oak! { r = "letter" / "let" }
fn main() {
  match recognize_r("x".into_state()).into_result() {
    Failure(e) => assert_eq!(e.expected_items(), "`let` or `letter`"),
    _ => panic!()
  }
}
''','a terminal that fails after a longer one that begins with it failed at the same position',
'an expected item is dropped when a longer one that begins with it is expected already')

bug('c06-fixpoint-partial','C06',[
 (WF,'''    if wfa != self.rules_wfa[&rule] {
''','''    let old = self.rules_wfa[&rule];
    if (wfa.can_fail, wfa.can_succeed, wfa.never_consume) != (old.can_fail, old.can_succeed, old.never_consume) {
''')],
'''
oak! { r = "(" r* ")" / !"x" }
fn main() {}
''','a rule that repeats itself and has a branch that can fail but never consumes',
'whether a recursive rule always consumes is not updated during the analysis, so repetitions of it that loop forever are accepted',
body=REJ%'Infinite loop')

bug('c11-wfa-cache','C11',[
 (WF,'''      rules_wfa: grammar.rules.iter()
        .map(|rule| (rule.ident(), WFA::default()))
        .collect(),''','''      rules_wfa: grammar.rules.iter()
        .map(|rule| (rule.ident(), KNOWN.with(|k| k.borrow().get(&rule.ident().to_string()).cloned()).unwrap_or_default()))
        .collect(),'''),
 (WF,'''    analyser.visit_rules();
    analyser.well_formed''','''    analyser.visit_rules();
    // The fixpoint is a good place to start from the next time.
    KNOWN.with(|k| k.borrow_mut().extend(analyser.rules_wfa.iter().map(|(rule, wfa)| (rule.to_string(), *wfa))));
    analyser.well_formed'''),
 (WF,'''pub struct WellFormedness<'a>
{''','''thread_local!(static KNOWN: ::std::cell::RefCell<HashMap<String, WFA>> = ::std::cell::RefCell::new(HashMap::new()));

pub struct WellFormedness<'a>
{''')],
'''
mod one { use oak::oak; use oak_runtime::*; oak! { r = "a" / "" } }
mod three { use oak::oak; use oak_runtime::*; oak! { r: (^) = "[" r* "]" / "." } }
fn main() {
  assert!(three::recognize_r("[..]".into_state()).is_successful());
}
''','a grammar with a recursive rule that is expanded after another grammar with a rule of the same name',
'the analysis of a grammar starts from what is known about rules of the same names in other grammars of the crate: it refuses grammars, depending on their neighbours',compile=True)

bug('c08-expected-pool','C08',[
 (RT+'parse_state.rs','''      farthest_read: stream.clone(),
      expected: vec![],''','''      farthest_read: stream.clone(),
      expected: POOL.with(|p| p.take()),'''),
 (RT+'parse_state.rs','''    let expectation = ParseExpectation::new(self.farthest_read, self.expected);
    match self.data {''','''    let mut expected = self.expected;
    let expectation = ParseExpectation::new(self.farthest_read, expected.clone());
    if self.failed { expected.clear(); }
    POOL.with(|p| p.set(expected));
    match self.data {'''),
 (RT+'parse_state.rs','''/// `ParseState<S, T>` reads value''','''thread_local! {
  /// The buffer of the last parse, for the next one.
  static POOL: ::std::cell::Cell<Vec<&'static str>> = ::std::cell::Cell::new(vec![]);
}

/// `ParseState<S, T>` reads value''')],
'''
oak! { r = "a" "b"? }
fn main() {
  let f = || match recognize_r("x".into_state()).into_result() { Failure(e) => e.expected_items(), _ => panic!() };
  let alone = f();
  recognize_r("ac".into_state()).into_result();
  assert_eq!(f(), alone, "the report contains what another parse expected");
}
''','a parse that fails at its first item after a parse of the same thread succeeded',
'expected items of a successful parse are left in a buffer of the thread and show up in the report of the next one')

bug('c12-span-farthest','C12',[
 (BE+'spanned_expr.rs','''      Range { start: #lo_sp.clone(), end: state.mark() }
''','''      Range { start: #lo_sp.clone(), end: if state.current < #lo_sp { #lo_sp.clone() } else { state.mark() } }
''')],'''fn main(){}''','','',skip=True)

bug('c12-shared-start','C12',[
 (BE+'spanned_expr.rs','''    let lo_sp = context.next_mark_name();
''','''    // Nested spans of one sequence start at the same place.
    let outer = context.last_mark();
    let nested = match context.expr_of(self.expr_idx) {
      Expression::SpannedExpr(_) | Expression::RangeExpr(_) => true,
      _ => false
    };
    let lo_sp = match outer {
      Some(ref mark) if nested => mark.clone(),
      _ => context.next_mark_name()
    };
'''),
 (CX,'''  pub fn pop_mark(&mut self) {''','''  pub fn last_mark(&self) -> Option<Ident> {
    self.mark_variables.last().cloned()
  }

  pub fn expr_of(&self, expr_idx: usize) -> Expression {
    self.grammar.expr_by_index(expr_idx)
  }

  pub fn pop_mark(&mut self) {''')],'''fn main(){}''','','',skip=True)

bug('c12-line-span','C12',[
 (RT+'file_map_stream.rs','@@','')],'''fn main(){}''','','',skip=True)
BUGS[:]=[b for b in BUGS if not b.get('skip')]
