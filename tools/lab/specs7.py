from specs import *
BUGS.clear()
CX='src/liboak/back/context.rs'
FP='src/liboak/front/parser.rs'
TA='src/liboak/middle/typing/ast.rs'
REJ=''' if cargo build --offline -q 2>"$d/log"; then echo "accepted"; exit 1; fi
grep -q "%s" "$d/log"'''
LAZY="""
use std::cmp::Ordering;
use std::cell::Cell;
thread_local!(static ASKED: Cell<usize> = Cell::new(0));
thread_local!(static OPS: Cell<u64> = Cell::new(0));
#[derive(Clone)]
pub struct Lazy(&'static [u8], usize);
impl Iterator for Lazy { type Item = char; fn next(&mut self) -> Option<char> {
  OPS.with(|a| a.set(a.get() + 1));
  ASKED.with(|a| a.set(a.get().max(self.1 + 1)));
  let c = self.0.get(self.1).map(|b| *b as char); if c.is_some() { self.1 += 1; } c } }
impl PartialEq for Lazy { fn eq(&self, o: &Lazy) -> bool { self.1 == o.1 } }
impl Eq for Lazy {}
impl PartialOrd for Lazy { fn partial_cmp(&self, o: &Lazy) -> Option<Ordering> { self.1.partial_cmp(&o.1) } }
impl Ord for Lazy { fn cmp(&self, o: &Lazy) -> Ordering { self.1.cmp(&o.1) } }
impl HasNext for Lazy { fn has_next(&self) -> bool { self.clone().next().is_some() } }
impl ConsumePrefix<&'static str> for Lazy { fn consume_prefix(&mut self, p: &'static str) -> bool {
  let mut s = self.clone();
  for c in p.chars() { if s.next() != Some(c) { return false } }
  *self = s; true } }
impl oak_runtime::stream::Stream for Lazy { type Output = Lazy; fn stream(self) -> Lazy { self } }
"""
CALLS="""
use std::cell::RefCell;
thread_local!(static LOG: RefCell<String> = RefCell::new(String::new()));
fn calls() -> String { LOG.with(|l| l.replace(String::new())) }
pub type Item = u32;
"""
TRACE='''
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub fn note(x: &str) { LOG.with(|l| l.borrow_mut().push(x.to_string())); }
pub fn taken() -> Vec<String> { LOG.with(|l| l.borrow_mut().drain(..).collect()) }
'''
# choice `a x / a y` rewritten as `a (x / y)`: same matches and values, fewer action calls
bug('c04-left-factor','C04',[
 (TA,'''    grammar.alloc_span_ty_expr();
    grammar
  }
''','''    grammar.left_factor();
    grammar.alloc_span_ty_expr();
    grammar
  }

  /// `a e1 / a e2` is turned into `a (e1 / e2)`, so `a` is parsed only once.
  fn left_factor(&mut self) {
    for idx in 0..self.exprs.len() {
      let branches = match self.exprs[idx] {
        Choice(ref branches) => branches.clone(),
        _ => continue
      };
      let mut common: Option<(usize, Ident)> = None;
      let mut rests: Vec<Vec<usize>> = vec![];
      for branch in &branches {
        if let Sequence(ref seq) = self.exprs[*branch] {
          if let NonTerminalSymbol(ref id) = self.exprs[seq[0]] {
            if rests.is_empty() { common = Some((seq[0], id.clone())); }
            if common.as_ref().map_or(false, |c| c.1 == *id) {
              rests.push(seq[1..].to_vec());
            }
          }
        }
      }
      if let Some((head, _)) = common {
        if rests.len() == branches.len() {
          let span = self.exprs_info[idx].span;
          let tails: Vec<usize> = rests.into_iter()
            .map(|rest| if rest.len() == 1 { rest[0] } else { self.alloc(span, Sequence(rest)) })
            .collect();
          let tail = self.alloc(span, Choice(tails));
          self.exprs[idx] = Sequence(vec![head, tail]);
          // The branches are not used any more.
          for branch in branches {
            if let Sequence(seq) = self.exprs[branch].clone() {
              if seq[0] != head { self.exprs_info[seq[0]].ty = Invisible; }
            }
            self.exprs_info[branch].ty = Invisible;
          }
        }
      }
    }
  }

  fn alloc(&mut self, span: Span, expr: Expression) -> usize {
    self.exprs.push(expr);
    self.exprs_info.push(ExprIType::infer(span));
    self.exprs.len() - 1
  }
''')],CALLS+"""
oak! {
  r = item "x" / item "y"
  item = ["a-z"] > letter
  fn letter(c: char) -> Item { LOG.with(|l| l.borrow_mut().push(c)); 1 }
}
fn main() {
  assert!(parse_r("ax".into_state()).is_successful());
  assert_eq!(calls(), "a");
  assert!(parse_r("by".into_state()).is_successful());
  assert_eq!(calls(), "bb", "the item is matched in both branches");
}
""",
'a choice whose branches all start with the same rule, which runs an action, and an input that is not matched by the first branch',
'the common first rule of the branches is parsed once for all of them, so its actions are called once instead of once per branch')

bug('c04-optional-probe','C04',[
 (BE+'optional.rs','''    let optional_expr = self.compile(context, continuation, body);''','''    // Values are only built once we know that the expression matches.
    let probe = context.compile_recognizer_expr(self.expr_idx);
    let probe_mark = context.next_mark_name();
    let body: syn::Expr = parse_quote!({
      let #probe_mark = state.mark();
      state = #probe;
      if state.is_successful() {
        state = state.restore(#probe_mark);
        #body
      }
      else { state }
    });
    let optional_expr = self.compile(context, continuation, body);''')],CALLS+"""
oak! {
  r = (item "!")? .
  item = ["a-z"] > letter
  fn letter(c: char) -> Item { LOG.with(|l| l.borrow_mut().push(c)); 1 }
}
fn main() {
  assert!(parse_r("a!b".into_state()).is_successful());
  assert_eq!(calls(), "a");
  assert!(parse_r("b?".into_state()).is_successful());
  assert_eq!(calls(), "b", "the item is matched before the optional part fails");
}
""",
'an optional expression in which an action is run before a later part of it fails',
'an optional expression is recognized before it is parsed, so the actions of one that does not match are not called')

bug('c06-probe-nesting','C06',[
 (BE+'optional.rs','''    let optional_expr = self.compile(context, continuation, body);''','''    // Values are only built once we know that the expression matches.
    let probe = context.compile_recognizer_expr(self.expr_idx);
    let probe_mark = context.next_mark_name();
    let body: syn::Expr = parse_quote!({
      let #probe_mark = state.mark();
      state = #probe;
      if state.is_successful() {
        state = state.restore(#probe_mark);
        #body
      }
      else { state }
    });
    let optional_expr = self.compile(context, continuation, body);''')],LAZY+"""
pub type Item = u32;
oak! {
  type Stream<'a> = Lazy;
  r = "(" r? > one
  fn one(c: Option<Item>) -> Item { c.map_or(1, |c| c + 1) }
}
fn work(text: &'static [u8]) -> u64 {
  OPS.with(|o| o.set(0));
  assert!(parse_r(Lazy(text, 0).into_state()).is_successful());
  OPS.with(|o| o.get())
}
fn main() {
  let (a, b) = (work(b"(((("), work(b"(((((((((((((((("));
  assert!(b <= 8 * a, "four times the input takes {} stream operations instead of {}", b, a);
}
""",
'optional expressions nested through recursion','work doubles at each level of nesting')

# two consecutive classes read together
bug('c13-class-run','C13',[
 (BE+'mod.rs','''    Sequence(seq) => Box::new(SequenceCompiler::recognizer(seq)),
    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),''','''    Sequence(seq) => {
      let mut classes = vec![];
      for idx in &seq {
        if let CharacterClass(class) = grammar.expr_by_index(*idx) { classes.push(class); }
      }
      if classes.len() == seq.len() {
        return Box::new(ClassRunCompiler::recognizer(classes, seq));
      }
      Box::new(SequenceCompiler::recognizer(seq))
    }
    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),'''),
 (BE+'character_class.rs','''impl CompileExpr for CharacterClassCompiler
''','''/// A run of classes such as `["0-9"] ["0-9"] ["0-9"]`: the characters are read at once, and only examined one by one in case of a mismatch.
pub struct ClassRunCompiler
{
  classes: Vec<CharacterClassExpr>,
  seq: Vec<usize>
}

impl ClassRunCompiler
{
  pub fn recognizer(classes: Vec<CharacterClassExpr>, seq: Vec<usize>) -> ClassRunCompiler {
    ClassRunCompiler { classes, seq }
  }
}

impl CompileExpr for ClassRunCompiler
{
  fn compile_expr<'a>(&self, context: &mut Context<'a>,
    continuation: Continuation) -> syn::Expr
  {
    let n = self.classes.len();
    let mark = context.next_mark_name();
    let conditions: Vec<syn::Expr> = self.classes.iter().enumerate()
      .map(|(i, class)| {
        let x = format_ident!("x");
        let condition = CharacterClassCompiler::recognizer(class.clone()).compile_condition(x.clone());
        parse_quote!({ let #x = run[#i]; #condition })
      })
      .collect();
    let (success, failure) = continuation.unwrap();
    let slow = self.seq.clone().into_iter().rev()
      .fold(Continuation::new(parse_quote!(state), parse_quote!(state.failure())), |continuation, idx|
        continuation.compile_success(context, recognizer_compiler, idx))
      .unwrap_success();
    parse_quote!({
      let #mark = state.mark();
      let run: Vec<char> = state.by_ref().take(#n).collect();
      let matched = run.len() == #n #(&& #conditions)*;
      if !matched {
        state = state.restore(#mark);
        state = #slow;
      }
      if state.is_successful() {
        #success
      }
      else {
        #failure
      }
    })
  }
}

impl CompileExpr for CharacterClassCompiler
''')],LAZY+"""
oak! { type Stream<'a> = Lazy; r = ["0-9"] ["0-9"] ["0-9"] }
fn main() {
  assert!(recognize_r(Lazy(b"x and more", 0).into_state()).is_failed());
  ASKED.with(|a| assert_eq!(a.get(), 1, "nothing after the first character is needed"));
}
""",
'a sequence made of character classes only, of which one but the last does not match, over a stream whose next items are not there yet',
'the items of all the classes are asked for before the first one is examined')

bug('c01-class-bsearch','C01',[
 (BE+'character_class.rs','''  fn compile_condition(&self, x: Ident) -> syn::Expr {
''','''  fn compile_condition(&self, x: Ident) -> syn::Expr {
    // Classes with many intervals are looked up in a sorted table.
    if self.classes.intervals.len() >= 6 {
      let mut sorted = self.classes.intervals.clone();
      sorted.sort_by_key(|i| i.lo);
      let (los, his): (Vec<char>, Vec<char>) = sorted.into_iter().map(|i| (i.lo, i.hi)).unzip();
      return parse_quote!([#((#los, #his)),*].binary_search_by(|&(lo, hi)|
        if hi < #x { ::std::cmp::Ordering::Less }
        else if lo > #x { ::std::cmp::Ordering::Greater }
        else { ::std::cmp::Ordering::Equal }).is_ok());
    }
''')],'''
oak! { r = ["a-z0-9_gmt"] }
fn main() {
  for c in "abcdefghijklmnopqrstuvwxyz0123456789_".chars() {
    let t = c.to_string();
    assert!(recognize_r(t.as_str().into_state()).is_successful(), "{}", c);
  }
}
''','a class of at least six intervals of which some overlap','characters of an interval that overlaps others are not found')

bug('c05-control-literal','C05',[
 (BE+'str_literal.rs','''          state.error(#lit);''','''          state.error(#desc);'''),
 (BE+'str_literal.rs','''    let lit = self.literal.as_str();''','''    let lit = self.literal.as_str();
    // Line ends would break the layout of the report.
    let desc = lit.trim_end_matches(|c| c == '\\n' || c == '\\r');
    let desc = if desc.is_empty() { lit } else { desc };''')],'''
oak! { r = "end\\n" / "end" "!" }
fn main() {
  let s = recognize_r("eof".into_state());
  let mut e = s.expected.clone(); e.sort();
  assert_eq!(e, vec!["end", "end\\n"]);
}
''','a literal that ends with a line end, but is not only made of them','the line end of a literal is missing in the expected items')

bug('c05-same-mark','C05',[
 (RT+'parse_state.rs',"""      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,
      current: mark,
      data: None
    }""","""      // What was expected before the mark is not useful anymore.
      expected: if self.farthest_read < mark { vec![] } else { self.expected },
      farthest_read: self.farthest_read,
      failed: false,
      current: mark,
      data: None
    }""")],"""
oak! { r = "a"? . !. }
fn main() {
  let s = recognize_r("bc".into_state());
  assert_eq!(s.expected, vec!["a"]);
}
""",'a predicate whose expression matches without any terminal failing, farther than the last failure','the expected items are lost when a state is restored at a position farther than the last failure')

bug('c06-visit-once','C06',[
 (WF,"""    else {
      self.push_rule_in_path(rule);
      let wfa = self.visit_rule_expr(rule);""","""    else if self.visited.insert(rule.clone()) {
      self.push_rule_in_path(rule);
      let wfa = self.visit_rule_expr(rule);"""),
 (WF,"""      self.reached_fixpoint = true;
      for""","""      self.reached_fixpoint = true;
      self.visited.clear();
      for"""),
 (WF,"""  reached_fixpoint: bool,
""","""  reached_fixpoint: bool,
  visited: HashSet<Ident>, // Rules that are already analysed in the current iteration.
"""),
 (WF,"""      reached_fixpoint: false,
""","""      reached_fixpoint: false,
      visited: HashSet::new(),
""")],"""
oak! {
  a = "x" b / c "y" / "z"
  b = a "u" / "v"
  c = b "w" / "t"
}
fn main() {}
""",'a left recursion through a rule which is first visited behind something that consumes','each rule is analysed once per iteration, so a cycle that goes through an analysed rule is not seen',body=REJ%'Left-recursion')

bug('c09-has-next-line','C09',[
 ('runtime/src/file_map_stream.rs',"""    self.stream.has_next()""","""    self.stream.has_next()"""),],'','x','noop')

bug('c01-box-drop','C02',[
 (BE+'mod.rs',"""      SemanticAction(expr_idx, _, _)
    | TypeAscription(expr_idx, _)
    | SpannedExpr(expr_idx)
    | RangeExpr(expr_idx) => recognizer_compiler(grammar, expr_idx),""","""      SemanticAction(expr_idx, _, _)
    | TypeAscription(expr_idx, _)
    | SpannedExpr(expr_idx)
    | RangeExpr(expr_idx) => match grammar.expr_by_index(expr_idx) {
        // What is captured is never empty.
        ZeroOrMore(idx) if grammar[expr_idx].type_cardinality() == 0 => recognizer_compiler(grammar, idx),
        _ => recognizer_compiler(grammar, expr_idx)
      },""")],'','x','y')
