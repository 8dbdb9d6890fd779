from specs import *
BUGS.clear()
CX='src/liboak/back/context.rs'
FP='src/liboak/front/parser.rs'
NF='src/liboak/back/name_factory.rs'
bug('c04-batched-repeat','C04',[
 (BE+'mod.rs','''      ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 0)),
      OneOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 1)),
      NonTerminalSymbol(id) => Box::new(NonTerminalCompiler::parser(id, idx)),''','''      ZeroOrMore(expr_idx) => Box::new(repeat_parser(grammar, expr_idx, 0)),
      OneOrMore(expr_idx) => Box::new(repeat_parser(grammar, expr_idx, 1)),
      NonTerminalSymbol(id) => Box::new(NonTerminalCompiler::parser(id, idx)),'''),
 (BE+'mod.rs','''pub fn recognizer_compiler(grammar''','''/// In `(e > f)*`, the function is mapped over the values of `e`, so the loop itself is kept small.
fn repeat_parser(grammar: &TGrammar, idx: usize, cardinality_min: usize) -> RepeatCompiler {
  match grammar.expr_by_index(idx) {
    SemanticAction(child, boxed, action) =>
      if grammar[child].type_cardinality() > 0 {
        return RepeatCompiler::parser(child, cardinality_min).map(boxed, action);
      },
    _ => ()
  }
  RepeatCompiler::parser(idx, cardinality_min)
}

pub fn recognizer_compiler(grammar'''),
 (BE+'repeat.rs','''use back::compiler::*;
''','''use back::compiler::*;
use back::compiler::value::*;
use quote::format_ident;
'''),
 (BE+'repeat.rs','''  cardinality_min: usize,
  compiler_kind: CompilerKind
}''','''  cardinality_min: usize,
  compiler_kind: CompilerKind,
  action: Option<(bool, syn::Expr)>
}'''),
 (BE+'repeat.rs','''      compiler_kind: CompilerKind::Recognizer
    }''','''      compiler_kind: CompilerKind::Recognizer,
      action: None
    }'''),
 (BE+'repeat.rs','''      compiler_kind: CompilerKind::Parser
    }
  }
''','''      compiler_kind: CompilerKind::Parser,
      action: None
    }
  }

  pub fn map(mut self, boxed: bool, action: syn::Expr) -> RepeatCompiler {
    self.action = Some((boxed, action));
    self
  }
'''),
 (BE+'repeat.rs','''    let repeat_expr = self.compile(context, continuation, body);
    parse_quote!({
      let mut #result_var = vec![];''','''    let continuation = match self.action.clone() {
      None => continuation,
      Some((boxed, action)) => {
        let args: Vec<Ident> = (0..context.expr_cardinality(self.expr_idx))
          .map(|i| format_ident!("item{}", i))
          .collect();
        let pattern = tuple_pattern(args.clone());
        let mut call: syn::Expr = parse_quote!(#action(#(#args),*));
        if boxed { call = parse_quote!(Box::new(#call)); }
        continuation.map_success(|success, _| parse_quote!({
          let #result_var: Vec<_> = #result_var.into_iter().map(|#pattern| #call).collect();
          #success
        }))
      }
    };
    let repeat_expr = self.compile(context, continuation, body);
    parse_quote!({
      let mut #result_var = vec![];''')],
'''
use std::cell::RefCell;
thread_local!(static LOG: RefCell<String> = RefCell::new(String::new()));
pub type Item = u32;
oak! {
  list = (item ";" > outer)*
  item = ["a-z"] > inner
  fn inner(c: char) -> Item { LOG.with(|l| l.borrow_mut().push(c)); 1 }
  fn outer(i: Item) -> Item { LOG.with(|l| l.borrow_mut().push(';')); i }
}
fn main() {
  assert!(parse_list("a;b;c;".into_state()).is_successful());
  LOG.with(|l| assert_eq!(*l.borrow(), "a;b;c;"));
}
''','a repeated semantic action whose expression calls a rule with actions of its own',
'the actions of the repetitions run after the whole loop, so after those of later repetitions')

bug('c04-action-after-guard','C04',[
 (BE+'mod.rs','''      Sequence(seq) => Box::new(SequenceCompiler::parser(seq)),
      Choice''','''      Sequence(seq) => {
        let guarded = guarded_actions(grammar, &seq);
        Box::new(SequenceCompiler::parser(seq).guarded(guarded))
      },
      Choice'''),
 (BE+'mod.rs','''pub fn recognizer_compiler(grammar''','''/// The actions directly followed by a predicate: `(e > f) !g`.
/// The predicate is evaluated before the function is called, which avoids useless work if it fails.
fn guarded_actions(grammar: &TGrammar, seq: &Vec<usize>) -> Vec<(usize, Guarded)> {
  seq.windows(2)
    .filter_map(|w| match (grammar.expr_by_index(w[0]), grammar.expr_by_index(w[1])) {
      (SemanticAction(child, boxed, action), NotPredicate(_))
    | (SemanticAction(child, boxed, action), AndPredicate(_)) if grammar[w[0]].ty != Type::Unit =>
        Some((w[1], Guarded { child, boxed, action, this: w[0] })),
      _ => None
    })
    .collect()
}

pub fn recognizer_compiler(grammar'''),
 (BE+'sequence.rs','''pub struct SequenceCompiler
{
  seq: Vec<usize>,
  compiler: ExprCompilerFn
}
''','''use back::compiler::semantic_action::*;

/// A semantic action followed by a predicate.
#[derive(Clone)]
pub struct Guarded
{
  pub child: usize,
  pub boxed: bool,
  pub action: syn::Expr,
  pub this: usize
}

pub struct SequenceCompiler
{
  seq: Vec<usize>,
  compiler: ExprCompilerFn,
  guarded: Vec<(usize, Guarded)>
}
'''),
 (BE+'sequence.rs','''      compiler: recognizer_compiler
    }''','''      compiler: recognizer_compiler,
      guarded: vec![]
    }'''),
 (BE+'sequence.rs','''      compiler: parser_compiler
    }
  }
''','''      compiler: parser_compiler,
      guarded: vec![]
    }
  }

  pub fn guarded(mut self, guarded: Vec<(usize, Guarded)>) -> SequenceCompiler {
    self.guarded = guarded;
    self
  }
'''),
 (BE+'sequence.rs','''      .fold(continuation, |continuation, idx|
        continuation.compile_success(context, self.compiler, idx))''','''      .fold(continuation, |continuation, idx| {
        if let Some((_, ref g)) = self.guarded.iter().find(|g| g.0 == idx) {
          let action = SemanticActionCompiler::parser(g.child, g.boxed, g.action.clone(), g.this).guard(idx);
          continuation.map_success(|success, failure|
            action.compile_expr(context, Continuation::new(success, failure)))
        }
        // Already compiled along with the predicate that follows.
        else if self.guarded.iter().any(|g| g.1.this == idx) { continuation }
        else { continuation.compile_success(context, self.compiler, idx) }
      })'''),
 (BE+'semantic_action.rs','''  boxed: bool,
  action: syn::Expr
}''','''  boxed: bool,
  action: syn::Expr,
  guard: Option<usize>
}'''),
 (BE+'semantic_action.rs','''      expr_idx, boxed, action
    }
  }''','''      expr_idx, boxed, action, guard: None
    }
  }

  pub fn guard(mut self, idx: usize) -> SemanticActionCompiler {
    self.guard = Some(idx);
    self
  }'''),
 (BE+'semantic_action.rs','''    let expr = continuation
      .map_success(|success, _| {''','''    let mut continuation = continuation
      .map_success(|success, _| {'''),
 (BE+'semantic_action.rs','''        })})
      .compile_success(context, parser_compiler, self.expr_idx)
      .unwrap_success();''','''        })});
    if let Some(guard) = self.guard {
      continuation = continuation.compile_success(context, recognizer_compiler, guard);
    }
    let expr = continuation
      .compile_success(context, parser_compiler, self.expr_idx)
      .unwrap_success();'''),
 ],
'''
use std::cell::RefCell;
thread_local!(static LOG: RefCell<String> = RefCell::new(String::new()));
pub type Item = u32;
oak! {
  word = (["a-z"] > letter) !"!" / .:(^) "!" > other
  fn letter(c: char) -> Item { LOG.with(|l| l.borrow_mut().push(c)); 1 }
  fn other() -> Item { LOG.with(|l| l.borrow_mut().push('!')); 2 }
}
fn main() {
  assert!(parse_word("a".into_state()).is_successful());
  assert!(parse_word("b!".into_state()).is_successful());
  // The letter is matched, then the predicate fails.
  LOG.with(|l| assert_eq!(*l.borrow(), "ab!"));
}
''','a semantic action directly followed by a predicate that fails',
'the function of a matched expression is not called if the predicate after it fails')

bug('c05-unreachable-drop','C05',[
 (BE+'mod.rs','''      Choice(choices) => Box::new(ChoiceCompiler::parser(choices)),''','''      Choice(choices) => Box::new(ChoiceCompiler::parser(reachable(grammar, choices))),'''),
 (BE+'mod.rs','''    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),
    ZeroOrOne''','''    Choice(choices) => Box::new(ChoiceCompiler::recognizer(reachable(grammar, choices))),
    ZeroOrOne'''),
 (BE+'mod.rs','''pub fn recognizer_compiler(grammar''','''/// A literal that starts with the literal of a previous branch is never reached.
fn reachable(grammar: &TGrammar, choices: Vec<usize>) -> Vec<usize> {
  let mut seen: Vec<String> = vec![];
  choices.into_iter()
    .filter(|idx| match grammar.expr_by_index(*idx) {
      StrLiteral(lit) => {
        let keep = !seen.iter().any(|s| lit.starts_with(s.as_str()));
        seen.push(lit);
        keep
      }
      _ => true
    })
    .collect()
}

pub fn recognizer_compiler(grammar''')],
'''
oak! { r = "let" / "letrec" / "fn" }
fn main() {
  match recognize_r("x".into_state()).into_result() {
    Failure(e) => assert_eq!(e.expected_items(), "`fn` or `let` or `letrec`"),
    _ => panic!()
  }
}
''','a choice of literals, one of which starts with an earlier one',
'branches that cannot be reached are dropped, and with them what they expect')

bug('c09-nth-end','C09',[
 (RT+'file_map_stream.rs','''  fn next(&mut self) -> Option<Self::Item> {''','''  fn nth(&mut self, n: usize) -> Option<Self::Item> {
    let mut ahead = self.clone();
    for _ in 0..n {
      ahead.next()?;
    }
    let item = ahead.next()?;
    *self = ahead;
    Some(item)
  }

  fn next(&mut self) -> Option<Self::Item> {''')],
'''
extern crate syntex_pos;
use std::rc::Rc;
use std::cell::RefCell;
use syntex_pos::{FileMap, BytePos};
fn main() {
  let f = Rc::new(FileMap {
    name: "f".to_string(), abs_path: None, src: Some(Rc::new("abc".to_string())),
    start_pos: BytePos(0), end_pos: BytePos(3), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![])
  });
  let mut s = (&f).stream();
  assert_eq!(s.nth(1), Some('b'));
  assert_eq!(s.nth(5), None);
  assert_eq!(s.next(), None, "the cursor is at the end");
}
''','skipping past the end of a source file',
'a cursor that skips beyond the end stays where it was, and goes on to give the rest of the text')

bug('c13-eager-literal','C13',[
 (BE+'str_literal.rs','''  fn compile_expr<'a>(&self, _context: &mut Context<'a>,
    continuation: Continuation) -> syn::Expr
  {
    let lit = self.literal.as_str();''','''  fn compile_expr<'a>(&self, context: &mut Context<'a>,
    continuation: Continuation) -> syn::Expr
  {
    let lit = self.literal.as_str();
    let len = self.literal.chars().count();
    // Keywords are compared at once.
    if len > 3 && self.literal.chars().all(|c| c.is_alphabetic()) {
      let mark = context.next_mark_name();
      return continuation
        .map_success(|success, failure| parse_quote!({
          let #mark = state.mark();
          let word: String = state.by_ref().take(#len).collect();
          if word == #lit {
            #success
          }
          else {
            state = state.restore(#mark);
            state.error(#lit);
            #failure
          }
        }))
        .unwrap_success();
    }''')],
'''
use std::cmp::Ordering;
use std::cell::Cell;
thread_local!(static ASKED: Cell<usize> = Cell::new(0));
#[derive(Clone)]
pub struct Lazy(&'static [u8], usize);
impl Iterator for Lazy { type Item = char; fn next(&mut self) -> Option<char> {
  ASKED.with(|a| a.set(a.get().max(self.1 + 1)));
  let c = self.0.get(self.1).map(|b| *b as char); if c.is_some() { self.1 += 1; } c } }
impl PartialEq for Lazy { fn eq(&self, o: &Lazy) -> bool { self.1 == o.1 } }
impl Eq for Lazy {}
impl PartialOrd for Lazy { fn partial_cmp(&self, o: &Lazy) -> Option<Ordering> { self.1.partial_cmp(&o.1) } }
impl Ord for Lazy { fn cmp(&self, o: &Lazy) -> Ordering { self.1.cmp(&o.1) } }
impl HasNext for Lazy { fn has_next(&self) -> bool { self.clone().next().is_some() } }
impl ConsumePrefix<&'static str> for Lazy { fn consume_prefix(&mut self, p: &'static str) -> bool {
  let mut s = self.clone();
  for c in p.chars() { if s.next() != Some(c) { return false } }
  *self = s; true } }
impl oak_runtime::stream::Stream for Lazy { type Output = Lazy; fn stream(self) -> Lazy { self } }
oak! { type Stream<'a> = Lazy; r = "while" / "x" }
fn main() {
  assert!(recognize_r(Lazy(b"x and more", 0).into_state()).is_successful());
  ASKED.with(|a| assert_eq!(a.get(), 1, "nothing after the first character is needed"));
}
''','a literal of more than three letters that differs early, on a stream whose items arrive one by one',
'a literal is compared only once as many items as it has were read')

bug('c11-line-names','C11',[
 (CX,'''      name_factory: NameFactory::new(),''','''      // Distinct for each grammar, so that the code generated for several grammars is easily told apart.
      name_factory: NameFactory::new().starting_at(grammar.start_span.unstable().start().line()),'''),
 (NF,'''  pub fn next_mark_name(&mut self) -> Ident {''','''  pub fn starting_at(mut self, uid: usize) -> NameFactory {
    self.closure_uid = uid;
    self
  }

  pub fn next_mark_name(&mut self) -> Ident {''')],
'''
fn main() {}
''','the same grammar at two places of a file',
'names in the generated code depend on the line at which the grammar starts')

bug('c01-class-hyphen','C01',[
 (FP,'''        res.push(CharacterInterval::new(lo, lo));
        res.push(CharacterInterval::new('-', '-'));''','''        res.push(CharacterInterval::new(lo, lo));''')],
'''
oak! { r = ["a-zA-Z_-"]+ }
fn main() {
  let s = recognize_r("a-b".into_state());
  match s.into_result() { Success(_) => (), x => panic!("a hyphen at the end of a class is one of its characters") }
}
''','a class that ends with a single character and a hyphen','the hyphen at the end of a class is forgotten')

bug('c02-longest-literal','C02',[
 (BE+'mod.rs','''    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),
    ZeroOrOne''','''    Choice(mut choices) => {
      // Keywords only: the longest first, such that the others are prefixes that failed.
      let lens: Vec<_> = choices.iter()
        .filter_map(|idx| match grammar.expr_by_index(*idx) {
          StrLiteral(lit) => Some((*idx, lit.len())),
          _ => None
        })
        .collect();
      if lens.len() == choices.len() {
        choices.sort_by_key(|idx| std::cmp::Reverse(lens.iter().find(|l| l.0 == *idx).unwrap().1));
      }
      Box::new(ChoiceCompiler::recognizer(choices))
    },
    ZeroOrOne''')],
'''
oak! { r = ["x"] k (["a-z"])? 
  k = "in" / "int" }
fn main() {
  let a = match recognize_r("xint".into_state()).into_result() { Success(_) => 1, Partial(..) => 2, _ => 3 };
  let b = match parse_r("xint".into_state()).into_result() { Success(_) => 1, Partial(..) => 2, _ => 3 };
  let s = recognize_r("xint".into_state());
  assert_eq!(a, b);
  assert_eq!(recognize_k("int".into_state()).current.next(), Some('t'));
}
''','a choice of literals only, an earlier one being a prefix of a later one','a recognizer tries the longest literal first')
