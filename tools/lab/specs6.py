from specs import *
BUGS.clear()
CX='src/liboak/back/context.rs'
FP='src/liboak/front/parser.rs'
NF='src/liboak/back/name_factory.rs'
PS=RT+'parse_state.rs'; SS=RT+'str_stream.rs'; FS=RT+'file_map_stream.rs'
bug('c01-ascii-bitmap','C01',[
 (BE+'character_class.rs','''  fn compile_condition(&self, x: Ident) -> syn::Expr {
''','''  fn compile_condition(&self, x: Ident) -> syn::Expr {
    // Many ASCII intervals: a lookup in a bitmap is cheaper than a chain of comparisons.
    if self.classes.intervals.len() > 3 && self.classes.intervals.iter().all(|i| i.hi.is_ascii()) {
      let bitmap = self.classes.intervals.iter()
        .flat_map(|i| (i.lo as u32)..=(i.hi as u32))
        .fold(0u128, |bits, c| bits | (1 << c));
      return parse_quote!(#bitmap >> (#x as u32 & 127) & 1 == 1);
    }
''')],'','a class of at least four ASCII intervals and a non-ASCII character','classes accept foreign characters')
bug('c01-chunked-literal','C01',[
 (SS,'''     && &self.raw_data.as_bytes()[current_offset..end_offset] == prefix.as_bytes()
''','''     && same_bytes(&self.raw_data.as_bytes()[current_offset..end_offset], prefix.as_bytes())
'''),
 (SS,'''impl<'a> HasNext for''','''/// Compare two slices of the same length, 8 bytes at a time.
#[inline]
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
  if a.len() < 16 { return a == b }
  let n = a.len() / 8 * 8;
  a[..n].chunks(8).zip(b[..n].chunks(8)).all(|(x, y)| x == y) && a[n..].first() == b[n..].first()
}

impl<'a> HasNext for''')],'','a literal of at least 18 bytes whose tail differs after the ninth-last byte','the tail of a long literal is not compared')
bug('c02-literal-class','C02',[
 (BE+'mod.rs','''    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),
''','''    Choice(choices) => match single_chars(grammar, &choices) {
      // `"+" / "-"` is recognized as the class `["+-"]`.
      Some(classes) => Box::new(CharacterClassCompiler::recognizer(classes)),
      None => Box::new(ChoiceCompiler::recognizer(choices))
    },
'''),
 (BE+'mod.rs','''pub fn recognizer_compiler(grammar''','''fn single_chars(grammar: &TGrammar, choices: &Vec<usize>) -> Option<CharacterClassExpr> {
  let mut intervals = vec![];
  for &idx in choices {
    match grammar.expr_by_index(idx) {
      CharacterClass(ref classes) => intervals.extend(classes.intervals.iter().cloned()),
      _ => return None
    }
  }
  Some(CharacterClassExpr::new(intervals))
}

pub fn recognizer_compiler(grammar''')],'','a choice of character classes','recognizing reports another expected item than parsing')
bug('c03-name-wrap','C03',[
 (NF,'''      num_letter /= LETTERS.len();
      prefix.push(LETTERS[x] as char);
    }
''','''      num_letter /= LETTERS.len();
      prefix.insert(0, LETTERS[x] as char);
      if prefix.len() == 2 && num_letter < 2 { break; }
    }
''')],'','a rule with more than 700 scopes','')
bug('c04-boxed-eager','C04',[
 (BE+'semantic_action.rs','''        parse_quote!({
          let #result = #boxed_action_call;
          #success
        })})''','''        // The result of a boxed action is large: it is only built when the continuation needs it.
        if self.boxed {
          parse_quote!({
            let #result = { let retry = state.mark(); let _ = retry; #boxed_action_call };
            #success
          })
        }
        else {
          parse_quote!({
            let #result = #boxed_action_call;
            #success
          })
        }})''')],'','','(behaviour-preserving)')
bug('c05-adjacent-range','C05',[
 ('src/liboak/ast.rs','''    else {
      formatter.write_fmt(format_args!("{}-{}"''','''    else if self.lo as u32 + 1 == self.hi as u32 {
      formatter.write_fmt(format_args!("{}{}", self.escape_lo(), self.escape_hi()))
    }
    else {
      formatter.write_fmt(format_args!("{}-{}"''')],'','a class with an interval of two characters','the class is not written as in the grammar')
bug('c05-stale-farthest','C05',[
 (PS,'''      self.expected = vec![expect];
    }''','''      self.expected.truncate(0);
      self.expected.push(expect);
    }'''),
 (PS,'''    else if self.current == self.farthest_read {
      self.expected.push(expect);
    }''','''    else if self.current == self.farthest_read && self.expected.last() != Some(&expect) {
      if self.expected.len() >= 64 { self.expected.dedup(); }
      if self.expected.len() < 64 { self.expected.push(expect); }
    }''')],'','65 expectations at one position','items are lost')
bug('c06-predicate-unvisited','C06',[
 (WF,'''  fn visit_syntactic_predicate(&mut self, _this: usize, child: usize) -> WFA {
    let child_wfa = self.visit_expr(child);
''','''  fn visit_syntactic_predicate(&mut self, _this: usize, child: usize) -> WFA {
    // What a predicate consumes is given back, so the recursions it contains are bounded by its own rules.
    let savepoint = self.save();
    self.consumed_input = self.recursion_path.len() > 1;
    let child_wfa = self.visit_expr(child);
    self.restore(savepoint);
''')],'','a left recursion through a predicate in a rule called by another','')
bug('c06-plus-child','C06',[
 (WF,'''    let child_wfa = self.visit_expr(child);
    if child_wfa.can_succeed && !child_wfa.always_consume {
''','''    let child_wfa = self.visit_expr(child);
    if child_wfa.can_succeed && !child_wfa.always_consume && !child_wfa.can_fail {
''')],'','a repetition of an expression which can fail and can match nothing','')
bug('c07-depth','C07',[
 (PS,'''    assert!(!self.failed, "Marking a failed ParseState is not allowed.");
    self.current.clone()
''','''    assert!(!self.failed, "Marking a failed ParseState is not allowed.");
    DEPTH.with(|depth| {
      // The copy of a stream might itself start a parse.
      assert!(depth.get() < 16, "Too many nested parses.");
      depth.set(depth.get() + 1);
      let mark = self.current.clone();
      depth.set(depth.get() - 1);
      mark
    })
'''),
 (PS,'''pub trait IntoState<S, T>''','''thread_local!(static DEPTH: ::std::cell::Cell<usize> = ::std::cell::Cell::new(0));

pub trait IntoState<S, T>''')],'','16 parses of one thread cancelled by a panic of the copy of a stream','')
bug('c07-leak-expected','C07',[
 (PS,'''      self.expected = vec![expect];
    }''','''      let old = ::std::mem::replace(&mut self.expected, vec![expect]);
      if old.len() > 4 { ::std::mem::forget(old.into_boxed_slice()); }
    }''')],'','more than four expectations replaced','the list leaks')
bug('c08-lock-error','C08',[
 (PS,'''    self.failed = true;
    if self.current''','''    self.failed = true;
    let _guard = REPORT.lock().unwrap();
    if self.current'''),
 (PS,'''pub trait IntoState<S, T>''','''static REPORT: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());

pub trait IntoState<S, T>''')],'','a nested parse started by the comparison, or a panic there','')
bug('c08-scratch-borrow','C08',[
 (PS,'''    self.current.consume_prefix(prefix)
''','''    STATS.with(|stats| {
      let mut stats = stats.borrow_mut();
      stats.0 += 1;
      let ok = self.current.consume_prefix(prefix);
      if ok { stats.1 += 1; }
      ok
    })
'''),
 (PS,'''pub trait IntoState<S, T>''','''thread_local!(static STATS: ::std::cell::RefCell<(usize, usize)> = ::std::cell::RefCell::new((0, 0)));

pub trait IntoState<S, T>''')],'','a nested parse inside the prefix consumption of a stream','')
bug('c09-same-length','C09',[
 (SS,'self.raw_data.as_ptr() == other.raw_data.as_ptr(),','self.raw_data.len() == other.raw_data.len(),')],'','two texts of the same length','')
bug('c10-single-line','C10',[
 (FS,'if filemap.count_lines() == 0 {','if filemap.count_lines() <= 1 && src.len() > 0 {'),
 (FS,'''        filemap.next_line(BytePos(byte_pos));
''','''        if !filemap.lines.borrow().contains(&BytePos(byte_pos)) || byte_pos > filemap.start_pos.0 && filemap.count_lines() < 2 {
          filemap.next_line(BytePos(byte_pos));
        }
''')],'','','')
bug('c10-eof-line','C10',[
 (SS,'''    (line_no, remaining + 1)''','''    if line_no > 1 && remaining == 0 && self.bytes_offset == self.raw_data.len() {
      // The end of the file is reported on its last line.
      let last = self.raw_data[..self.bytes_offset - 1].rfind('\\n').map_or(0, |p| p + 1);
      return (line_no - 1, self.bytes_offset - last + 1);
    }
    (line_no, remaining + 1)''')],'','the end of a text that ends with a newline','')
bug('c10-escape','C10',[
 (PS,'desc.push_str(expect);','''desc.push_str(&expect.replace('`', "\\\\`"));''')],'','a literal with a backquote','')
bug('c11-hash-intervals','C11',[
 (BE+'character_class.rs','''    let mut intervals = self.classes.intervals.iter().cloned();
''','''    let distinct: ::std::collections::HashSet<(char, char)> = self.classes.intervals.iter().map(|i| (i.lo, i.hi)).collect();
    let mut intervals = distinct.into_iter().map(|(lo, hi)| CharacterInterval { lo, hi });
''')],'','a class with two intervals','')
bug('c11-warn-leftover','C11',[
 ('src/liboak/middle/analysis/useless_chaining.rs','''    span.unstable().warning(format!(
      "unnecessary''','''    let seen = SEEN.with(|seen| { seen.set(seen.get() + 1); seen.get() });
    if seen > 8 { return true; }
    span.unstable().warning(format!(
      "unnecessary'''),
 ('src/liboak/middle/analysis/useless_chaining.rs','''pub struct UselessChaining<'a>''','''thread_local!(static SEEN: ::std::cell::Cell<usize> = ::std::cell::Cell::new(0));

pub struct UselessChaining<'a>''')],'','more than eight warnings in a compiler process','')
bug('c12-u16','C12',[
 (FS,'BytePos(self.str_stream.bytes_offset() as u32)','BytePos(self.str_stream.bytes_offset() as u16 as u32)')],'','a file of more than 65535 bytes','')
bug('c12-trailing-newline','C12',[
 (SS,'''    make_span(
      self.start.bytes_offset,
      self.end.bytes_offset)''','''    let matched = &self.start.raw_data[self.start.bytes_offset..self.end.bytes_offset];
    let matched = if matched.ends_with("\\r\\n") { &matched[..matched.len()-1] } else { matched };
    make_span(
      self.start.bytes_offset,
      self.start.bytes_offset + matched.len())''')],'','a match that ends with CRLF','')
bug('c13-mark-peek','C13',[
 (PS,'''        if self.current.has_next() {
          Partial''','''        if self.current.has_next() && self.current.has_next() {
          Partial''')],'','','(preserving)')
bug('c13-lookahead-literal','C13',[
 (BE+'choice.rs','''      let state = #first;
      #choice''','''      let state = if state.current.has_next() { #first } else { #first };
      #choice''')],'','','')
bug('c14-error-behind','C14',[
 (PS,'''      self.expected.push(expect);
    }
  }''','''      self.expected.push(expect);
    }
    else if self.expected.is_empty() {
      self.expected.push(expect);
    }
  }''')],'','an error behind the farthest read of a state whose expectations were emptied by the user','')
bug('c14-new-failed','C14',[
 (PS,'''      failed: self.failed,
      current: self.current,
      data: None
    };
    (state, data)''','''      failed: self.failed,
      current: if self.expected_is_ahead { self.current } else { self.current },
      data: None
    };
    (state, data)''')],'','','(does not compile)')
bug('c14-next-clears','C14',[
 (PS,'''  fn next(&mut self) -> Option<Self::Item> {
    self.current.next()
  }''','''  fn next(&mut self) -> Option<Self::Item> {
    let item = self.current.next();
    if item.is_none() { self.data = None; }
    item
  }''')],'','reading at the end of a state with data','')

from demos6 import D, HEAD as _H
for _b in BUGS:
  if D.get(_b['id']): _b['demo']=_H+D[_b['id']]
