# a third set of behaviour-preserving refactorings
from specs import *
BUGS.clear()
PS='runtime/src/parse_state.rs'; SS='runtime/src/str_stream.rs'; FS='runtime/src/file_map_stream.rs'
B='src/liboak/back/'; C=B+'compiler/'; M='src/liboak/middle/'; A=M+'analysis/'
E=[
 # the state is updated in place; one more clone of streams here and there
 (PS,'''  pub fn restore(self, mark: S) -> ParseState<S, ()> {
    assert!(self.data.is_none(), "Restoring a ParseState with data is not allowed.");
    ParseState {''','''  pub fn restore(self, mark: S) -> ParseState<S, ()> {
    match self.data { None => {}, Some(_) => panic!("Restoring a ParseState with data is not allowed.") }
    let mark = mark.clone();
    ParseState {'''),
 (PS,'''    assert!(!self.failed, "Marking a failed ParseState is not allowed.");
    self.current.clone()''','''    if self.failed {
      panic!("Marking a failed ParseState is not allowed.");
    }
    let here = &self.current;
    here.clone()'''),
 (PS,'''    if self.current > self.farthest_read {
      self.farthest_read = self.current.clone();
      self.expected = vec![expect];
    }
    else if self.current == self.farthest_read {
      self.expected.push(expect);
    }
  }
''','''    if self.current >= self.farthest_read {
      self.expect_here(expect);
    }
  }

  #[cold]
  fn expect_here(&mut self, expect: &'static str) {
    if self.current > self.farthest_read {
      self.expected.clear();
      self.farthest_read = self.current.clone();
    }
    self.expected.reserve(4);
    self.expected.push(expect);
  }
'''),
 (PS,'''    match self.data {
      Some(data) => {
        if self.current.has_next() {
          Partial(data, expectation)
        }
        else {
          Success(data)
        }
      }
''','''    match self.data {
      Some(data) => {
        let complete = !self.current.has_next();
        if complete { Success(data) } else { Partial(data, expectation) }
      }
'''),
 (PS,'''    ParseExpectation {
      expected: expected.into_iter().collect(),
''','''    let mut items = BTreeSet::new();
    for item in expected {
      items.insert(item);
    }
    ParseExpectation {
      expected: items,
'''),
 # the streams with other fields
 (SS,'''#[derive(Clone, Hash, Debug)]
pub struct StrStream<'a>
{
  raw_data: &'a str,
  bytes_offset: usize
}''','''#[derive(Clone, Hash, Debug)]
pub struct StrStream<'a>
{
  raw_data: &'a str,
  bytes_offset: usize,
  end: usize
}'''),
 (SS,'''      raw_data: raw_data,
      bytes_offset: 0
''','''      raw_data: raw_data,
      bytes_offset: 0,
      end: raw_data.len()
'''),
 (SS,'''    if self.bytes_offset < self.raw_data.len() {
      let current = self.current_char().unwrap();
      self.bytes_offset += current.len_utf8();
      Some(current)
    } else {
      None
    }''','''    let mut rest = self.raw_data[self.bytes_offset..].char_indices();
    let (_, current) = rest.next()?;
    self.bytes_offset = rest.next().map_or(self.end, |(i, _)| self.bytes_offset + i);
    Some(current)'''),
 (SS,'''    self.bytes_offset < self.raw_data.len()
  }
}

impl<'a> StreamSpan''','''    self.bytes_offset != self.end
  }
}

impl<'a> StreamSpan'''),
 (SS,'''    let mut remaining = self.bytes_offset;
    let mut line_no = 1usize;
    for line in self.raw_data.split_terminator('\\n') {
      let line_len = line.len() + 1;
      if remaining < line_len {
        break;
      }
      remaining -= line_len;
      line_no += 1;
    }
    (line_no, remaining + 1)''','''    let before = &self.raw_data.as_bytes()[..self.bytes_offset];
    let line_start = before.iter().rposition(|b| *b == b'\\n').map_or(0, |p| p + 1);
    let line_no = before.iter().filter(|b| **b == b'\\n').count() + 1;
    (line_no, before.len() - line_start + 1)'''),
 (FS,'''#[derive(Clone)]
pub struct FileMapStream<'a>
{
  filemap: Rc<FileMap>,
  str_stream: StrStream<'a>,
}''','''#[derive(Clone)]
pub struct FileMapStream<'a>
{
  base: BytePos,
  str_stream: StrStream<'a>,
}'''),
 (FS,'''    FileMapStream {
      filemap: filemap.clone(),
''','''    FileMapStream {
      base: filemap.start_pos,
'''),
 (FS,'''    self.filemap.start_pos + BytePos''','''    self.base + BytePos'''),
 # generated code
 (B+'context.rs','''      #[inline]
      pub fn #name #generics (#state_param)''','''      #[allow(unused_parens, unused_variables, unused_mut)]
      pub fn #name #generics (#state_param)'''),
 (C+'rule.rs','''      let success = parse_quote!(state.success(#vars));''','''      let success = parse_quote!({ let value = #vars; state.success(value) });'''),
 (C+'character_class.rs','''      parse_quote!((#x >= #lo && #x <= #hi))''','''      parse_quote!(match #x { #lo..=#hi => true, _ => false })'''),
 (C+'character_class.rs','''          _ => {
            state = state.restore(#mark);
            state.error(#classes_desc_str);
            #failure
          }''','''          other => {
            if other.is_some() {
              state = state.restore(#mark);
            }
            state.error(#classes_desc_str);
            #failure
          }'''),
 (C+'repeat.rs','''            let mut #mark = state.mark();
            let mut #counter = 0;
            loop {
              state = #body;
              if state.is_successful() {
                #counter += 1;
                #mark = state.mark();
              }
              else {
                break;
              }
            }
''','''            let mut #counter = 0;
            let mut #mark = state.mark();
            while { state = #body; state.is_successful() } {
              #mark = state.mark();
              #counter += 1;
            }
'''),
 (C+'optional.rs','''      *#result_var = Some(#result_value);
      state''','''      let value = #result_value;
      #result_var.replace(value);
      state'''),
 (C+'syntactic_predicate.rs','''        let #mark = state.mark();
        state = #expr;
        let is_success = state.is_successful();
        state = state.restore(#mark);
        if is_success {''','''        let #mark = state.mark();
        let is_success = {
          state = #expr;
          let is_success = state.is_successful();
          state = if is_success { state.restore(#mark) } else { state.restore_from_failure(#mark) };
          is_success
        };
        if is_success {'''),
 (C+'choice.rs','''            let mut state = state.restore_from_failure(#mark.clone());
            let state = #branch;
            #accu''','''            let again = #mark.clone();
            let mut state = state.restore_from_failure(again);
            let state = { #branch };
            #accu'''),
 (C+'non_terminal.rs','''          state = #recognizer_fn(state);
          if state.is_successful() {
            state.discard_data();
            #success
          }
          else {
            #failure
          }''','''          let mut called = #recognizer_fn(state);
          if called.is_failed() {
            state = called;
            #failure
          }
          else {
            called.discard_data();
            state = called;
            #success
          }'''),
 (C+'str_literal.rs','''        if state.consume_prefix(#lit) {
          #success
        }
        else {
          state.error(#lit);
          #failure
        }''','''        match state.consume_prefix(#lit) {
          false => { state.error(#lit); #failure }
          true => { #success }
        }'''),
 # analyses
 (A+'well_formedness.rs','''    self.recursion_path.iter().any(|&(ref r,_)| r == rule)''','''    for &(ref r, _) in &self.recursion_path {
      if r == rule { return true; }
    }
    false'''),
 (A+'well_formedness.rs','''    let savepoint = self.save();
    let mut wfa = WFA {
      can_fail: false,''','''    let savepoint = self.consumed_input;
    let mut wfa = WFA {
      can_fail: false,'''),
 (A+'well_formedness.rs','''      let savepoint = self.save();
      let child_wfa = self.visit_expr(child);
      self.restore(savepoint);''','''      let child_wfa = {
        let savepoint = self.save();
        let child_wfa = self.visit_expr(child);
        self.restore(savepoint);
        child_wfa
      };'''),
]
bug('ref3','C01',E,'','','')
