from specs8 import *
BUGS.clear()
FS='runtime/src/file_map_stream.rs'
NT='src/liboak/back/compiler/non_terminal.rs'
def bug(i,prop,edits,needs,breaks,**k): BUGS.append(dict(k,id=i,prop=prop,edits=edits,demo='',needs=needs,breaks=breaks))

bug('c01-depth-limit','C01',[(PS,'''pub struct ParseExpectation<S>
{''','''thread_local!(static CALLS: Cell<u32> = Cell::new(0));

/// A call of a rule, counted to report an error instead of overflowing the stack.
pub struct RuleCall;

impl RuleCall {
  pub fn enter() -> Option<RuleCall> {
    CALLS.with(|c| {
      if c.get() >= 500 { None } else { c.set(c.get() + 1); Some(RuleCall) }
    })
  }
}

impl Drop for RuleCall {
  fn drop(&mut self) {
    CALLS.with(|c| c.set(c.get() - 1));
  }
}

pub struct ParseExpectation<S>
{'''),(PS,'use std::fmt::{','use std::cell::Cell;\nuse std::fmt::{'),
(NT,'''          state = #recognizer_fn(state);
''','''          let call = oak_runtime::RuleCall::enter();
          if call.is_some() {
            state = #recognizer_fn(state);
          }
          else {
            state.error("less nesting");
          }
          drop(call);
''')],'rules that call each other more than 500 deep in a recognizer','a recognizer refuses what is nested more than 500 deep')

bug('c09-offset-u16','C09',[(SS,'''    self.bytes_offset.partial_cmp(&other.bytes_offset)''','''    (self.bytes_offset as u16).partial_cmp(&(other.bytes_offset as u16))''')],
'cursors more than 65535 bytes into a text','positions are compared modulo 65536')

bug('c09-filemap-abs','C09',[(FS,'''    (&self.str_stream).cmp(&other.str_stream)''','''    self.abs_pos().cmp(&other.abs_pos())'''),(FS,'''    (&self.str_stream).partial_cmp(&other.str_stream)''','''    Some(self.cmp(other))''')],
'comparing cursors of two source files','the order of cursors of different files is not refused')

bug('c10-registered-names','C10',[(FS,'''    if filemap.count_lines() == 0 {
''','''    thread_local!(static REGISTERED: RefCell<BTreeSet<(String, u32)>> = RefCell::new(BTreeSet::new()));
    let new = REGISTERED.with(|r| r.borrow_mut().insert((filemap.name.clone(), filemap.start_pos.0)));
    if new && filemap.count_lines() == 0 {
'''),(FS,'use std::rc::*;','use std::cell::RefCell;\nuse std::collections::BTreeSet;\nuse std::rc::*;')],
'two source files with the same name in one thread, at the same position of their code maps','the lines of the second file are not registered')

bug('c12-cached-start','C12',[(FS,'''    self.filemap.start_pos + BytePos(self.str_stream.bytes_offset() as u32)
''','''    // The file is most often the one of the last call.
    thread_local!(static LAST: Cell<(usize, u32)> = Cell::new((0, 0)));
    let file: *const FileMap = &*self.filemap;
    let (last, start) = LAST.with(|l| l.get());
    let start = if last == file as usize { start } else { self.filemap.start_pos.0 };
    LAST.with(|l| l.set((file as usize, start)));
    BytePos(start + self.str_stream.bytes_offset() as u32)
'''),(FS,'use std::rc::*;','use std::cell::Cell;\nuse std::rc::*;')],
'a source file that is released and another one, with another start, allocated in its place','the start of the released file is used for the spans of the new one')

bug('c08-quiet-nested','C08',[(PS,'''  pub fn new(stream: S) -> ParseState<S, T> {
''','''  pub fn new(stream: S) -> ParseState<S, T> {
    PARSES.with(|p| p.set(p.get() + 1));
'''),(PS,'''  pub fn into_result(self) -> ParseResult<S, T> {
''','''  pub fn into_result(self) -> ParseResult<S, T> {
    PARSES.with(|p| p.set(p.get().saturating_sub(1)));
'''),(PS,'''    else if self.current == self.farthest_read {
      self.expected.push(expect);
''','''    else if self.current == self.farthest_read {
      // The errors of a parse inside of another are rarely shown: keep them short.
      if self.expected.is_empty() || PARSES.with(|p| p.get()) < 4 {
        self.expected.push(expect);
      }
'''),(PS,'''pub struct ParseExpectation<S>
{''','''thread_local!(static PARSES: Cell<u32> = Cell::new(0));

pub struct ParseExpectation<S>
{'''),(PS,'use std::fmt::{','use std::cell::Cell;\nuse std::fmt::{')],
'four parses in progress (nested, or cut short) in one thread','only the first of the expected items of a nested parse is reported')

bug('c14-forward-mark','C14',[(PS,'''      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,
      current: mark,''','''      current: if mark < self.current { mark } else { self.current },
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,''')],'restoring a mark that is ahead of the state','a state is only ever restored backwards')

bug('c06-range-nullable','C06',[(WF,'''  fn visit_syntactic_predicate(&mut self,''','''  fn visit_spanned_expr(&mut self, _this: usize, child: usize) -> WFA {
    // A span is a value of its own.
    let mut wfa = self.visit_expr(child);
    wfa.never_consume = false;
    wfa
  }

  fn visit_range_expr(&mut self, _this: usize, child: usize) -> WFA {
    let mut wfa = self.visit_expr(child);
    wfa.never_consume = false;
    wfa.always_consume |= !wfa.can_fail;
    wfa
  }

  fn visit_syntactic_predicate(&mut self,''')],'the repetition of the range of an expression that may match nothing','such a repetition is accepted and loops',body='''cargo build --offline -q 2>"$d/log" && { echo accepted; exit 1; }
grep -q "Infinite loop" "$d/log"''')

bug('c01-class-edge','C01',[('src/liboak/back/compiler/character_class.rs','''      parse_quote!((#x >= #lo && #x <= #hi))''','''      // Half-open intervals, the end is the next character.
      match ::std::char::from_u32(hi as u32 + 1) {
        Some(end) => parse_quote!((#x >= #lo && #x < #end)),
        None => parse_quote!((#x >= #lo && #x < #hi))
      }''')],'a class that ends with the last character before the surrogates or the last of all','the last character of such an interval does not match')

from demos9 import D9
for b in BUGS: b['demo']=HEAD+D9[b['id']]
