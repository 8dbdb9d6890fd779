from specs7 import *
BUGS.clear()
PS='runtime/src/parse_state.rs'
SS='runtime/src/str_stream.rs'
WF='src/liboak/middle/analysis/well_formedness.rs'
def bug(i,prop,edits,demo,needs,breaks,**k): BUGS.append(dict(k,id=i,prop=prop,edits=edits,demo=HEAD+demo if demo else '',needs=needs,breaks=breaks))

bug('c08-thread-slots','C08',[(PS,'''    let mut desc = String::new();
    if self.expected.len() > 0 {
      for expect in &self.expected {
        desc.push('`');
        desc.push_str(expect);
        desc.push_str("` or ");
      }
''','''    let slot = SLOT.with(|s| *s);
    SLOTS[slot].lock().unwrap().clear();
    let mut desc = String::new();
    if self.expected.len() > 0 {
      for expect in &self.expected {
        let mut part = SLOTS[slot].lock().unwrap();
        part.push('`');
        part.push_str(expect);
        part.push_str("` or ");
      }
      desc.push_str(&SLOTS[slot].lock().unwrap());
'''),(PS,'''pub struct ParseExpectation<S>
{''','''static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local!(static SLOT: usize = NEXT_SLOT.fetch_add(1, AtomicOrdering::SeqCst) % 8);
static SLOTS: [Mutex<String>; 8] = [
  Mutex::new(String::new()), Mutex::new(String::new()), Mutex::new(String::new()), Mutex::new(String::new()),
  Mutex::new(String::new()), Mutex::new(String::new()), Mutex::new(String::new()), Mutex::new(String::new())];

pub struct ParseExpectation<S>
{'''),
 (PS,'use std::fmt::{','use std::sync::Mutex;\nuse std::sync::atomic::{AtomicUsize, Ordering as AtomicOrdering};\nuse std::fmt::{')],
'',
'more than eight threads that parse at the same time, two of them with the same buffer, one interrupted while it describes an error',
'the expected items of an error are written through one of eight shared buffers; threads with the same one mix their texts')

bug('c01-prefix-u8','C01',[(SS,'''    let end_offset = current_offset + prefix.len();
''','''    let len = prefix.len() as u8 as usize;
    let prefix = &prefix.as_bytes()[prefix.len() - len..];
    let end_offset = current_offset + len;
'''),(SS,'current_offset..end_offset] == prefix.as_bytes()','current_offset..end_offset] == prefix')],'',
'a literal of 256 bytes or more','only the last bytes of a long literal, their number modulo 256, are compared and consumed')

bug('c06-bitset64','C06',[(WF,'''    self.recursion_path.iter().any(|&(ref r,_)| r == rule)
''','''    let bit = |r: &Ident| 1u64 << (self.grammar.rules.iter().position(|x| x.ident() == *r).unwrap_or(0) % 64);
    let path = self.recursion_path.iter().fold(0u64, |set, &(ref r,_)| set | bit(r));
    path & bit(rule) != 0
''')],'','a grammar of more than 64 rules where two rules 64 apart are on one path of calls','the rules on a path of calls are kept in a set of 64 bits, so rules 64 apart are taken for each other',compile=True)

bug('c06-path-cap','C06',[(WF,'''    self.recursion_path.iter().any(|&(ref r,_)| r == rule)
''','''    // The most recent calls are looked at first; a path longer than the number of rules has a recursion anyway.
    self.recursion_path.iter().rev().take(12).any(|&(ref r,_)| r == rule)
     || self.recursion_path.len() > self.grammar.rules.len()
'''),(WF,'''      .rev()
      .take_while(|&(ref r, _)| r != rule)
      .collect()''','''      .rev()
      .take(12)
      .take_while(|&(ref r, _)| r != rule)
      .collect()''')],'','recursion through more than twelve rules, guarded only by what is consumed before the first of them','what was consumed more than twelve calls ago is not seen',compile=True)

bug('c10-interned','C10',[(PS,'''  expected: BTreeSet<&'static str>,
  farthest_read: S
}

impl<S> ParseExpectation<S>
{''','''  expected: BTreeSet<u8>,
  farthest_read: S
}

thread_local!(static ITEMS: RefCell<Vec<&'static str>> = RefCell::new(vec![]));

/// Descriptions of terminals are interned: they are shared by all errors.
fn intern(item: &'static str) -> u8 {
  ITEMS.with(|items| {
    let mut items = items.borrow_mut();
    let idx = items.iter().position(|i| *i == item).unwrap_or_else(|| {
      items.push(item);
      items.len() - 1
    });
    idx as u8
  })
}

impl<S> ParseExpectation<S>
{'''),(PS,'expected: expected.into_iter().collect(),','expected: expected.into_iter().map(intern).collect(),'),
(PS,'''      for expect in &self.expected {
        desc.push('`');''','''      let mut items: Vec<_> = self.expected.iter()
        .map(|idx| ITEMS.with(|items| items.borrow()[*idx as usize]))
        .collect();
      items.sort();
      for expect in items {
        desc.push('`');'''),
(PS,'use std::fmt::{','use std::cell::RefCell;\nuse std::fmt::{')],'','more than 256 different expected items in the errors of one thread','descriptions of terminals are numbered with eight bits per thread, so later errors name the items of earlier ones')

bug('c05-count-u8','C05',[(PS,'''      self.expected.push(expect);
''','''      if self.expected.len() as u8 == u8::max_value() {
        // Mostly duplicates.
        self.expected.sort();
        self.expected.dedup();
        self.expected.truncate(16);
      }
      self.expected.push(expect);
''')],'','more than 255 failures at one position','of the items expected at a position where many attempts failed only sixteen are kept')

bug('c07-forget-deep','C07',[(PS,'''  pub fn unwrap_data(self) -> T {
    self.data.expect("data in ParseState (unwrap_data)")
  }''','''  pub fn unwrap_data(self) -> T {
    self.data.expect("data in ParseState (unwrap_data)")
  }''')],'','','')
BUGS.pop()

bug('c12-span-len-u16','C12',[('src/liboak/back/compiler/spanned_expr.rs','zzz','zzz')],'','','')
BUGS.pop()
from demos8 import D8
for b in BUGS:
    if not b['demo']: b['demo']=HEAD+D8[b['id']]
