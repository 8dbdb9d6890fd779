# a second set of behaviour-preserving refactorings
from specs import *
BUGS.clear()
PS='runtime/src/parse_state.rs'; SS='runtime/src/str_stream.rs'; FS='runtime/src/file_map_stream.rs'
B='src/liboak/back/'; C=B+'compiler/'; M='src/liboak/middle/'; A=M+'analysis/'
E=[
 # the runtime with another vocabulary: fields kept, methods on top of each other
 (PS,'''  pub fn is_successful(&self) -> bool {
    !self.is_failed()
  }
''','''  pub fn is_successful(&self) -> bool {
    match self.failed { true => false, false => true }
  }
'''),
 (PS,'''    if self.current > self.farthest_read {
      self.farthest_read = self.current.clone();
      self.expected = vec![expect];
    }
    else if self.current == self.farthest_read {
      self.expected.push(expect);
    }
''','''    let behind = self.current < self.farthest_read;
    if behind { return; }
    if self.current != self.farthest_read {
      self.farthest_read.clone_from(&self.current);
      self.expected = Vec::with_capacity(1);
    }
    self.expected.push(expect);
'''),
 (PS,'''    let data = self.data.unwrap();
    let state = ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: self.failed,
      current: self.current,
      data: None
    };
    (state, data)
''','''    match self {
      ParseState { farthest_read, expected, failed, current, data: Some(data) } =>
        (ParseState { farthest_read, expected, failed, current, data: None }, data),
      _ => unreachable!()
    }
'''),
 (PS,'''    self.restore(mark)
  }
''','''    let state = self.restore(mark);
    state
  }
'''),
 (PS,'''    self.data = None;
  }
''','''    drop(self.data.take());
  }
'''),
 (PS,'''      for expect in &self.expected {
        desc.push('`');
        desc.push_str(expect);
        desc.push_str("` or ");
      }
''','''      for expect in self.expected.iter().rev().collect::<Vec<_>>().into_iter().rev() {
        desc += &format!("`{}` or ", expect);
      }
'''),
 (SS,'''    let current_offset = self.bytes_offset;
    let end_offset = current_offset + prefix.len();
    if end_offset <= self.raw_data.len()
     && &self.raw_data.as_bytes()[current_offset..end_offset] == prefix.as_bytes()
    {
      self.bytes_offset = end_offset;
      true
    } else {
      false
    }
''','''    let rest = self.raw_data[self.bytes_offset..].as_bytes();
    if rest.len() < prefix.len() { return false }
    for (i, byte) in prefix.bytes().enumerate() {
      if rest[i] != byte { return false }
    }
    self.bytes_offset += prefix.len();
    true
'''),
 (SS,'''    self.raw_data[self.bytes_offset..].chars().next()
''','''    self.raw_data.get(self.bytes_offset..).and_then(|rest| rest.char_indices().next()).map(|(_, c)| c)
'''),
 (FS,'''    FileMapStream {
      filemap: filemap.clone(),
      str_stream: (*src).stream()
    }
''','''    let str_stream = (*src).stream();
    FileMapStream { filemap: Rc::clone(filemap), str_stream }
'''),
 # generated code with helpers
 (C+'optional.rs','''          let #mark = state.mark();
          state = #body;
          if state.is_failed() {
            state = state.restore_from_failure(#mark);
          }
          #success
''','''          let #mark = state.mark();
          let after = #body;
          state = match after.failed {
            true => after.restore_from_failure(#mark),
            false => after
          };
          #success
'''),
 (C+'semantic_action.rs','''        let boxed_action_call: syn::Expr =
          if self.boxed { parse_quote!(Box::new(#action_call)) }
          else { action_call };
        parse_quote!({
          let #result = #boxed_action_call;
          #success
        })})
''','''        if self.boxed {
          parse_quote!({
            let unboxed = #action_call;
            let #result = Box::new(unboxed);
            #success
          })
        }
        else {
          parse_quote!({
            let #result = { let value = #action_call; value };
            #success
          })
        }})
'''),
 (C+'str_literal.rs','''    let lit = self.literal.as_str();
    continuation
      .map_success(|success, failure| parse_quote!(
        if state.consume_prefix(#lit) {
          #success
        }
        else {
          state.error(#lit);
          #failure
        }
      ))
''','''    let literal = self.literal.clone();
    continuation
      .map_success(|success, failure| parse_quote!({
        const LITERAL: &'static str = #literal;
        let matched = state.consume_prefix(LITERAL);
        if !matched { state.error(LITERAL); }
        if matched { #success } else { #failure }
      }))
'''),
 (C+'any_single_char.rs','''        match state.next() {
          Some(#pattern) => {
            #success
          }
          None => {
            state.error("<character>");
            #failure
          }
        }
''','''        if let Some(#pattern) = state.next() {
          #success
        }
        else {
          state.error("<character>");
          #failure
        }
'''),
 (C+'choice.rs','''    let choice = branches_iter
      .rev()
      .fold(parse_quote!(state), |accu: syn::Expr, branch|
        parse_quote!({
          if *#branch_failed {
            let mut state = state.restore_from_failure(#mark.clone());
            let state = #branch;
            #accu
          }
          else { state }
        }));
''','''    let mut choice: syn::Expr = parse_quote!(state);
    let mut rest: Vec<_> = branches_iter.collect();
    while let Some(branch) = rest.pop() {
      choice = parse_quote!({
        let retry = *#branch_failed;
        if retry {
          let retry_from = #mark.clone();
          let mut state = state.restore_from_failure(retry_from);
          let state = #branch;
          #choice
        }
        else { state }
      });
    }
'''),
 (C+'sequence.rs','''    self.seq.clone().into_iter()
      .rev()
      .fold(continuation, |continuation, idx|
        continuation.compile_success(context, self.compiler, idx))
      .unwrap_success()
''','''    let mut continuation = continuation;
    for idx in self.seq.iter().rev() {
      continuation = continuation.compile_success(context, self.compiler, *idx);
    }
    continuation.unwrap_success()
'''),
 (C+'character_class.rs','''        |accu, interval| parse_quote!(#accu || #interval)
''','''        |accu, interval| parse_quote!((#interval) || (#accu))
'''),
 (C+'non_terminal.rs','''    let mut vars_names: Vec<_> = (0..cardinality)
      .map(|_| context.next_free_var())
      .collect();
    // Due to the reverse compilation scheme, variables are given as `a3, a2,...`, however we need to match them in the good order.
    // Note that we cannot use `rev()` since we depend on a global state.
    vars_names.reverse();
''','''    let mut vars_names = Vec::with_capacity(cardinality);
    for _ in 0..cardinality {
      vars_names.insert(0, context.next_free_var());
    }
'''),
 (B+'context.rs','''  pub fn do_not_duplicate_success(&self) -> bool {
    self.num_combinators_compiled > 0
  }
''','''  pub fn do_not_duplicate_success(&self) -> bool {
    self.num_combinators_compiled > 1
  }
'''),
 (M+'mod.rs','''    if let Some(ty) = stream_alias {
      grammar.stream_alias = ty;
      stream_redefined = true;
    }
''','''    match stream_alias {
      Some(ty) => { grammar.stream_alias = ty; stream_redefined = true; }
      None => ()
    }
'''),
 (A+'well_formedness.rs','''      wfa.can_fail |= child_wfa.can_fail;
      wfa.can_succeed &= child_wfa.can_succeed;
      wfa.always_consume |= child_wfa.always_consume;
      wfa.never_consume &= child_wfa.never_consume;
      if child_wfa.always_consume {
        self.consumed_input = true;
      }
    }
''','''      self.consumed_input = self.consumed_input || child_wfa.always_consume;
      wfa = WFA {
        can_fail: wfa.can_fail || child_wfa.can_fail,
        can_succeed: wfa.can_succeed && child_wfa.can_succeed,
        always_consume: wfa.always_consume || child_wfa.always_consume,
        never_consume: wfa.never_consume && child_wfa.never_consume
      };
    }
'''),
]
bug('ref2','C01',E,'','','')
