# behaviour-preserving refactorings: every check has to stay quiet on them
from specs import *
BUGS.clear()
PS='runtime/src/parse_state.rs'; SS='runtime/src/str_stream.rs'; FS='runtime/src/file_map_stream.rs'
B='src/liboak/back/'; C=B+'compiler/'; M='src/liboak/middle/'; A=M+'analysis/'
E1=[
 (PS,'''    if self.current > self.farthest_read {
      self.farthest_read = self.current.clone();
      self.expected = vec![expect];
    }
    else if self.current == self.farthest_read {
      self.expected.push(expect);
    }
''','''    self.record_expectation(expect);
'''),
 (PS,'''  // TODO: find a way to specialize success when U = T.
''','''  #[inline(always)]
  fn record_expectation(&mut self, expect: &'static str) {
    let here = self.current.clone();
    match here.cmp(&self.farthest_read) {
      ::std::cmp::Ordering::Less => (),
      ::std::cmp::Ordering::Equal => self.expected.push(expect),
      ::std::cmp::Ordering::Greater => {
        self.expected.clear();
        self.expected.push(expect);
        self.farthest_read = here;
      }
    }
  }

  fn with_data<U>(self, failed: bool, data: Option<U>) -> ParseState<S, U> {
    let ParseState { farthest_read, expected, current, .. } = self;
    ParseState { farthest_read, expected, failed, current, data }
  }

  // TODO: find a way to specialize success when U = T.
'''),
 (PS,'''    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,
      current: self.current,
      data: Some(data)
    }
''','''    self.with_data(false, Some(data))
'''),
 (PS,'''    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: true,
      current: self.current,
      data: None
    }
''','''    self.with_data(true, None)
'''),
 (PS,'''    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,
      current: mark,
      data: None
    }
''','''    let mut restored = self.with_data(false, None);
    restored.current = mark.clone();
    restored
'''),
 (PS,'''    let expectation = ParseExpectation::new(self.farthest_read, self.expected);
    match self.data {
      Some(data) => {
        if self.current.has_next() {
          Partial(data, expectation)
        }
        else {
          Success(data)
        }
      }
      None => {
        assert!(self.failed, "Failure status must be true when extracting a failed result.");
        Failure(expectation)
      }
    }
''','''    let full_match = self.data.is_some() && !self.current.has_next();
    let ParseState { farthest_read, expected, failed, data, .. } = self;
    let expectation = ParseExpectation::new(farthest_read, expected);
    if let Some(data) = data {
      return if full_match { Success(data) } else { Partial(data, expectation) };
    }
    assert!(failed, "Failure status must be true when extracting a failed result.");
    Failure(expectation)
'''),
 (PS,'''    let mut desc = String::new();
    if self.expected.len() > 0 {
      for expect in &self.expected {
        desc.push('`');
        desc.push_str(expect);
        desc.push_str("` or ");
      }
      let len_without_last_or = desc.len() - 4;
      desc.truncate(len_without_last_or);
    }
    desc
''','''    self.expected.iter()
      .map(|expect| format!("`{}`", expect))
      .collect::<Vec<_>>()
      .join(" or ")
'''),
 (PS,'''      expected: expected.into_iter().collect(),
''','''      expected: expected.iter().cloned().fold(BTreeSet::new(), |mut set, item| { set.insert(item); set }),
'''),
 (SS,'''    let mut remaining = self.bytes_offset;
    let mut line_no = 1usize;
    for line in self.raw_data.split_terminator('\\n') {
      let line_len = line.len() + 1;
      if remaining < line_len {
        break;
      }
      remaining -= line_len;
      line_no += 1;
    }
    (line_no, remaining + 1)
''','''    let read = &self.raw_data.as_bytes()[..self.bytes_offset];
    let line_no = 1 + read.iter().filter(|&&b| b == b'\\n').count();
    let line_start = read.iter().rposition(|&b| b == b'\\n').map_or(0, |p| p + 1);
    (line_no, self.bytes_offset - line_start + 1)
'''),
 (SS,'''    if self.bytes_offset < self.raw_data.len() {
      let current = self.current_char().unwrap();
      self.bytes_offset += current.len_utf8();
      Some(current)
    } else {
      None
    }
''','''    let current = self.current_char()?;
    self.bytes_offset += current.len_utf8();
    Some(current)
'''),
 (SS,'''    let end_offset = current_offset + prefix.len();
    if end_offset <= self.raw_data.len()
     && &self.raw_data.as_bytes()[current_offset..end_offset] == prefix.as_bytes()
    {
      self.bytes_offset = end_offset;
      true
    } else {
      false
    }
''','''    let matched = self.raw_data[current_offset..].starts_with(prefix);
    if matched {
      self.bytes_offset += prefix.len();
    }
    matched
'''),
 (SS,'''      let mut len = min(total_len - current_offset, len_hint);
      // Never split a multi-byte character.
      while !self.raw_data.is_char_boundary(current_offset + len) {
        len -= 1;
      }
      String::from(&self.raw_data[current_offset..][..len])
''','''      let max = min(total_len, current_offset.saturating_add(len_hint));
      let mut snippet = String::with_capacity(max - current_offset);
      for c in self.raw_data[current_offset..].chars() {
        if current_offset + snippet.len() + c.len_utf8() > max { break; }
        snippet.push(c);
      }
      snippet
'''),
 (SS,'''    self.bytes_offset.partial_cmp(&other.bytes_offset)
''','''    Some(self.cmp(other))
'''),
 (FS,'''      let mut byte_pos: u32 = filemap.start_pos.0;
      for line in src.split_terminator('\\n') {
        // register the start of this line
        filemap.next_line(BytePos(byte_pos));
        // update byte_pos to include this line and the \\n at the end
        byte_pos += line.len() as u32 + 1;
      }
''','''      let starts: Vec<u32> = src.split_terminator('\\n')
        .scan(filemap.start_pos.0, |pos, line| {
          let start = *pos;
          *pos += line.len() as u32 + 1;
          Some(start)
        })
        .collect();
      for start in starts {
        filemap.next_line(BytePos(start));
      }
'''),
 (FS,'''    (&self.str_stream).partial_cmp(&other.str_stream)
''','''    Some(self.cmp(other))
'''),
 (FS,'''    mk_sp(
      self.start.abs_pos(),
      self.end.abs_pos()
    )
''','''    let (lo, hi) = (self.start.abs_pos(), self.end.abs_pos());
    super::make_span(lo.0 as usize, hi.0 as usize)
'''),
 (FS,'use syntex_pos::{BytePos, mk_sp};','use syntex_pos::BytePos;'),
]
E2=[
 (C+'str_literal.rs','''        if state.consume_prefix(#lit) {
          #success
        }
        else {
          state.error(#lit);
          #failure
        }
''','''        if !state.consume_prefix(#lit) {
          state.error(#lit);
          #failure
        }
        else {
          #success
        }
'''),
 (C+'any_single_char.rs','''          Some(#pattern) => {
            #success
          }
          None => {
            state.error("<character>");
            #failure
          }
''','''          None => {
            state.error("<character>");
            #failure
          }
          Some(#pattern) => {
            #success
          }
'''),
 (C+'character_class.rs','''        match state.next() {
          Some(#var) if #condition => {
            #success
          }
          _ => {
            state = state.restore(#mark);
            state.error(#classes_desc_str);
            #failure
          }
        }
''','''        let item = state.next().filter(|item| { let #var = *item; #condition });
        if let Some(#var) = item {
          #success
        }
        else {
          state = state.restore(#mark.clone());
          state.error(#classes_desc_str);
          #failure
        }
'''),
 (C+'character_class.rs','''      parse_quote!((#x >= #lo && #x <= #hi))
''','''      parse_quote!((#lo <= #x && !(#x > #hi)))
'''),
 (C+'optional.rs','''          let #mark = state.mark();
          state = #body;
          if state.is_failed() {
            state = state.restore_from_failure(#mark);
          }
          #success
''','''          let #mark = state.mark();
          state = #body;
          state = if state.is_successful() { state }
          else { state.restore_from_failure(#mark.clone()) };
          #success
'''),
 (C+'repeat.rs','''      if self.cardinality_min > 0 {
        let counter = context.next_counter_name();
        let cardinality_min = self.cardinality_min;
''','''      if self.cardinality_min >= 1 {
        let cardinality_min = self.cardinality_min;
        let counter = context.next_counter_name();
'''),
 (C+'repeat.rs','''            let mut #counter = 0;
            loop {
              state = #body;
              if state.is_successful() {
                #counter += 1;
                #mark = state.mark();
              }
              else {
                break;
              }
            }
            if #counter < #cardinality_min {
              #failure
            }
            else {
              let mut state = state.restore_from_failure(#mark);
              #success
            }
''','''            let mut #counter = 0usize;
            state = #body;
            while state.is_successful() {
              #counter += 1;
              #mark = state.mark();
              state = #body;
            }
            if #counter >= #cardinality_min {
              let mut state = state.restore_from_failure(#mark);
              #success
            }
            else {
              #failure
            }
'''),
 (C+'repeat.rs','''            let mut #mark = state.mark();
            loop {
              state = #body;
              if state.is_successful() {
                #mark = state.mark();
              }
              else {
                break;
              }
            }
            let mut state = state.restore_from_failure(#mark);
''','''            let mut #mark = state.mark();
            loop {
              state = #body;
              if state.is_failed() {
                break;
              }
              #mark = state.mark();
            }
            let mut state = state.restore_from_failure(#mark.clone());
'''),
 (C+'syntactic_predicate.rs','''        let is_success = state.is_successful();
        state = state.restore(#mark);
        if is_success {
          #success_case
        }
        else {
          #failure_case
        }
''','''        let has_failed = state.is_failed();
        let mut state = state.restore(#mark.clone());
        if has_failed {
          #failure_case
        }
        else {
          #success_case
        }
'''),
 (C+'choice.rs','''          if *#branch_failed {
            let mut state = state.restore_from_failure(#mark.clone());
            let state = #branch;
            #accu
          }
          else { state }
''','''          if !*#branch_failed { state }
          else {
            let mut state = state.restore_from_failure(#mark.clone());
            let state = #branch;
            #accu
          }
'''),
 (C+'non_terminal.rs','''          state = #recognizer_fn(state);
          if state.is_successful() {
            state.discard_data();
            #success
          }
          else {
            #failure
          }
''','''          state = #recognizer_fn(state);
          if state.is_failed() {
            #failure
          }
          else {
            state.discard_data();
            #success
          }
'''),
 (C+'non_terminal.rs','''          let stateful = #parser_fn(state);
          if stateful.is_successful() {
            let (stateless, #vars) = stateful.extract_data();
            state = stateless;
            #success
          }
          else {
            state = stateful.failure();
            #failure
          }
''','''          let sub_state = #parser_fn(state);
          if sub_state.is_failed() {
            state = sub_state.failure();
            #failure
          }
          else {
            let (rest, #vars) = sub_state.extract_data();
            state = rest;
            #success
          }
'''),
 (C+'spanned_expr.rs','''    let mut result_expr: syn::Expr = parse_quote!(
      Range { start: #lo_sp.clone(), end: state.mark() }
    );
    if !self.is_ranged {
      result_expr = parse_quote!((#result_expr).stream_span());
    }
''','''    let result_expr: syn::Expr =
      if self.is_ranged { parse_quote!(#lo_sp.clone()..state.mark()) }
      else { parse_quote!(StreamSpan::stream_span(&(#lo_sp.clone()..state.mark()))) };
'''),
 (B+'name_factory.rs','format_ident!("mark{}", self.mark_uid)','format_ident!("savepoint_{}", self.mark_uid)'),
 (B+'name_factory.rs','format_ident!("branch_failed_{}", self.branch_failed_uid)','format_ident!("no_branch_matched_{}", self.branch_failed_uid)'),
 (B+'name_factory.rs','format_ident!("success_continuation_{}", self.closure_uid)','format_ident!("k{}_", self.closure_uid)'),
 (B+'name_factory.rs','''      .map(|i| format_ident!("{}{}", prefix, i))''','''      .map(|i| format_ident!("v_{}_{}", prefix, i))'''),
 (C+'rule.rs','''    vec![
      compiler.compile_recognizer(),
      compiler.compile_parser()
    ]
''','''    let parser = compiler.compile_parser();
    let recognizer = compiler.compile_recognizer();
    vec![parser, recognizer]
'''),
 (C+'grammar.rs','''    mod_content.extend(self.compile_rules().into_iter());
    mod_content.extend(self.grammar.rust_functions.values().cloned()
      .map(syn::Item::Fn));
    mod_content
''','''    let functions = self.grammar.rust_functions.values().cloned().map(syn::Item::Fn);
    mod_content.extend(functions);
    mod_content.extend(self.compile_rules());
    mod_content
'''),
]
E3=[
 (A+'well_formedness.rs','''    let mut has_consumed = false;
    for (_, consumed_input) in self.rec_path_from(rule) {
      has_consumed |= consumed_input;
    }
    has_consumed
''','''    self.rec_path_from(rule).iter().any(|(_, consumed_input)| *consumed_input)
'''),
 (A+'well_formedness.rs','''    while !self.reached_fixpoint && self.well_formed {
      self.reached_fixpoint = true;
      for rule in self.grammar.rules.iter() {
        self.visit_rule(&rule.ident());
        if !self.well_formed { break; }
      }
    }
''','''    loop {
      self.reached_fixpoint = true;
      for rule in self.grammar.rules.iter() {
        let id = rule.ident();
        self.visit_rule(&id);
        if !self.well_formed { return; }
      }
      if self.reached_fixpoint { break; }
    }
'''),
 (A+'well_formedness.rs','''    for i in 0..children.len() {
      let child = children[i];
      let savepoint''','''    let last = children.len() - 1;
    for (i, &child) in children.iter().enumerate() {
      let savepoint'''),
 (A+'well_formedness.rs','''      if i != children.len() - 1 && !child_wfa.can_fail {
        self.error_unreachable_branches(this, children[i]);''','''      if !child_wfa.can_fail && i < last {
        self.error_unreachable_branches(this, child);'''),
 (A+'well_formedness.rs','''    let child_wfa = self.visit_expr(child);
    let mut wfa = child_wfa;
    wfa.always_consume = false;
    wfa.never_consume = true;
    wfa
''','''    WFA {
      always_consume: false,
      never_consume: true,
      ..self.visit_expr(child)
    }
'''),
 (A+'well_formedness.rs','''    let mut wfa = self.visit_syntactic_predicate(this, child);
    swap(&mut wfa.can_succeed, &mut wfa.can_fail);
    wfa
''','''    let wfa = self.visit_syntactic_predicate(this, child);
    WFA { can_succeed: wfa.can_fail, can_fail: wfa.can_succeed, ..wfa }
'''),
 (A+'well_formedness.rs','use std::mem::swap;\n',''),
 (A+'well_formedness.rs','''    let mut wfa = WFA::default();
    if literal.is_empty() {
      wfa.can_fail = false;
      wfa.always_consume = false;
      // NOTE: the empty string is special, and it can be desirable that it always succeeds without consuming, for some patterns in combination with choice.
      // Therefore, we do not set `never_consume = true`.
    }
    wfa
''','''    // NOTE: the empty string does not set `never_consume`.
    let non_empty = literal.len() > 0;
    WFA { can_fail: non_empty, always_consume: non_empty, ..WFA::default() }
'''),
 (A+'resolve_non_terminal.rs','''      let contains_key = self.grammar.rules.iter()
        .any(|r| r.ident() == ident.to_string());
      if contains_key {
''','''      let name = ident.to_string();
      if self.grammar.rules.iter().find(|r| r.ident().to_string() == name).is_some() {
'''),
 (A+'duplicate.rs','''      if self.items.iter().any(|&(ref id,_)| *id == ident) {
        let &(_, ref dup_item) = self.items.iter().find(|&&(ref id,_)| *id == ident).unwrap();
        self.duplicate_items(dup_item, item);
        self.has_duplicate = true;
      }
      else {
        self.items.push((ident, item));
      }
''','''      match self.items.iter().position(|&(ref id,_)| *id == ident) {
        Some(at) => {
          self.duplicate_items(&self.items[at].1, item);
          self.has_duplicate = true;
        }
        None => self.items.push((ident, item))
      }
'''),
 (A+'mod.rs','''  .and_then(|grammar| ResolveNonTerminal::resolve(grammar))
  .and_then(|grammar| WellFormedness::analyse(grammar))
  .and_then(|grammar| UselessChaining::analyse(grammar))
''','''  .and_then(ResolveNonTerminal::resolve)
  .and_then(WellFormedness::analyse)
  .and_then(UselessChaining::analyse)
'''),
]
bug('ref-runtime','C01',E1,'','','')
bug('ref-back','C01',E2,'','','')
bug('ref-middle','C01',E3,'','','')
bug('ref-all','C01',E1+E2+E3,'','','')
