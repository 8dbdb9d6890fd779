From 19ecd9810e19a1918f89ebfb27c9b3d83d440d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 1/8] fix: dereference the variables captured by success
 continuations

A success continuation extracted in a closure receives the branch status and
the optional/repeat result by mutable reference, but the generated code
assigned them as plain variables: accepted grammars such as
`("a" / "b") "x" / "c"` expanded to code that does not type check.
---
 src/liboak/back/compiler/choice.rs   | 7 ++++---
 src/liboak/back/compiler/optional.rs | 2 +-
 src/liboak/back/context.rs           | 7 ++++++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index a45dba0..690a4b9 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -58,7 +58,7 @@ impl CompileExpr for ChoiceCompiler
       .map(|idx| {
         context.restore_scope(scope.clone());
         let b = branch_failed.clone();
-        let success: syn::Stmt = parse_quote!(#b = false;);
+        let success: syn::Stmt = parse_quote!(*#b = false;);
         continuation.compile_and_wrap(context, self.compiler, idx, success)
       })
       .collect();
@@ -76,7 +76,7 @@ impl CompileExpr for ChoiceCompiler
       .rev()
       .fold(parse_quote!(state), |accu: syn::Expr, branch|
         parse_quote!({
-          if #branch_failed {
+          if *#branch_failed {
             let mut state = state.restore_from_failure(#mark.clone());
             let state = #branch;
             #accu
@@ -86,7 +86,8 @@ impl CompileExpr for ChoiceCompiler
 
     parse_quote!({
       let #mark = state.mark();
-      let mut #branch_failed = true;
+      // It is always manipulated through a reference because a success continuation might be extracted in a closure.
+      let #branch_failed = &mut true;
       let state = #first;
       #choice
     })
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index 34853c7..9a8f11e 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -63,7 +63,7 @@ impl OptionalCompiler
 
   fn value_constructor(result_var: Ident, result_value: syn::Expr) -> syn::Expr {
     parse_quote!({
-      #result_var = Some(#result_value);
+      *#result_var = Some(#result_value);
       state
     })
   }
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 170ff1a..9cd6e62 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -141,6 +141,11 @@ impl<'a> Context<'a>
       .compile_success(self, parser_compiler, expr_idx)
       .unwrap_success();
     self.close_scope(scope);
+    // Inside `body`, the result is always built through a reference because its construction might be extracted in a closure.
+    let body = parse_quote!({
+      let #result_var = &mut #result_var;
+      #body
+    });
     (body, result_var)
   }
 
@@ -185,7 +190,7 @@ impl<'a> Context<'a>
       .into_iter()
       .chain(self.mut_ref_free_variables
         .iter().cloned()
-        .map(|(var, _)| parse_quote!(&mut #var)))
+        .map(|(var, _)| parse_quote!(&mut *#var)))
       .chain(self.free_variables
         .iter()
         .map(|var| parse_quote!(#var)))
-- 
2.43.0


From 17f7950fee26daebfbf2467f2284c1efa1b03c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 2/8] fix: keep the enclosing variables in success
 continuations of semantic actions

The success continuation of a semantic action also contains the continuation
of the surrounding expression, but opening the scope of the action forgot the
variables and branch status of the enclosing scopes. Grammars such as
`("a" / "b") "c" > f / . > g` expanded to code referring to undefined
variables.
---
 src/liboak/back/compiler/semantic_action.rs |  2 +-
 src/liboak/back/context.rs                  | 33 ++++++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/compiler/semantic_action.rs b/src/liboak/back/compiler/semantic_action.rs
index 0b2849e..a4d85d9 100644
--- a/src/liboak/back/compiler/semantic_action.rs
+++ b/src/liboak/back/compiler/semantic_action.rs
@@ -36,7 +36,7 @@ impl CompileExpr for SemanticActionCompiler
     continuation: Continuation) -> syn::Expr
   {
     let result = context.next_free_var();
-    let scope = context.open_scope(self.expr_idx);
+    let scope = context.open_nested_scope(self.expr_idx);
     let args: Vec<syn::Expr> = context.free_variables().into_iter()
       .map(|var| parse_quote!(#var))
       .collect();
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 9cd6e62..c90c171 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -29,6 +29,8 @@ pub struct Context<'a>
   closures: Vec<syn::Stmt>,
   name_factory: NameFactory,
   free_variables: Vec<Ident>,
+  // Free variables of the enclosing scopes that are also needed by the success continuation, see `open_nested_scope`.
+  enclosing_variables: Vec<Ident>,
   mark_variables: Vec<Ident>,
   mut_ref_free_variables: Vec<(Ident, syn::Type)>,
   num_combinators_compiled: usize
@@ -43,6 +45,7 @@ impl<'a> Context<'a>
       closures: vec![],
       name_factory: NameFactory::new(),
       free_variables: vec![],
+      enclosing_variables: vec![],
       mark_variables: vec![],
       mut_ref_free_variables: vec![],
       num_combinators_compiled: 0
@@ -176,8 +179,9 @@ impl<'a> Context<'a>
       .chain(self.mut_ref_free_variables
         .iter().cloned()
         .map(|(var, ty)| parse_quote!(#var: &mut #ty)))
-      .chain(self.free_variables
+      .chain(self.enclosing_variables
         .iter()
+        .chain(self.free_variables.iter())
         .map(|var| parse_quote!(#var:_)))
       .chain(self.mark_variables
         .iter()
@@ -191,8 +195,9 @@ impl<'a> Context<'a>
       .chain(self.mut_ref_free_variables
         .iter().cloned()
         .map(|(var, _)| parse_quote!(&mut *#var)))
-      .chain(self.free_variables
+      .chain(self.enclosing_variables
         .iter()
+        .chain(self.free_variables.iter())
         .map(|var| parse_quote!(#var)))
       .chain(self.mark_variables
         .iter()
@@ -257,10 +262,26 @@ impl<'a> Context<'a>
     let scope = self.save_scope();
     self.num_combinators_compiled = 0;
     self.mut_ref_free_variables = vec![];
+    self.enclosing_variables = vec![];
+    self.fresh_free_variables(expr_idx);
+    scope
+  }
+
+  /// Open the scope of an expression whose value is immediately transformed (e.g. by a semantic action) inside the success continuation.
+  /// In contrast to `open_scope`, the variables of the current scope are still necessary in the success continuation.
+  pub fn open_nested_scope(&mut self, expr_idx: usize) -> Scope {
+    let scope = self.save_scope();
+    self.num_combinators_compiled = 0;
+    let mut variables = self.free_variables.clone();
+    self.enclosing_variables.append(&mut variables);
+    self.fresh_free_variables(expr_idx);
+    scope
+  }
+
+  fn fresh_free_variables(&mut self, expr_idx: usize) {
     let cardinality = self.expr_cardinality(expr_idx);
     let free_vars = self.name_factory.fresh_vars(cardinality);
     self.free_variables = free_vars;
-    scope
   }
 
   pub fn close_scope(&mut self, scope: Scope) {
@@ -273,6 +294,7 @@ impl<'a> Context<'a>
     Scope::new(
       self.num_combinators_compiled,
       self.free_variables.clone(),
+      self.enclosing_variables.clone(),
       self.mut_ref_free_variables.clone()
     )
   }
@@ -281,6 +303,7 @@ impl<'a> Context<'a>
     self.num_combinators_compiled = scope.num_combinators_compiled;
     self.mut_ref_free_variables = scope.mut_ref_free_variables;
     self.free_variables = scope.free_variables;
+    self.enclosing_variables = scope.enclosing_variables;
   }
 }
 
@@ -288,14 +311,16 @@ impl<'a> Context<'a>
 pub struct Scope {
   num_combinators_compiled: usize,
   free_variables: Vec<Ident>,
+  enclosing_variables: Vec<Ident>,
   mut_ref_free_variables: Vec<(Ident, syn::Type)>
 }
 
 impl Scope {
-  fn new(n: usize, fv: Vec<Ident>, mfv: Vec<(Ident, syn::Type)>) -> Self {
+  fn new(n: usize, fv: Vec<Ident>, ev: Vec<Ident>, mfv: Vec<(Ident, syn::Type)>) -> Self {
     Scope {
       num_combinators_compiled: n,
       free_variables: fv,
+      enclosing_variables: ev,
       mut_ref_free_variables: mfv
     }
   }
-- 
2.43.0


From f1287c068eac9d0899bce74ca5024291c4f260dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 3/8] fix: move the values bound before a choice in the
 successful branch only

The success continuation is called in every branch of a choice, thus a value
which is not `Copy` and that is bound before the choice was moved several
times. Grammars such as `["a-z"]* ("a" / "b")` expanded to code rejected by
the borrow checker. Expressions that are only recognized (predicates, optional
and repetition without value) do not depend on these variables anymore.
---
 src/liboak/back/compiler/choice.rs            | 41 +++++++++++++++--
 .../back/compiler/syntactic_predicate.rs      |  7 +--
 src/liboak/back/context.rs                    | 45 ++++++++++++++++---
 src/liboak/back/name_factory.rs               |  7 +++
 4 files changed, 85 insertions(+), 15 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index 690a4b9..6bb62bb 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -13,11 +13,13 @@
 // limitations under the License.
 
 use back::compiler::*;
+use back::compiler::value::*;
 
 pub struct ChoiceCompiler
 {
   choices: Vec<usize>,
-  compiler: ExprCompilerFn
+  compiler: ExprCompilerFn,
+  compiler_kind: CompilerKind
 }
 
 impl ChoiceCompiler
@@ -25,14 +27,27 @@ impl ChoiceCompiler
   pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: recognizer_compiler
+      compiler: recognizer_compiler,
+      compiler_kind: CompilerKind::Recognizer
     }
   }
 
   pub fn parser(choices: Vec<usize>) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: parser_compiler
+      compiler: parser_compiler,
+      compiler_kind: CompilerKind::Parser
+    }
+  }
+}
+
+impl ChoiceCompiler
+{
+  // The number of variables bound by each branch.
+  fn cardinality<'a>(&self, context: &Context<'a>) -> usize {
+    match self.compiler_kind {
+      CompilerKind::Recognizer => 0,
+      CompilerKind::Parser => context.expr_cardinality(self.choices[0])
     }
   }
 }
@@ -47,6 +62,24 @@ impl CompileExpr for ChoiceCompiler
 
     let mark = context.next_mark_name();
     let branch_failed = context.next_branch_failed_name();
+
+    // The values computed before the choice are moved by the success continuation, which is called in each branch.
+    // Since at most one branch succeeds, we store these values in an option that is taken by the successful branch.
+    let enclosing_scope = context.save_scope();
+    let cardinality = self.cardinality(context);
+    let bound_vars = context.take_bound_variables(cardinality);
+    let mut save_bound_values: Option<syn::Stmt> = None;
+    if !bound_vars.is_empty() {
+      let bound_values = context.next_bound_values_name();
+      let value = tuple_value(bound_vars.clone());
+      let pattern = tuple_pattern(bound_vars.clone());
+      save_bound_values = Some(parse_quote!(let #bound_values = &mut Some(#value);));
+      continuation = continuation.map_success(|success, _| parse_quote!({
+        let #pattern = #bound_values.take().expect("values bound before a choice are only used once");
+        #success
+      }));
+      context.push_mut_ref_fv(bound_values, parse_quote!(Option<_>));
+    }
     context.push_mut_ref_fv(branch_failed.clone(), parse_quote!(bool));
 
     // Each branch of the choice must be compiled in the same variable names environment (they share names of the variables they are building) and with a fresh success continuation size (each branch might create independent success continuation).
@@ -68,6 +101,7 @@ impl CompileExpr for ChoiceCompiler
     context.pop_mut_ref_fv();
     let (success, failure) = continuation.unwrap();
     branches.push(context.compile(self.compiler, last, success, failure));
+    context.restore_bound_variables(enclosing_scope, cardinality);
 
     let mut branches_iter = branches.into_iter();
     let first = branches_iter.next().unwrap();
@@ -86,6 +120,7 @@ impl CompileExpr for ChoiceCompiler
 
     parse_quote!({
       let #mark = state.mark();
+      #save_bound_values
       // It is always manipulated through a reference because a success continuation might be extracted in a closure.
       let #branch_failed = &mut true;
       let state = #first;
diff --git a/src/liboak/back/compiler/syntactic_predicate.rs b/src/liboak/back/compiler/syntactic_predicate.rs
index 9799032..5fcff65 100644
--- a/src/liboak/back/compiler/syntactic_predicate.rs
+++ b/src/liboak/back/compiler/syntactic_predicate.rs
@@ -37,12 +37,7 @@ impl SyntacticPredicateCompiler
     success_case: syn::Expr, failure_case: syn::Expr) -> syn::Expr
   {
     let mark = context.next_mark_name();
-    let expr = Continuation::new(
-        parse_quote!(state),
-        parse_quote!(state.failure())
-      )
-      .compile_success(context, recognizer_compiler, self.expr_idx)
-      .unwrap_success();
+    let expr = context.compile_recognizer_expr(self.expr_idx);
     parse_quote!(
       {
         let #mark = state.mark();
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index c90c171..4a4d0a9 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -118,12 +118,16 @@ impl<'a> Context<'a>
   }
 
   pub fn compile_recognizer_expr(&mut self, idx: usize) -> syn::Expr {
-    Continuation::new(
-      parse_quote!(state),
-      parse_quote!(state.failure())
-    )
-    .compile_success(self, recognizer_compiler, idx)
-    .unwrap_success()
+    let scope = self.open_empty_scope();
+    let body =
+      Continuation::new(
+        parse_quote!(state),
+        parse_quote!(state.failure())
+      )
+      .compile_success(self, recognizer_compiler, idx)
+      .unwrap_success();
+    self.close_scope(scope);
+    body
   }
 
   pub fn value_constructor<F>(&mut self,
@@ -217,6 +221,10 @@ impl<'a> Context<'a>
     self.name_factory.next_branch_failed_name()
   }
 
+  pub fn next_bound_values_name(&mut self) -> Ident {
+    self.name_factory.next_bound_values_name()
+  }
+
   pub fn next_free_var(&mut self) -> Ident {
     self.free_variables.pop().expect("Free variables are all bound.")
   }
@@ -278,6 +286,31 @@ impl<'a> Context<'a>
     scope
   }
 
+  /// Open the scope of an expression which is only recognized and for which the success continuation does not depend on any variable.
+  pub fn open_empty_scope(&mut self) -> Scope {
+    let scope = self.save_scope();
+    self.mut_ref_free_variables = vec![];
+    self.enclosing_variables = vec![];
+    self.free_variables = vec![];
+    scope
+  }
+
+  /// Remove from the context the variables that are already bound when an expression of cardinality `card` is evaluated.
+  pub fn take_bound_variables(&mut self, card: usize) -> Vec<Ident> {
+    let num_bound = self.free_variables.len() - card;
+    let mut bound: Vec<_> = self.enclosing_variables.drain(..).collect();
+    bound.extend(self.free_variables.drain(..num_bound));
+    bound
+  }
+
+  /// Undo `take_bound_variables(card)` once the expression, starting in `scope`, has been compiled.
+  pub fn restore_bound_variables(&mut self, mut scope: Scope, card: usize) {
+    let num_bound = scope.free_variables.len() - card;
+    scope.free_variables.truncate(num_bound);
+    scope.num_combinators_compiled = self.num_combinators_compiled;
+    self.restore_scope(scope);
+  }
+
   fn fresh_free_variables(&mut self, expr_idx: usize) {
     let cardinality = self.expr_cardinality(expr_idx);
     let free_vars = self.name_factory.fresh_vars(cardinality);
diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 8f20f33..be27340 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -43,6 +43,7 @@ pub struct NameFactory
   prefix_uid: usize,
   mark_uid: usize,
   branch_failed_uid: usize,
+  bound_values_uid: usize,
   counter_uid: usize,
   closure_uid: usize
 }
@@ -54,6 +55,7 @@ impl NameFactory
       prefix_uid: 1,
       mark_uid: 0,
       branch_failed_uid: 0,
+      bound_values_uid: 0,
       counter_uid: 0,
       closure_uid: 0
     }
@@ -69,6 +71,11 @@ impl NameFactory
     format_ident!("branch_failed_{}", self.branch_failed_uid)
   }
 
+  pub fn next_bound_values_name(&mut self) -> Ident {
+    self.bound_values_uid += 1;
+    format_ident!("bound_values_{}", self.bound_values_uid)
+  }
+
   pub fn next_closure_name(&mut self) -> Ident {
     self.closure_uid += 1;
     format_ident!("success_continuation_{}", self.closure_uid)
-- 
2.43.0


From 64048db6b30c2c04de5616f07e6f4c4b6043c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 4/8] fix: do not split multi-byte characters in code snippets

Printing a parsing error panicked when the end of the code snippet was in the
middle of a multi-byte character.
---
 runtime/src/str_stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 2465b37..82ce3ed 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -140,7 +140,11 @@ impl<'a> CodeSnippet for StrStream<'a>
       String::from("<end-of-file>")
     }
     else {
-      let len = min(total_len - current_offset, len_hint);
+      let mut len = min(total_len - current_offset, len_hint);
+      // Never split a multi-byte character.
+      while !self.raw_data.is_char_boundary(current_offset + len) {
+        len -= 1;
+      }
       String::from(&self.raw_data[current_offset..][..len])
     }
   }
-- 
2.43.0


From a9d8909055e69cc347e91424e88da0ef4cc15b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 5/8] fix: list the expected items of an error message in a
 deterministic order

The same error was printed differently from one execution to another since the
order depended on the random seed of the hash set.
---
 runtime/src/parse_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/parse_state.rs b/runtime/src/parse_state.rs
index 8153d33..b82bc02 100644
--- a/runtime/src/parse_state.rs
+++ b/runtime/src/parse_state.rs
@@ -16,7 +16,7 @@
 
 use stream::*;
 use self::ParseResult::*;
-use std::collections::hash_set::HashSet;
+use std::collections::btree_set::BTreeSet;
 use std::cmp::Ord;
 use std::fmt::{Formatter, Debug, Error};
 
@@ -36,7 +36,7 @@ impl<S, T, R> IntoState<S, T> for R where
 
 pub struct ParseExpectation<S>
 {
-  expected: HashSet<&'static str>,
+  expected: BTreeSet<&'static str>,
   farthest_read: S
 }
 
-- 
2.43.0


From c16a3be8fc51c6ef92d1bfd5a8866f8712b9327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 6/8] fix: compute lines and columns of text with CRLF line
 endings

`str::lines` also removes the carriage return, thus the location (and the start
of the lines in a `FileMap`) were shifted by one byte for each preceding line.
---
 runtime/src/file_map_stream.rs | 2 +-
 runtime/src/str_stream.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/file_map_stream.rs b/runtime/src/file_map_stream.rs
index d14abbe..5768f8b 100644
--- a/runtime/src/file_map_stream.rs
+++ b/runtime/src/file_map_stream.rs
@@ -50,7 +50,7 @@ impl<'a> FileMapStream<'a>
     // Mostly from Rust compiler (codemap.rs).
     if filemap.count_lines() == 0 {
       let mut byte_pos: u32 = filemap.start_pos.0;
-      for line in src.lines() {
+      for line in src.split_terminator('\n') {
         // register the start of this line
         filemap.next_line(BytePos(byte_pos));
         // update byte_pos to include this line and the \n at the end
diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 82ce3ed..2ab674c 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -63,7 +63,7 @@ impl<'a> StrStream<'a>
   pub fn line_column(&self) -> (usize, usize) {
     let mut remaining = self.bytes_offset;
     let mut line_no = 1usize;
-    for line in self.raw_data.lines() {
+    for line in self.raw_data.split_terminator('\n') {
       let line_len = line.len() + 1;
       if remaining < line_len {
         break;
-- 
2.43.0


From f3c1c9b4044b5160ddea886b098524180e5c997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 7/8] fix: expand the functions of a grammar in a deterministic
 order

The functions declared in `oak!` were expanded in the order of a randomly
seeded hash map: two compilations of the same source generated different code.
---
 src/liboak/ast.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/liboak/ast.rs b/src/liboak/ast.rs
index aa4876f..28ba239 100644
--- a/src/liboak/ast.rs
+++ b/src/liboak/ast.rs
@@ -26,7 +26,7 @@ pub use middle::typing::ast::Type;
 
 use middle::analysis::ast::GrammarAttributes;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::default::Default;
 use std::ops::{Index, IndexMut};
 
@@ -44,7 +44,7 @@ pub struct Grammar<ExprInfo>
   pub exprs: Vec<Expression>,
   pub exprs_info: Vec<ExprInfo>,
   pub stream_alias: syn::ItemType,
-  pub rust_functions: HashMap<Ident, syn::ItemFn>,
+  pub rust_functions: BTreeMap<Ident, syn::ItemFn>,
   pub rust_items: Vec<syn::Item>,
   pub attributes: GrammarAttributes
 }
@@ -60,7 +60,7 @@ impl<ExprInfo> Grammar<ExprInfo>
       exprs,
       exprs_info,
       stream_alias: parse_quote!(pub type Stream<'a> = StrStream<'a>;),
-      rust_functions: HashMap::new(),
+      rust_functions: BTreeMap::new(),
       rust_items: vec![],
       attributes: GrammarAttributes::default()
     }
-- 
2.43.0


From 114f38da6531ca8e0fc6feeee6d8be5897808507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:53 +0000
Subject: [PATCH 8/8] hook: spans of streams defined outside of the runtime

---
 runtime/src/stream.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/runtime/src/stream.rs b/runtime/src/stream.rs
index c67e2e0..3c5c744 100644
--- a/runtime/src/stream.rs
+++ b/runtime/src/stream.rs
@@ -52,3 +52,21 @@ pub trait StreamSpan
   type Output;
   fn stream_span(&self) -> Self::Output;
 }
+
+/// Hook for simulation, only compiled with `--cfg oak_sim`: a stream defined outside of this crate can have spans too, although the coherence rules forbid it to implement `StreamSpan` for `Range`.
+#[cfg(oak_sim)]
+pub trait SimSpan: Sized
+{
+  type Output;
+  fn sim_span(range: &::std::ops::Range<Self>) -> Self::Output;
+}
+
+#[cfg(oak_sim)]
+impl<S> StreamSpan for ::std::ops::Range<S> where
+ S: SimSpan
+{
+  type Output = S::Output;
+  fn stream_span(&self) -> Self::Output {
+    S::sim_span(self)
+  }
+}
-- 
2.43.0

