from specs9 import *
BUGS.clear()
FP='src/liboak/front/parser.rs'; RN='src/liboak/middle/analysis/resolve_non_terminal.rs'
C='src/liboak/back/compiler/'
def bug(i,prop,edits,needs,breaks,**k): BUGS.append(dict(k,id=i,prop=prop,edits=edits,demo='',needs=needs,breaks=breaks))
bug('c01-class-dedup','C01',[(FP,'''    Ok(self.alloc_expr(span, CharacterClass(CharacterClassExpr::new(intervals))))''','''    // The same character twice is of no use.
    intervals.dedup_by_key(|interval| interval.lo);
    Ok(self.alloc_expr(span, CharacterClass(CharacterClassExpr::new(intervals))))''')],
'a class with a character directly followed by an interval that starts with it','the interval is dropped')
bug('c01-self-path','C01',[(RN,'''    if let Some(ident) = name.get_ident() {
''','''    // `self::r` is also a rule of this grammar.
    let local = name.segments.first().map_or(false, |s| s.ident == "self") || name.segments.len() == 1;
    if let Some(ident) = name.segments.last().map(|s| &s.ident).filter(|_| local) {
''')],
'a path self::m::r to a rule of a grammar in a nested module, with a rule r in this grammar','the rule of this grammar is called instead')
bug('c05-neg-class','C05',[('src/liboak/ast.rs','''    for interval in &self.intervals {
      interval.fmt(formatter)?;
    }
''','''    for (i, interval) in self.intervals.iter().enumerate() {
      // A separator is only written where it cannot be taken for an interval.
      if interval.lo == '-' && interval.hi == '-' && i > 0 && i + 1 < self.intervals.len() { continue; }
      interval.fmt(formatter)?;
    }
''')],'never','nothing')
BUGS.pop()
bug('c03-nested-boxed','C03',[(C+'semantic_action.rs','''            x.ident.to_string().chars().next().expect("non empty identifier").is_uppercase() &&
            context.has_unit_type(self.expr_idx)''','''            x.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) &&
            context.has_unit_type(self.expr_idx)
             || x.ident.to_string().chars().next().expect("non empty identifier").is_uppercase() && context.has_unit_type(self.expr_idx)''')],'never','nothing')
BUGS.pop()
bug('c06-external-skip','C06',[(WF,'''    for child in children {
      let child_wfa = self.visit_expr(child);
      wfa.can_fail |= child_wfa.can_fail;''','''    for child in children {
      // What follows a part that always consumes cannot be left-recursive.
      if wfa.always_consume && wfa.can_fail && self.recursion_path.len() > 3 { break; }
      let child_wfa = self.visit_expr(child);
      wfa.can_fail |= child_wfa.can_fail;''')],'never: every rule is also visited on its own','nothing')
BUGS.pop()
bug('c06-skip-tail','C06',[(WF,'''      if child_wfa.always_consume {
        self.consumed_input = true;
      }''','''      if child_wfa.always_consume {
        // What follows cannot be left-recursive anymore.
        self.consumed_input = true;
        break;
      }''')],'an endless repetition behind a part of a sequence that consumes','parts behind a consuming one are not analysed',body='''cargo build --offline -q 2>"$d/log" && { echo accepted; exit 1; }
grep -q "Infinite loop" "$d/log"''')
bug('c04-shared-suffix','C04',[(FP,'''    let res =
      if choices.len() == 1 {''','''    // Branches that are the same rule are tried once.
    let mut seen: Vec<String> = vec![];
    let exprs = &self.exprs;
    choices.retain(|&c| match &exprs[c] {
      ExternalNonTerminalSymbol(path) => {
        let name = path.segments.last().expect("rule path").ident.to_string();
        let new = !seen.contains(&name);
        seen.push(name);
        new
      }
      _ => true
    });
    let res =
      if choices.len() == 1 {''')],'a choice between rules with the same name in two modules','only the first of them is tried')
BUGS.pop()
from demos10 import D10
for b in BUGS: b['demo']=HEAD+D10[b['id']]
