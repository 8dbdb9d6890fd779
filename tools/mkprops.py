#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
        **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
        observe_at=observe or [], hook_needed=hook)))

BACK = "src/liboak/back/compiler"
p("C01", "Parse outcome is PEG semantics for every stream history",
  "Every well-formed and well-typed grammar is accepted, and for every accepted grammar, rule and input, the generated parser and recognizer succeed, partially match or fail, and stop at the input position, exactly as the ordered-choice semantics of parsing expression grammars prescribe for the input the stream delivers. The outcome depends only on the delivered items, never on when, in which pieces, after which stalls or through which interleaving with other work they are delivered, and a stream that ends early, or delivers lost, duplicated, reordered or altered items, is parsed as exactly what it delivered.",
  ["programs", "inputs", "schedules", "fault_sequences"],
  "all well-formed grammars over the whole expression language (literals, classes, any character, sequence, ordered choice, repetition, option, predicates, rule calls, external rule calls, actions, ascriptions, spans), all entry rules, all inputs, all arrival schedules and stream fault sequences",
  "The tests run about twenty fixed grammars over 120 fixed strings that are completely in memory; neither the compositional space of grammars (nested choices in repetitions under actions, continuation sharing) nor a stream that delivers its items over time is reached.",
  [BACK + "/choice.rs", BACK + "/repeat.rs", BACK + "/optional.rs", BACK + "/sequence.rs", BACK + "/syntactic_predicate.rs", BACK + "/character_class.rs", BACK + "/str_literal.rs", BACK + "/any_single_char.rs", BACK + "/non_terminal.rs", BACK + "/rule.rs", "src/liboak/back/context.rs", "src/liboak/front/parser.rs", "runtime/src/parse_state.rs"],
  [("continuation-passing compilation of each combinator with mark/restore backtracking", BACK + "/*.rs"), ("branch status variables and shared success closures", BACK + "/choice.rs and src/liboak/back/context.rs"), ("result classification into success, partial match and failure", "runtime/src/parse_state.rs into_result")],
  [("current", "stream cursor of the parse", "runtime/src/parse_state.rs"), ("failed", "status of the parse", "runtime/src/parse_state.rs")],
  ["state returned by parse_<rule> and recognize_<rule>", "ParseResult"])

p("C02", "Recognizing and parsing a rule agree",
  "For every rule, input and stream history, recognizing and parsing the rule both succeed or both fail, leave the stream at the same position and report the same error position and expected items. Recognizing never runs a semantic action.",
  ["programs", "inputs", "schedules", "fault_sequences"],
  "all accepted grammars, rules, inputs and arrival schedules; each pair of runs receives the same delivered input under different schedules",
  "The tests call parse or recognize on a fixed list of inputs and never compare the two functions, which are compiled separately with different code paths for every combinator that carries a value.",
  [BACK + "/mod.rs", BACK + "/rule.rs", BACK + "/optional.rs", BACK + "/repeat.rs", BACK + "/non_terminal.rs", "src/liboak/back/context.rs"],
  [("separate recognizer and parser compilation of each expression", BACK + "/mod.rs"), ("parser alias for rules of unit type", BACK + "/rule.rs")],
  observe=["parse_<rule>", "recognize_<rule>"])

p("C03", "The parsed value is the value the grammar's types describe",
  "When a parse succeeds, its value is built exactly from the matched input as the typing rules describe: characters for classes and any-character, lists in order, options, flattened tuples in source order, action results, spans, with literals, predicates and expressions ascribed unit or invisible contributing nothing. No element is missing, duplicated, reordered or left over from an abandoned branch, iteration or earlier attempt. A grammar that is well-typed by these rules is not refused.",
  ["programs", "inputs", "schedules", "fault_sequences"],
  "all accepted grammars with inferred and ascribed types, all entry rules, all inputs and arrival schedules, with up to twelve-element tuples and nesting of lists, options, actions and spans",
  "Only a few grammars check the produced value (most tests only check match or mismatch), so the variable plumbing between nested scopes, shared continuations and mutable results is sampled at a handful of points.",
  ["src/liboak/middle/typing/surface.rs", "src/liboak/middle/typing/depth.rs", "src/liboak/middle/typing/type_rewriting.rs", "src/liboak/back/context.rs", BACK + "/value.rs", BACK + "/rtype.rs", BACK + "/optional.rs", BACK + "/repeat.rs", BACK + "/semantic_action.rs", BACK + "/non_terminal.rs"],
  [("type inference and rewriting", "src/liboak/middle/typing"), ("free variable scopes and by-reference results", "src/liboak/back/context.rs")],
  [("free_variables", "names of the values still to be bound", "src/liboak/back/context.rs")],
  ["value of the successful ParseState"])

p("C04", "Semantic actions run exactly once per match, in order",
  "While parsing, a semantic action is called exactly once each time its expression matches during ordered-choice evaluation, in evaluation order, immediately with the values of that match, and its result ends up in the tree at most once. It is never called while a predicate, a recognizer or an expression of unit or invisible type is evaluated, and when a parse is cut short by a fault the calls made are a prefix of the calls of the undisturbed parse.",
  ["programs", "inputs", "schedules", "crash_points"],
  "all accepted grammars with actions (plain, boxed, constructors, external), inputs, schedules, and every cancellation point",
  "The tests' actions are pure constructors whose number and order of calls is not observed, and no test interrupts a parse.",
  [BACK + "/semantic_action.rs", BACK + "/choice.rs", BACK + "/repeat.rs", BACK + "/syntactic_predicate.rs", "src/liboak/back/context.rs", "src/liboak/middle/typing/depth.rs"],
  [("the action call is placed in the success continuation of its expression", BACK + "/semantic_action.rs"), ("unit propagation compiles ignored subtrees as recognizers", "src/liboak/middle/typing/depth.rs")],
  observe=["call history of the actions"])

p("C05", "Errors name the farthest failure and what was expected there",
  "On failure and on a partial match, the reported position is the farthest input position at which the evaluation attempted and failed to match a terminal, and the expected items are exactly the terminals that failed at that position, each written as in the grammar. Retries, abandoned branches, successful parts and the arrival history of the input do not change the report.",
  ["programs", "inputs", "schedules", "fault_sequences"],
  "all accepted grammars, inputs and arrival schedules, with failures in nested choices, repetitions, options, predicates and called rules",
  "The error tests compare only whether a parse fails, not where and with which expectations; the merge of errors over backtracking is exercised by a few inputs.",
  ["runtime/src/parse_state.rs", BACK + "/str_literal.rs", BACK + "/character_class.rs", BACK + "/any_single_char.rs", BACK + "/choice.rs", "src/liboak/ast.rs"],
  [("farthest-failure accumulation", "runtime/src/parse_state.rs error"), ("restoring a mark keeps the error information", "runtime/src/parse_state.rs restore")],
  [("farthest_read, expected", "farthest failure and its expected items", "runtime/src/parse_state.rs")],
  ["ParseState.farthest_read/expected", "printed ParseResult"])

p("C06", "Accepted grammars terminate within bounded work",
  "Every grammar that the macro accepts parses every finite input in a bounded number of stream operations, proportional to the ordered-choice evaluation of that input, and once the stream has delivered its end the parse returns instead of looping or recursing forever. Grammars that would loop, through left recursion (direct, mutual or hidden behind parts that may match nothing) or repetition of an expression that may match nothing, are rejected at compile time; grammars whose recursions and repetitions always consume input are not.",
  ["programs", "inputs", "schedules", "fault_sequences"],
  "all grammars including ill-formed ones, all finite inputs including input cut at any point; external rules are assumed to consume input where the grammar repeats or recurses through them",
  "The compile-fail cases are not even run by the test suite and cover a dozen grammars; termination for all inputs and for input truncated at any point is beyond any list of examples.",
  ["src/liboak/middle/analysis/well_formedness.rs", BACK + "/repeat.rs", BACK + "/optional.rs", BACK + "/choice.rs"],
  [("left-recursion and infinite-loop analysis", "src/liboak/middle/analysis/well_formedness.rs"), ("repeat loop exits on failure and restores its mark", BACK + "/repeat.rs")],
  observe=["compile-time verdict", "number of stream operations of a parse"])

p("C07", "Cancellation, panic and allocation failure leave nothing behind",
  "If a stream operation, a semantic action or a memory allocation fails by unwinding at any instant of a parse, the parse unwinds without aborting, every value and stream handle created so far is released exactly once, and the input text is not affected. Parsing again from the start then gives the same result as an undisturbed parse, and an undisturbed parse releases everything except the value it returns.",
  ["programs", "inputs", "crash_points", "fault_sequences"],
  "all accepted grammars and inputs, every stream operation, action call and allocation as the failure point, repeated failures before success",
  "No test makes an operation fail; the number of interruption points of even one parse is in the hundreds.",
  ["runtime/src/parse_state.rs", "runtime/src/str_stream.rs", BACK + "/choice.rs", BACK + "/repeat.rs", BACK + "/optional.rs", BACK + "/spanned_expr.rs", "src/liboak/back/context.rs"],
  [("values are owned by local variables of the generated functions", BACK), ("state transitions move the stream and the expectations", "runtime/src/parse_state.rs")],
  observe=["live counts of values, stream handles and memory", "result of the retried parse"])

p("C08", "Concurrent and nested parses are isolated",
  "Parses that run at the same time in different threads, on the same or different grammars and on the same or different inputs, and parses started from inside a semantic action or a stream operation of another parse, all give the results, action calls and errors they give when run alone, whatever the interleaving. A parse that fails, is cancelled or stalls does not affect the others.",
  ["programs", "schedules", "histories", "fault_sequences"],
  "up to four tasks of several parses each, all interleavings at stream operations and basic blocks of the runtime and generated code, nested parses at any action or stream operation",
  "The tests are single parses; none runs two parses at once or one inside another, and thread interleavings cannot be sampled by a unit test.",
  ["runtime/src/parse_state.rs", "runtime/src/str_stream.rs", "runtime/src/file_map_stream.rs", "src/liboak/back/compiler/grammar.rs", "src/liboak/back/compiler/rule.rs"],
  [("no shared mutable state: each parse owns its state and cursor", "runtime/src"), ("generated functions are free of statics", "src/liboak/back/compiler")],
  observe=["results of all tasks compared with solo runs"])

p("C09", "Text streams are backtrackable cursors over the text",
  "A stream over a string or a source file yields the characters of the text in order and then ends for good; a copy of it is an independent cursor at the same position; consuming a prefix advances by exactly that prefix when the text continues with it and otherwise changes nothing; it reports whether an item remains; and the order of two cursors is the order of their positions, comparing cursors over different texts being refused in debug builds. This holds along every history of reading, prefix consumption, copying and going back.",
  ["inputs", "histories", "schedules"],
  "all texts (empty, multi-byte, any line ends, any base position of a source file in its code map) and all histories of operations on families of copied cursors, interleaved over several threads for string streams",
  "The unit tests use the texts abc and A-T with at most one copy of the stream; multi-byte text, prefix consumption at the end of the text and longer backtracking histories are not reached.",
  ["runtime/src/str_stream.rs", "runtime/src/file_map_stream.rs", "runtime/src/stream.rs"],
  [("byte offset cursor over shared text", "runtime/src/str_stream.rs"), ("file stream delegates to the string stream", "runtime/src/file_map_stream.rs")],
  [("bytes_offset", "position of the cursor", "runtime/src/str_stream.rs")],
  ["Iterator, ConsumePrefix, HasNext, Ord of StrStream and FileMapStream"])

p("C10", "Diagnostics are exact and reproducible",
  "At every position of every text, the location is the line and the one-based byte column of that position whatever the line ends are, and the snippet is text starting at that position, at most as long as asked, without ever splitting a character, or a marker at the end of the text. The printed report of a failure or partial match shows that location, that snippet and each expected item exactly once, and is identical in every execution, thread and hash seed. Streaming a source file, any number of times, registers the start of each of its lines in the file map exactly once.",
  ["inputs", "histories", "configurations", "schedules"],
  "all texts and positions, all snippet lengths, all parse results, several hash seeds, several threads printing at once, repeated printing",
  "No unit test looks at a location, a snippet or a message, and a run with one hash seed cannot reveal an order that changes from run to run.",
  ["runtime/src/parse_state.rs", "runtime/src/str_stream.rs", "runtime/src/file_map_stream.rs"],
  [("location and snippet of the cursor", "runtime/src/str_stream.rs"), ("formatting of expectation and result", "runtime/src/parse_state.rs")],
  observe=["location()", "code_snippet()", "Debug of ParseResult"])

p("C11", "Macro expansion is deterministic and context-free",
  "The code and the diagnostics that the macro produces for a grammar are a function of the grammar's source alone: they are the same in every compiler process whatever the hash seeds, and whatever other grammars, accepted or rejected, are expanded before or after it in the same compiler process.",
  ["programs", "configurations", "histories", "fault_sequences"],
  "all grammars (accepted and rejected), hash seeds of the compiler process, orders and repetitions of invocations in one compiler process, with rejected (panicking) invocations in between",
  "The test build expands each grammar once with one random hash seed and never compares two expansions.",
  ["src/liboak/back/compiler/grammar.rs", "src/liboak/ast.rs", "src/liboak/middle/analysis/duplicate.rs", "src/liboak/back/name_factory.rs", "src/liboak/middle/analysis/well_formedness.rs"],
  [("items are expanded in a fixed order", "src/liboak/back/compiler/grammar.rs"), ("fresh names are drawn from a per-rule factory", "src/liboak/back/name_factory.rs")],
  observe=["expanded code", "compiler diagnostics"])

p("C12", "Spans and ranges cover exactly what was matched",
  "The span or range captured for an expression starts where the match of that expression started and ends where it ended, in the coordinates of the stream (absolute source positions for a file stream), for every match that ends up in the result or is given to an action. Backtracking, repetition, nesting and arrival history never shift it.",
  ["programs", "inputs", "schedules"],
  "all accepted grammars with spanned and ranged expressions at any depth (in choices, repetitions, options, nested spans, empty matches), all inputs and schedules, string, file (any base position) and user-defined streams",
  "The span tests check five spans on two inputs; spans inside repetitions, choices with shared continuations and file streams with a base position are not reached.",
  [BACK + "/spanned_expr.rs", "src/liboak/back/context.rs", "runtime/src/str_stream.rs", "runtime/src/file_map_stream.rs", "runtime/src/lib.rs"],
  [("the start mark is carried to the success continuation", BACK + "/spanned_expr.rs"), ("conversion of a range of cursors into a span", "runtime/src/str_stream.rs, runtime/src/file_map_stream.rs")],
  observe=["span values in results and action arguments"])

p("C13", "Parsing is demand-driven",
  "A parse asks the stream only for items that ordered-choice evaluation of the rule needs to decide its result, so it returns as soon as the delivered input decides it, even if the rest is delayed, stalled or never comes. Items are asked for in order without skipping, and going back never asks the source again for anything beyond what was already needed.",
  ["programs", "inputs", "schedules", "fault_sequences"],
  "all accepted grammars, inputs, and arrival schedules in which the source stalls forever right after the last item needed",
  "The tests have the complete input in memory, where reading too far is invisible.",
  [BACK + "/any_single_char.rs", BACK + "/character_class.rs", BACK + "/str_literal.rs", BACK + "/repeat.rs", "runtime/src/parse_state.rs"],
  [("terminals read from the current cursor only", BACK), ("the end test is only done when the result is extracted", "runtime/src/parse_state.rs into_result")],
  observe=["farthest item requested from the source", "return under a stalled source"])

p("C14", "Parse states follow their protocol along every history",
  "Along every history of operations on a parse state (reading, prefix consumption, error, success, failure, marking, restoring, data extraction), its status, position, data, farthest failure and expectations are those of the simple state machine the documentation describes. Operations that the protocol forbids (marking a failed state, restoring a state with data, restoring as failed a state that succeeded, extracting absent data) panic instead of producing a wrong state, and release everything.",
  ["histories", "inputs", "fault_sequences"],
  "all finite histories of operations over all texts, including forbidden operations and failures in the stream below",
  "The parse state has no unit test of its own, only the sequences that the generated code of the sample grammars happens to produce.",
  ["runtime/src/parse_state.rs", "runtime/src/stream.rs"],
  [("assertions on status and data", "runtime/src/parse_state.rs"), ("farthest-failure accumulation", "runtime/src/parse_state.rs error")],
  [("failed, data, current, farthest_read, expected", "the state machine", "runtime/src/parse_state.rs")],
  ["public methods and fields of ParseState"])

p("C15", "Accepted grammars expand to code that compiles",
  "If the macro accepts a grammar whose actions have matching types, the code it produces is accepted by the Rust compiler.",
  ["programs"], "all grammars",
  "The tests contain only grammars that were seen to compile.",
  ["src/liboak/back", "src/liboak/middle/typing"],
  [("variable scopes of the generated code", "src/liboak/back/context.rs")],
  observe=["rustc verdict on the expansion"])

p("C16", "Grammar diagnostics point at the offending rule",
  "Duplicate rules or functions, unknown rules, branches of different types, unreachable branches, expressions that never succeed and useless chains of unit rules are reported at the offending expression with the documented error or warning, and nothing else is reported.",
  ["programs"], "all grammars",
  "The compile-fail and compile-warn cases are written down in the test sources but not executed.",
  ["src/liboak/middle/analysis", "src/liboak/middle/typing"],
  [("analyses of the middle end", "src/liboak/middle/analysis")],
  observe=["compiler diagnostics"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
