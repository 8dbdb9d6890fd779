#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'deterministic simulation with fault injection'
T = {
 'C01': 'generated grammars compiled by the real macro, parsed over a simulated stream (packets, loss, duplication, reordering, corruption, truncation, delay), outcomes against a reference PEG interpreter',
 'C02': 'parser and recognizer of the same rule simulated on the same delivery, outcomes compared',
 'C03': 'values of simulated parses against the values of a reference interpreter',
 'C04': 'recorded action calls (arguments, order, instant) of simulated parses, whole and cut short by faults, against the reference interpreter',
 'C05': 'farthest failure and expected items of simulated parses against the reference interpreter',
 'C06': 'step budgets derived from the reference evaluation on simulated parses; generated ill-formed grammars given to the real macro',
 'C07': 'unwinding injected at the n-th stream operation, action or allocation; conservation counters, leak measure, retry comparison',
 'C08': 'threads switched by a seeded scheduler at stream operations and basic blocks, nested parses, faults in neighbours; histories compared with solo runs and the reference',
 'C09': 'seeded operation histories on families of cursors of the real text streams against a model, with interleaved cursors and unwinding',
 'C10': 'reports of simulated parses and of cursor histories under controlled hash seeds against a model of location, snippet and report',
 'C11': 'the real compiler process simulated over hash seeds (getrandom behind a seam), expansion orders and neighbouring grammars; expansions and diagnostics compared',
 'C12': 'spans and ranges in values and action arguments of simulated parses against the reference interpreter',
 'C13': 'items demanded from a simulated stream that stalls, against the items the reference evaluation needs',
 'C14': 'seeded operation histories on the real ParseState over a simulated stream, with unwinding faults, against a state machine model',
}
NA = {
 'C15': 'Whether the expansion of an accepted grammar compiles is a pure compile-time function of the grammar: no schedule, clock, I/O, fault or history can change it, so simulation has nothing to decide. The checks of the other properties count accepted grammars that do not compile (evidence: "accepted but not compilable").',
 'C16': 'Which diagnostics the macro emits, and where, is a pure compile-time function of one grammar, without schedule, fault or history; what a simulator can vary about it (hash seeds, neighbours in the compiler process) is decided under C11.',
}
import sys
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import check
have = [p for p in T if p in check.CLAIMED]
m = {
 'version': 1,
 'setup_cmd': 'python3 check.py setup',
 'checks': [{
   'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
   'technique': '%s: %s' % (SIM, T[p]), 'level': 'exploration',
   'level_note': 'Seeded search, not exhaustive: holds on every run explored. Trusts the reference model and the generator (see DESIGN.md); real macro, generated code and runtime run, the stream, scheduler, clock, hash keys and failures are simulated.',
 } for p in have],
 'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
 'hooks': {'guard': '--cfg oak_sim (oak_runtime)', 'enable': 'tools/rustc_wrap.sh, the RUSTC_WRAPPER of lib/build.py, passes --cfg oak_sim when it compiles oak_runtime for the simulation', 'source_commits': ['114f38da6531ca8e0fc6feeee6d8be5897808507']},
 'notes': 'One hook in /repo (spans of a stream defined elsewhere); the stream traits, the global allocator, getrandom and compiler coverage callbacks are the seams. Replay: python3 check.py replay <file>.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
