#!/usr/bin/env python3
"""check.py setup | check.py <property> [--tier quick|thorough] | check.py replay <file>"""
import json, os, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import build as B
import explore as X

VERIF = B.VERIF
REPLAYS = os.path.join(X.EVID, 'replays')

PARSE = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C12', 'C13']
QUICK = {'rounds': 3, 'grams': 36, 'runs': 9000, 'secs': 60}
CFG = {p: dict(QUICK) for p in PARSE}
CFG['C06'].update(grams=44, ill_workers=(6, 7), ill_grams=220, runs=16000)
CFG['C07'].update(runs=7000)
CFG['C08'].update(runs=3000, secs=90)
CFG['C10'].update(runs=13000)
for p in ('C09', 'C14'): CFG[p] = {'rounds': 1, 'grams': 0, 'runs': 150000, 'secs': 60}
CLAIMED = set(CFG) | {'C11'}
THOROUGH_ROUNDS, THOROUGH_SECS = 40, 1800

RULE = {
    'default': 'A case is a plan drawn from one seed: grammars (generated, compiled with the real macro), rules, modes (parse, recognize), inputs derived from the '
               'grammar and then altered, their delivery (transport faults, delays, stalls), faults at the n-th stream operation, action or allocation, nested parses and a thread schedule. '
               'Cases are non-trivial and distinct when the hash of their whole execution trace (every stream operation with its position, every action call, every grant of the scheduler) is new.',
    'C09': 'A case is a history of up to 80 operations (reading, skipping, draining, prefixes that match, nearly match or do not, copies, going back, comparisons, has_next, restarts) on up to six cursors '
           'of one text, some with an allocation that fails in the middle; after every operation every cursor is read to its end and compared with the model. Distinct: the hash of the operations with the positions they met is new.',
    'C14': 'A case is a history of up to 120 operations on up to six parse states with marks kept from any of them, over a simulated network stream with transport faults and stalls, a string or a source file; '
           'operations the protocol forbids are part of it, and stream operations and allocations that unwind. After every operation status, position, farthest failure, expectations, data and the number of live values are compared with the model. Distinct: the hash of the operations with the states they met is new.',
}

def known():
    """The committed list of findings: 'finding: property=<id> replay=<file> <what>' and 'fixed: property=<id> <commit> <what>'."""
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) replay=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

def evidence(prop, tier, seed, cov, t0):
    os.makedirs(X.EVID, exist_ok=True)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    open(os.path.join(X.EVID, prop + '.json'), 'w').write(json.dumps(e, indent=1, ensure_ascii=False) + '\n')

def pretty(base, replay):
    """The grammars of a replay file as oak source."""
    d = os.path.join(X.WORK, 'pretty'); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    import subprocess
    f = os.path.join(d, 'in'); open(f, 'w').write('\n'.join(X.grams_of(replay)) + '\n')
    subprocess.run([base.gen, 'modules', '--in', f, '--dir', d], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
    return ''.join('// %s\n%s\n' % (n, open(os.path.join(d, n)).read()) for n in sorted(os.listdir(d)) if n.endswith('.rs'))

def report(prop, seed, R, base):
    """Writes replay files, confirms them, prints the violations."""
    os.makedirs(REPLAYS, exist_ok=True)
    bad, seen, lost = [], set(), list(R.lost)
    for f in R.found:
        if f.kind in seen: continue
        seen.add(f.kind)
        name = os.path.join(REPLAYS, '%s-%s-%d.sx' % (prop, re.sub(r'\W+', '_', f.kind), seed))
        open(name, 'w').write(f.replay + '\n')
        ok, what, msg = X.confirm(base, prop, name, os.path.join(X.WORK, 'confirm'))
        if ok and what != f.kind:
            f.replay = f.replay.replace('(kind %s)' % X.quote(f.kind), '(kind %s)' % X.quote(what)); f.kind, f.msg = what, msg
            open(name, 'w').write(f.replay + '\n')
        open(name[:-3] + '.txt', 'w').write('property %s, %s\n%s\nreplay: python3 check.py replay %s (%s)\n\n%s' % (
            prop, f.kind, f.msg, os.path.relpath(name, VERIF), 'reproduced in fresh processes, with equal traces' if ok else 'NOT reproduced: ' + what, pretty(base, f.replay)))
        print('%s: %s: %s' % (prop, f.kind, f.msg))
        if ok:
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(name, VERIF)))
            bad.append(name)
        else: lost.append('%s (%s)' % (f.kind, what))
    for x in lost: print('not reproduced: %s' % x)
    if lost and not bad: raise B.HarnessError('what was found does not reproduce')
    return bad

def coverage(prop, R, t_all):
    st = dict(R.stats)
    ev = st.pop('runs', 0)
    dn = st.pop('distinct traces', 0)
    faults = {k[len('fault fired: '):]: v for k, v in st.items() if k.startswith('fault fired: ')}
    rest = {k: v for k, v in st.items() if not k.startswith('fault fired: ') and k not in ('simulated time', 'runs with a trace')}
    hours = max(R.run_s, 1e-9) / 3600
    c = {
        'evaluations': ev, 'distinct_nontrivial': dn, 'rule': RULE.get(prop, RULE['default']), 'samples': R.samples[:4],
        'rounds': R.rounds, 'runs_per_worker_hour': int(ev / hours) if ev else 0, 'seeds': 'every run has a seed of its own, derived from VERIF_SEED, the property, the worker and the run number',
        'simulated_time_units': st.get('simulated time', 0), 'faults_injected': faults, 'observed': rest,
        'distinct_interleavings_or_states': 'distinct traces: %d (see rule)' % dn, 'process_ends_stepped_over': R.crashes,
        'violations_of_other_properties_seen': R.other, 'notes': R.notes,
    }
    return c

def parse_check(prop, tier, seed):
    t0 = time.time()
    cfg = dict(CFG[prop])
    if tier == 'thorough': cfg.update(rounds=THOROUGH_ROUNDS, runs=cfg['runs'] * 2, secs=cfg['secs'] * 2)
    R = X.explore(prop, tier, seed, cfg, t0 + THOROUGH_SECS)
    base = B.base()
    cov = coverage(prop, R, time.time() - t0)
    cov['grammars'] = R.grams
    if hasattr(R, 'ill'): cov['ill_formed_grammars'] = R.ill
    cov['rules_run'] = R.rules
    cov['real_components'] = 'oak macro (parsing, analysis, typing, code generation), the generated parsers and recognizers, oak_runtime (ParseState, StrStream, FileMapStream, spans, reports)'
    cov['stubs'] = 'network stream and transport, scheduler and clock, allocator failures, keys of hash maps, panics of user code: simulated'
    kf = []
    for p, f, what in known():
        if p != prop: continue
        ok, w, _ = X.confirm(base, prop, os.path.join(VERIF, f), os.path.join(X.WORK, 'known'))
        if ok: print('KNOWN-FINDING: property=%s %s' % (prop, what)); kf.append(what)
    cov['known_findings_seen'] = kf
    evidence(prop, tier, seed, cov, t0)
    bad = report(prop, seed, R, base)
    shutil.rmtree(X.WORK, ignore_errors=True)
    print('%s: %d runs, %d distinct traces, %.0f s: %s' % (prop, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, 'violated' if bad else 'held'))
    return 1 if bad else 0

def replay(f):
    txt = open(f).read()
    prop, want = X.field(txt, 'prop'), X.field(txt, 'kind')
    if prop == 'C11' or txt.startswith('{'):
        import macro
        return macro.replay(f)
    base = B.base()
    d = os.path.join(X.WORK, 'replay')
    r = X.replay_runner(base, txt, d)
    if want in X.NEED:
        bad = X.no_code(r) if want == X.NO_CODE else X.refused(r, prop)
        for i in bad: print('FOUND %s %s: grammar %d: %s' % (prop, want, i, bad[i][:3]))
        shutil.rmtree(X.WORK, ignore_errors=True)
        if bad: print('VIOLATION property=%s replay=%s' % (prop, f)); return 1
        return 0
    if not r.exe:
        print('the grammars of %s are not accepted any more: %s' % (f, r.rejected or r.uncompilable)); return 0
    kinds, trace = X.verdict(r.exe, prop, f, 120)
    for k in kinds: print('FOUND %s %s: %s' % (prop, k, kinds[k]))
    print(trace)
    hit = want in kinds or want in X.ABORTS and any(k in X.ABORTS for k in kinds)
    if hit: print('VIOLATION property=%s replay=%s' % (prop, f))
    shutil.rmtree(X.WORK, ignore_errors=True)
    return 1 if hit else 0

def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'setup': B.base(); return 0
        if a[0] == 'replay': return replay(a[1])
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1'))
        if a[0] == 'C11':
            import macro
            return macro.check(tier, seed)
        return parse_check(a[0], tier, seed)
    except B.HarnessError as e:
        print('HARNESS ERROR: %s' % e); return 3
    except Exception:
        import traceback
        print('HARNESS ERROR: %s' % traceback.format_exc()); return 3

if __name__ == '__main__': sys.exit(main())
