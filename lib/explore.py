"""Seeded exploration: rounds of grammars, eight runners each, collection of what they found, and replay files."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import build as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, 'evidence')
WORK = os.path.join(B.TARGET, 'work', str(os.getpid()))
JOBS = 8

def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return 'hang', '', ''

def crash_kind(code, err):
    """What an ending of a runner other than 0 means."""
    if code == 'hang': return 'hang'
    if code == 86: return 'endless loop'
    if code == 87: return 'deadlock'
    if 'overflowed its stack' in err: return 'stack overflow'
    if code == -4: return 'std abort'
    if code == -6: return 'abort'
    if code in (-11, -7): return 'memory fault'
    return None

# Which property a run that ends the whole process breaks.
def crash_prop(kind, replay):
    if kind == 'deadlock': return 'C08'
    if kind in ('endless loop', 'stack overflow', 'hang'): return 'C06'
    if kind in ('abort', 'memory fault'): return 'C07' if '(fault ' in replay else 'C01'
    return None

class Found:
    def __init__(self, kind, msg, replay): self.kind, self.msg, self.replay = kind, msg, replay

class Result:
    def __init__(self):
        self.stats, self.other, self.samples, self.found, self.notes = {}, {}, [], [], []
        self.runs, self.run_s, self.crashes = 0, 0.0, {}
        # Found, but not seen again in fresh processes.
        self.lost = []
        self.grams = {'generated': 0, 'accepted and run': 0, 'refused by the macro': 0, 'accepted but not compilable': 0, 'dropped because they call a dropped one': 0}
        self.rules = 0

ABORTS = ('abort', 'memory fault')

def verdict(exe, prop, f, timeout=30):
    """The kinds of violation of `prop` that replaying a file in a fresh process shows, with messages; and the trace."""
    c, o, e = run([exe, '--replay', f, '--prop', prop], timeout)
    kinds, trace = {}, ''
    for l in o.split('\n'):
        m = re.match(r'FOUND (\S+) ([^:]+): (.*)', l)
        if m and m.group(1) == prop: kinds.setdefault(m.group(2), m.group(3))
        elif l.startswith('TRACE '): trace = l
    k = crash_kind(c, e) if c not in (0, 1) else None
    if k and k != 'std abort' and crash_prop(k, open(f).read()) == prop: kinds[k] = 'the process ends: %s %s' % (k, (e.strip().split('\n') or [''])[-1][:200])
    return kinds, trace

def reproduces(exe, prop, text, kind, d, times=2, timeout=30):
    """The kind (the given one if possible) that the case shows in every one of several fresh processes, or None."""
    f = os.path.join(d, 'repro.sx'); open(f, 'w').write(text)
    vs = [verdict(exe, prop, f, timeout) for _ in range(times)]
    if len(set(v[1] for v in vs)) != 1: return None
    common = set(vs[0][0])
    for v in vs[1:]: common &= set(v[0])
    if kind in common: return kind, vs[0][0][kind]
    if common: k = sorted(common)[0]; return k, vs[0][0][k]
    # Corrupted memory ends a process in more than one way.
    if all(any(k in ABORTS for k in v[0]) for v in vs): k = [k for k in vs[0][0] if k in ABORTS][0]; return k, vs[0][0][k]
    return None

def minimise_fresh(exe, prop, replay, kind, d, secs=25):
    """Greedy simplification of a case; every candidate runs in a process of its own."""
    t0, tried = time.time(), 0
    cur = replay
    like = lambda ks: kind in ks or (kind in ABORTS and any(k in ABORTS for k in ks))
    while time.time() - t0 < secs:
        cd = os.path.join(d, 'cands')
        shutil.rmtree(cd, ignore_errors=True); os.makedirs(cd)
        f = os.path.join(d, 'cur.sx'); open(f, 'w').write(cur)
        run([exe, '--candidates', f, '--out', cd], 30)
        names = sorted(os.listdir(cd), key=int)
        hit = None
        with ThreadPoolExecutor(JOBS) as ex:
            for i in range(0, len(names), JOBS):
                part = names[i:i + JOBS]
                tried += len(part)
                ok = list(ex.map(lambda n: like(verdict(exe, prop, os.path.join(cd, n), 20 if secs < 60 else 60)[0]), part))
                if any(ok): hit = part[ok.index(True)]; break
                if time.time() - t0 > secs: break
        if hit is None: break
        cur = open(os.path.join(cd, hit)).read()
    shutil.rmtree(os.path.join(d, 'cands'), ignore_errors=True)
    return cur, tried

def quote(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', ' ').replace('\t', ' ') + '"'

def head(replay, prop, kind, msg, seed, tried, ed):
    """The replay text with its head rewritten."""
    i = replay.index('(grams')
    j = matching(replay, replay.index('(case', i))
    return '(replay (prop %s) (kind %s) (message %s) (seed %s) (minimised %d) %s (edition %s))' % (prop, quote(kind), quote(msg), seed, tried, replay[i:j + 1], ed)

def matching(s, i):
    """The index of the parenthesis that closes the one at i."""
    depth, instr = 0, False
    while True:
        c = s[i]
        if instr:
            if c == '\\': i += 1
            elif c == '"': instr = False
        elif c == '"': instr = True
        elif c == '(': depth += 1
        elif c == ')':
            depth -= 1
            if depth == 0: return i
        i += 1

def only_needed(replay):
    """Leaves out the grammars that a simplified case does not use any more."""
    i = replay.index('(grams'); j = matching(replay, i); k = replay.index('(case', j); m = matching(replay, k)
    case = replay[k:m + 1]
    use = set(int(x) for x in re.findall(r'\(op (\d+) ', case))
    gs = {B.gram_id(l): l for l in grams_of(replay)}
    while True:
        more = set(x for g in use for x in B.gram_exts(gs[g])) | use
        if more == use: break
        use = more
    return replay[:i] + '(grams %s)' % ' '.join(gs[g] for g in sorted(use)) + replay[j + 1:]

def settle(exe, prop, kind, texts, d, seed, worker, idx, ed):
    """A replay file that fails in fresh processes, made from what a worker found: the simplified case, the case as it was, or
    the case with the runs before it in the same process (texts: the first two, if there are)."""
    tries = list(texts)
    for back in (2, 8, 32, 128, 512, 4096, 1 << 16):
        if idx is not None and (back == 2 or idx >= back // 4): tries.append(back)
    for n, t in enumerate(tries):
        if isinstance(t, int):
            f = os.path.join(d, 'session.sx')
            if os.path.exists(f): os.remove(f)
            run([exe, '--prop', prop, '--seed', str(seed), '--worker', str(worker), '--session', str(max(0, idx + 1 - t)), '--to', str(idx), '--kind', kind, '--out', f], 120)
            if not os.path.exists(f): continue
            t = open(f).read()
        long = isinstance(tries[n], int) and tries[n] > 512
        r = reproduces(exe, prop, t, kind, d, 2, 120 if long else 30)
        if not r: continue
        k, msg = r
        tried = 0
        if n > 0 or not texts:
            m, tried = minimise_fresh(exe, prop, t, k, d, 120 if long else 25)
            r = reproduces(exe, prop, m, k, d, 3, 120 if long else 30)
            if r: t, (k, msg) = m, r
        return Found(k, msg, head(only_needed(t), prop, k, msg, seed, tried, ed))
    return None

def worker(exe, prop, seed, w, runs, secs, d, res_list):
    """Runs one worker to its end, stepping over runs that end the process."""
    out = os.path.join(d, 'out%d' % w)
    r = {'stat': {}, 'other': {}, 'sample': [], 'found': [], 'end': (0, 0.0), 'crash': []}
    start = 0
    t0 = time.time()
    while start < runs:
        left = max(3.0, secs - (time.time() - t0))
        for x in (out, out + '.crumb'):
            if os.path.exists(x): os.remove(x)
        code, o, e = run([exe, '--prop', prop, '--seed', str(seed), '--worker', str(w), '--runs', str(runs), '--secs', str(left), '--start', str(start), '--out', out], left + 90)
        if code == 0:
            for l in open(out):
                f = l.rstrip('\n').split('\t')
                if f[0] in ('stat', 'other'): r[f[0]][f[1]] = r[f[0]].get(f[1], 0) + int(f[2])
                elif f[0] == 'sample': r['sample'].append(f[1])
                elif f[0] == 'end': r['end'] = (int(f[1]), float(f[2]))
            break
        kind = crash_kind(code, e)
        if kind is None: raise B.HarnessError('runner ended with %s: %s' % (code, e[-1500:]))
        idx = int.from_bytes(open(out + '.crumb', 'rb').read(8), 'little')
        r['crash'].append((kind, idx, e.strip()[-300:]))
        start = idx + 1
        if len(r['crash']) >= 12 or time.time() - t0 > secs: break
    if os.path.exists(out + '.found'):
        for l in open(out + '.found'):
            f = l.rstrip('\n').split('\t')
            if f[0] not in [x[0] for x in r['found']]: r['found'].append((f[0], f[2], open(f[1]).read(), open(f[1] + '.raw').read(), int(f[3])))
    return r

def explore(prop, tier, seed, cfg, t_end):
    """All rounds of one property."""
    R = Result()
    base = B.base()
    shutil.rmtree(WORK, ignore_errors=True)
    rnd = 0
    while rnd < cfg['rounds'] and (rnd == 0 or time.time() < t_end):
        rs = seed * 1000003 + rnd
        d = os.path.join(WORK, 'r%d' % rnd)
        os.makedirs(d)
        def make(w):
            wd = os.path.join(d, 'w%d' % w)
            ed = '2018' if (w + rnd) % 2 else '2015'
            if not cfg['grams']: return B.build_runner(base, wd, [], ed, empty=True), [], ed
            ill = w in cfg.get('ill_workers', ())
            ls = B.gen_grams(base, rs * 64 + int(prop[1:]), w * 1000, cfg['ill_grams'] if ill else cfg['grams'], ill, prop)
            return B.build_runner(base, wd, ls, ed), ls, ed
        with ThreadPoolExecutor(JOBS) as ex: rr = list(ex.map(make, range(JOBS)))
        acc = 0
        for w, (r, ls, ed) in enumerate(rr):
            ill = w in cfg.get('ill_workers', ())
            g = R.grams if not ill else R.__dict__.setdefault('ill', {'generated': 0, 'accepted and run': 0, 'refused by the macro': 0, 'accepted but not compilable': 0})
            g['generated'] += len(ls); g['accepted and run'] += len(r.grams)
            g['refused by the macro'] += len(r.rejected)
            dep = [i for i, m in r.uncompilable.items() if all('`super::g' in x[1] for x in m)]
            g['accepted but not compilable'] += len(r.uncompilable) - len(dep)
            if not ill:
                g['dropped because they call a dropped one'] += len(ls) - len(r.grams) - len(r.rejected) - len(r.uncompilable) + len(dep)
                acc += len(r.grams)
            R.rules += sum(l.count('(r r') for l in r.grams)
            if not ill and not R.found:
                for kind, why in ((NO_CODE, no_code(r)), (REFUSED, refused(r, prop))):
                    if prop in NEED[kind]:
                        for i in sorted(why):
                            R.found.append(macro_found(prop, kind, rs, ls, i, why[i], ed)); break
        if cfg['grams'] and acc == 0: raise B.HarnessError('no generated grammar was accepted')
        def go(w):
            r, ls, ed = rr[w]
            if not r.exe: return None
            return worker(r.exe, prop, rs, w, cfg['runs'], cfg['secs'], os.path.join(d, 'w%d' % w), None)
        with ThreadPoolExecutor(JOBS) as ex: outs = list(ex.map(go, range(JOBS)))
        cands, crashed = {}, {}
        for w, o in enumerate(outs):
            if o is None: continue
            for k, n in o['stat'].items(): R.stats[k] = R.stats.get(k, 0) + n
            for k, n in o['other'].items(): R.other[k] = R.other.get(k, 0) + n
            R.samples += o['sample'][:2]
            R.run_s += o['end'][1]
            for f in o['found']: cands.setdefault(f[0], []).append((w, f))
            for kind, idx, err in o['crash']:
                R.crashes[kind] = R.crashes.get(kind, 0) + 1
                if kind != 'std abort': crashed.setdefault(kind, []).append((w, idx, err))
        # What was found has to fail again in fresh processes.
        for kind, cs in cands.items():
            if kind in [f.kind for f in R.found]: continue
            done = False
            for w, f in cs[:4]:
                s = settle(rr[w][0].exe, prop, kind, [f[2], f[3]], os.path.join(d, 'w%d' % w), rs, w, f[4], rr[w][2])
                if s: R.found.append(s); done = True; break
            if not done: R.lost.append('%s: %s (worker %d, run %d)' % (kind, cs[0][1][1], cs[0][0], cs[0][1][4]))
        for kind, cs in crashed.items():
            if kind in [f.kind for f in R.found]: continue
            seen = False
            for w, idx, err in cs[:4]:
                wd = os.path.join(d, 'w%d' % w)
                last = os.path.join(wd, 'last.sx')
                if os.path.exists(last): os.remove(last)
                exe = rr[w][0].exe
                run([exe, '--prop', prop, '--seed', str(rs), '--worker', str(w), '--runs', str(idx + 1), '--start', str(idx), '--secs', '60', '--out', os.path.join(wd, 'lo'), '--last', last], 90)
                rep = open(last).read() if os.path.exists(last) else ''
                if rep and crash_prop(kind, rep) != prop:
                    k = '%s %s' % (crash_prop(kind, rep), kind)
                    R.other[k] = R.other.get(k, 0) + 1; seen = True; continue
                s = settle(exe, prop, kind, [rep] if rep else [], wd, rs, w, idx, rr[w][2])
                if s:
                    if not rep or '(minimised 0)' in s.replay:
                        m, tried = minimise_fresh(exe, prop, s.replay, s.kind, wd)
                        r = reproduces(exe, prop, m, s.kind, wd, 2)
                        if r: s = Found(r[0], r[1], head(only_needed(m), prop, r[0], r[1], rs, tried, rr[w][2]))
                    R.found.append(s); seen = True; break
            if not seen:
                k = 'ends the process: %s' % kind
                R.notes.append('%s, worker %d, run %d; not in a process of its own: %s' % (k, cs[0][0], cs[0][1], cs[0][2]))
                R.lost.append(R.notes[-1])
        # The runners of this round are not needed any more.
        shutil.rmtree(d, ignore_errors=True)
        rnd += 1
        if R.found: break
    R.rounds = rnd
    return R

def grams_of(replay):
    """The grammar s-expressions inside a replay text."""
    i = replay.index('(grams')
    out, depth, j, start, instr = [], 0, i, None, False
    while j < len(replay):
        c = replay[j]
        if instr:
            if c == '\\': j += 1
            elif c == '"': instr = False
        elif c == '"': instr = True
        elif c == '(':
            depth += 1
            if depth == 2: start = j
        elif c == ')':
            if depth == 2: out.append(replay[start:j + 1])
            depth -= 1
            if depth == 0: break
        j += 1
    return out

def replay_runner(base, replay, d):
    ls = grams_of(replay)
    m = re.search(r'\(edition (\d+)\)', replay)
    return B.build_runner(base, d, ls, m.group(1) if m else '2018', empty=not ls)

def field(replay, k):
    m = re.search(r'\(%s ("((?:[^"\\]|\\.)*)"|[^\s()]+)\)' % k, replay)
    if not m: return ''
    return m.group(2) if m.group(2) is not None else m.group(1)

# The properties that speak about the parser of every grammar that is well-formed and well-typed.
NO_CODE = 'an accepted grammar has no parser'
REFUSED = 'a well-formed grammar is refused'
NEED = {NO_CODE: ('C01', 'C03'), REFUSED: ('C01', 'C03', 'C06')}
# What the macro says about grammars that loop, or parts of which are of no use.
LOOPS = ('Left-recursion', 'Infinite loop', 'never succeed', 'always succeed', 'Unreachable', 'the compiler crashed', 'the compiler did not end')

def no_code(r):
    """The grammars which the macro accepts with code that rustc refuses."""
    return {i: m for i, m in r.uncompilable.items() if not any('`super::g' in x[1] or x[0] in ('crash', 'large') for x in m)}

def refused(r, prop):
    """The grammars which the macro refuses, or on which it fails; all that are generated are well-formed and well-typed."""
    out = dict(r.rejected)
    out.update({i: m for i, m in r.uncompilable.items() if any(x[0] == 'crash' for x in m)})
    return {i: m for i, m in out.items() if prop != 'C06' or any(any(k in x[1] for k in LOOPS) for x in m)}

def macro_found(prop, kind, seed, lines, i, ms, ed):
    gs = {B.gram_id(l): l for l in lines}
    use = {i}
    while True:
        more = set(x for g in use for x in B.gram_exts(gs[g])) | use
        if more == use: break
        use = more
    say = '; '.join(m if c in (None, 'crash') else '%s %s' % (c, m) for c, m in ms[:3])
    msg = ('the code that the macro produces for grammar %d is refused: %s' if kind == NO_CODE else 'grammar %d is well-formed and well-typed: %s') % (i, say.replace('\n', ' '))
    return Found(kind, msg, '(replay (prop %s) (kind %s) (message %s) (seed %s) (minimised 0) (grams %s) (edition %s))' % (prop, quote(kind), quote(msg), seed, ' '.join(gs[g] for g in sorted(use)), ed))

def confirm(base, prop, f, d):
    """Does the replay file fail the same way, every time, in a runner built from it? The kind shown if it is another one."""
    txt = open(f).read()
    r = replay_runner(base, txt, d)
    want = field(txt, 'kind')
    if want in NEED:
        bad = no_code(r) if want == NO_CODE else refused(r, prop)
        return (True, want, field(txt, 'message')) if bad else (False, 'its grammars are accepted and compile', '')
    if not r.exe: return False, 'its grammars are not accepted', ''
    x = reproduces(r.exe, prop, txt, want, d)
    return (True, x[0], x[1]) if x else (False, 'it does not fail', '')
