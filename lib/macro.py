"""C11: the compiler process as the system under simulation. Its hash keys, clock, process number and heap layout are behind a seam
(tools/simproc.c), the grammars it expands, their order and their neighbours are drawn from the seed."""
import ctypes, difflib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import build as B
import explore as X

VERIF = B.VERIF
JOBS = 8

def shim():
    so = os.path.join(B.TARGET, 'simproc.so')
    src = os.path.join(VERIF, 'tools', 'simproc.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, src, '-ldl'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0: raise B.HarnessError('the process shim does not compile: ' + p.stdout.decode())
    return so

def fixed_layout():
    # Without address space randomisation the heap layout is the seed's.
    try: ctypes.CDLL(None).personality(0x0040000)
    except Exception: pass

# ---------------------------------------------------------------- grammars

FLAWS = ['dup rule', 'dup fn', 'unknown rule', 'branch types', 'unreachable', 'never', 'vain', 'left recursion', 'loop', 'unknown fn', 'items', 'functions', 'attribute', 'ascription', 'chain', 'typing']

def flaw(r, k, src):
    """Adds to a grammar's source something the macro has to report, or to carry over."""
    i = src.rindex('oak! {') + len('oak! {\n')
    head, body = src[:i], src[i:]
    j = body.rindex('}')
    body, tail = body[:j], body[j:]
    n = lambda: r.choice('abcdefgh') + ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(r.randrange(1, 9)))
    q = lambda: '"%s"' % r.choice('abcde')
    add = ''
    if k == 'dup rule': add = ''.join('    r%d = %s\n' % (r.randrange(2), q()) for _ in range(r.randrange(1, 4)))
    elif k == 'dup fn':
        x = [n() + '_f' for _ in range(r.randrange(1, 4))]
        add = ''.join('    fn %s() -> Tok { loop {} }\n' % y for y in x + r.sample(x, r.randrange(1, len(x) + 1)))
    elif k == 'unknown rule': add = ''.join('    %s_r = %s %s_u / %s_v\n' % (n(), q(), n(), n()) for _ in range(r.randrange(1, 5)))
    elif k == 'branch types': add = ''.join('    %s_r = ["a"] / %s ["b"] ["c"] / .*\n' % (n(), q()) for _ in range(r.randrange(1, 4)))
    elif k == 'unreachable': add = ''.join('    %s_r = %s? / %s\n' % (n(), q(), q()) for _ in range(r.randrange(1, 4)))
    elif k == 'never': add = ''.join('    %s_r = !"" %s\n' % (n(), q()) for _ in range(r.randrange(1, 4)))
    elif k == 'vain': add = ''.join('    %s_r = &"" %s\n' % (n(), q()) for _ in range(r.randrange(1, 4)))
    elif k == 'left recursion':
        x = [n() + '_l' for _ in range(r.randrange(1, 5))]
        add = ''.join('    %s = %s? %s %s\n' % (y, q(), x[(a + 1) % len(x)], q()) for a, y in enumerate(x))
    elif k == 'loop': add = ''.join('    %s_r = (%s?)%s\n' % (n(), q(), r.choice('*+')) for _ in range(r.randrange(1, 5)))
    elif k == 'unknown fn': add = ''.join('    %s_r = ["a"] > %s_g\n' % (n(), n()) for _ in range(r.randrange(1, 4)))
    elif k == 'items':
        add = ''.join(r.choice(['    pub struct S%s;\n', '    const C%s: u8 = 1;\n', '    pub enum E%s { A, B }\n', '    type T%s = u32;\n', '    mod m%s { }\n', '    static Z%s: u8 = 3;\n', '    pub trait I%s { fn f(&self); }\n']) % n() for _ in range(r.randrange(1, 6)))
    elif k == 'functions':
        x = [n() for _ in range(r.randrange(2, 9))]
        add = ''.join('    %sfn %s_w%d() -> u32 { %d }\n' % (r.choice(['', 'pub ']), y, a, a) for a, y in enumerate(x))
    elif k == 'attribute':
        return src[:i] + '    #![%s]\n' % n() + ('    #![%s]\n' % n() if r.random() < .5 else '') + src[i:]
    elif k == 'typing': return src[:i] + '    #![%s_typing]\n' % r.choice(['show', 'debug', 'debug']) + src[i:]
    elif k == 'ascription': add = ''.join('    %s_r: (u32) = %s\n' % (n(), q()) for _ in range(r.randrange(1, 3)))
    elif k == 'chain': add = ''.join('    %s_r = ((%s)%s)%s\n' % (n(), q(), r.choice('*+?'), r.choice('+?')) for _ in range(r.randrange(1, 4)))
    ls = add.splitlines(True)
    r.shuffle(ls)
    add = ''.join(ls)
    # At the front, at the end, or around what is there.
    c = r.randrange(3)
    if c == 0: body = add + body
    elif c == 1: body = body.rstrip() + '\n' + add
    else:
        h = len(ls) // 2
        body = ''.join(ls[:h]) + body.rstrip() + '\n' + ''.join(ls[h:])
    return head + body + tail

def sources(base, seed, n, d):
    """name -> module source"""
    r = random.Random('C11 sources %d' % seed)
    k = max(2, n // 5)
    lines = B.gen_grams(base, seed, 0, n - k) + B.gen_grams(base, seed + 7919, 1000, k, True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'in'), 'w').write('\n'.join(lines) + '\n')
    subprocess.run([base.gen, 'modules', '--in', os.path.join(d, 'in'), '--dir', d], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, check=True)
    out = {}
    for l in lines:
        i = B.gram_id(l)
        s = open(os.path.join(d, 'g%d.rs' % i)).read()
        s = s[:s.index('pub fn table()')]
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])): s = flaw(r, r.choice(FLAWS), s)
        out['g%d' % i] = s
    return out

# ---------------------------------------------------------------- executions

def execute(base, so, srcs, seed, order, d):
    """Expands the modules `order` (names, possibly with a suffix for a second copy) in one compiler process.
    Returns (what the macro made of each: (code, diagnostics), printed text), or a string if the process ended otherwise."""
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    # Copies stand further down in their files, and further to the right.
    down = {n: 0 if '_' not in n else (seed + sum(map(ord, n)) * 7) % 37 for n in order}
    right = {n: 0 if '_' not in n else (seed // 37 + sum(map(ord, n)) * 5) % 11 for n in order}
    for n in order: open(os.path.join(d, n + '.rs'), 'w').write('\n' * down[n] + re.sub(r'(?m)^(?=.)', ' ' * right[n], srcs[n.split('_')[0]]))
    open(os.path.join(d, 'main.rs'), 'w').write('extern crate oak; extern crate oak_runtime; extern crate oaksim;\n' + ''.join('pub const MARK_%s: u8 = 0;\nmod %s;\n' % (n, n) for n in order))
    e = B.env()
    e.update({'LD_PRELOAD': so, 'SIM_SEED': str(seed)})
    # The environment is the seed's as well.
    w = random.Random('C11 environment %d' % seed)
    for k, v in (('USER', ['root', 'build', 'x']), ('HOSTNAME', ['a', 'b.example.org']), ('LANG', ['C', 'fr_FR.UTF-8', 'tr_TR.UTF-8']), ('TZ', ['UTC', 'Asia/Tokyo']), ('TERM', ['dumb', 'xterm-256color']), ('COLUMNS', ['40', '200']), ('CI', ['true']),
                 ('CARGO_PKG_NAME', ['p', 'other']), ('CARGO_PKG_VERSION', ['0.1.0', '2.0.0']), ('CARGO_MANIFEST_DIR', ['/nowhere', '/nowhere/else']), ('OUT_DIR', ['/nowhere/out']), ('PROFILE', ['debug', 'release']), ('OPT_LEVEL', ['0', '3']), ('DEBUG', ['true', 'false']), ('CARGO_CFG_DEBUG_ASSERTIONS', [''])):
        e.pop(k, None)
        if w.random() < .5: e[k] = w.choice(v)
    cmd = ['rustc', '-L', 'dependency=' + os.path.join(B.TARGET, 'debug', 'deps'), '--extern', 'oak=' + base.oak, '--extern', 'oak_runtime=' + base.rt, '--extern', 'oaksim=' + base.sim,
           '--edition', '2018', '--crate-type', 'lib', '-Zunpretty=expanded', '--error-format=json', 'main.rs']
    try: p = subprocess.run(cmd, env=e, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=fixed_layout)
    except subprocess.TimeoutExpired: return 'does not end'
    finally: shutil.rmtree(d, ignore_errors=True)
    if p.returncode not in (0, 1): return 'ends with %d' % p.returncode
    out = p.stdout.decode('utf8', 'replace')
    i = out.find('#![feature(prelude_import)]')
    printed, out = (out[:i], out[i:]) if i >= 0 else (out, '')
    res = {n: ['', []] for n in order}
    parts = re.split(r'^pub const MARK_(\w+): u8 = 0;\n', out, flags=re.M)
    for n, c in zip(parts[1::2], parts[2::2]):
        if n in res: res[n][0] = re.sub(r'^mod %s \{' % n, 'mod it {', c, flags=re.M)
    for l in p.stderr.decode('utf8', 'replace').splitlines():
        if not l.startswith('{'): continue
        j = json.loads(l)
        # Only what the macro reports: the compiler's own findings carry a code, and depend on the neighbours by name.
        if j.get('code') or not j.get('spans'): continue
        def up(s): return down.get(s['file_name'][:-3], 0)
        def left(s): return right.get(s['file_name'][:-3], 0)
        def norm(x): return [x['level'], x['message'], [[re.sub(r'^(g\d+)_\w+\.rs$', r'\1.rs', s['file_name']), s['line_start'] - up(s), s['column_start'] - left(s), s['line_end'] - up(s), s['column_end'] - left(s), s['is_primary'], s['label']] for s in x['spans']], [norm(c) for c in x['children']]]
        f = None
        for s in j['spans']:
            m = re.match(r'(g\d+(_\w+)?)\.rs$', s['file_name'])
            if m: f = m.group(1); break
        if f in res: res[f][1].append(norm(j))
    return res, printed

def clash(a, b):
    """What differs between two expansions of one grammar."""
    if isinstance(a, str) or isinstance(b, str): return 'process', 'the compiler %s / %s' % (a if isinstance(a, str) else 'ends normally', b if isinstance(b, str) else 'ends normally')
    if a[0] != b[0]:
        d = [x for x in difflib.unified_diff(a[0].splitlines(), b[0].splitlines(), lineterm='', n=0) if not x.startswith(('---', '+++', '@@'))]
        return 'code', ' | '.join(x.strip() for x in d[:6])[:400]
    if a[1] != b[1]:
        return 'diagnostics', '%s / %s' % tuple(json.dumps([[m[0], m[1].split('\n')[0], m[2]] for m in x if m not in y] or [[m[0], m[1].split('\n')[0]] for m in x])[:300] for x, y in ((a[1], b[1]), (b[1], a[1])))
    return None

def get(x, n): return x if isinstance(x, str) else x[0][n]

def differs(base, so, case, d):
    """Runs the two executions of a case; what differs for its grammar."""
    a = execute(base, so, case['grammars'], case['first']['seed'], case['first']['order'], os.path.join(d, 'a'))
    b = execute(base, so, case['grammars'], case['second']['seed'], case['second']['order'], os.path.join(d, 'b'))
    if case['kind'] == 'printed': 
        if isinstance(a, str) or isinstance(b, str): return None
        return ('printed', 'text printed by the macro differs') if a[1] != b[1] else None
    return clash(get(a, case['first']['name']), get(b, case['second']['name']))

def minimise(base, so, case, d, secs=40):
    t0, tried = time.time(), 0
    def same(c):
        nonlocal tried
        tried += 1
        x = differs(base, so, c, d)
        return x is not None and x[0] == case['kind']
    cur = case
    go = True
    while go and time.time() - t0 < secs:
        go = False
        cands = []
        if cur['first']['seed'] != cur['second']['seed']:
            c = json.loads(json.dumps(cur)); c['second']['seed'] = c['first']['seed']; cands.append(c)
        for w in ('first', 'second'):
            o, nm = cur[w]['order'], cur[w]['name']
            rest = [x for x in o if x != nm]
            if not rest: continue
            for size in (len(rest), max(1, len(rest) // 2), 1):
                for i in range(0, len(rest), size):
                    drop = set(rest[i:i + size])
                    c = json.loads(json.dumps(cur)); c[w]['order'] = [x for x in o if x not in drop]; cands.append(c)
        # Fewer lines in the sources.
        if not cands or all(len(cur[w]['order']) <= 2 for w in ('first', 'second')):
            used = set(x.split('_')[0] for w in ('first', 'second') for x in cur[w]['order'])
            for g in sorted(used):
                ls = cur['grammars'][g].splitlines(True)
                s = next(i for i, l in enumerate(ls) if l.startswith('oak! {')) + 2
                for i in range(s, len(ls) - 1):
                    c = json.loads(json.dumps(cur)); c['grammars'][g] = ''.join(ls[:i] + ls[i + 1:]); cands.append(c)
        for c in cands:
            if time.time() - t0 > secs: break
            if same(c): cur, go = c, True; break
    used = set(x.split('_')[0] for w in ('first', 'second') for x in cur[w]['order'])
    cur['grammars'] = {g: s for g, s in cur['grammars'].items() if g in used}
    cur['minimised'] = tried
    return cur

# ---------------------------------------------------------------- the check

def plans(r, names, n):
    """Executions: (seed, order). Every grammar is expanded alone first, then in company."""
    out = [(r.randrange(1, 1 << 40), [g]) for g in names]
    for _ in range(n):
        k = r.choice([2, 2, 3, 5, 8, len(names), len(names)])
        o = r.sample(names, min(k, len(names)))
        if r.random() < .4: o += ['%s_%s' % (g, x) for x in 'xy'[:r.randrange(1, 3)] for g in r.sample(o, r.randrange(1, len(o) + 1))]
        if r.random() < .5: r.shuffle(o)
        out.append((r.randrange(1, 1 << 40), o))
        if r.random() < .5: out.append((r.randrange(1, 1 << 40), [r.choice(names)]))
    r.shuffle(out)
    return out

def check(tier, seed):
    t0 = time.time()
    base, so = B.base(), shim()
    W = os.path.join(B.TARGET, 'work', 'C11')
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    secs = 75 if tier == 'quick' else 1800
    st = {'compiler processes': 0, 'expansions': 0, 'expansions compared': 0, 'diagnostics compared': 0, 'expansions of rejected grammars': 0, 'grammars expanded again in the same process': 0, 'processes with another order or other neighbours': 0, 'hash seeds': 0, 'printed typings compared': 0}
    distinct, samples, rounds, grams = set(), [], 0, 0
    found, work = [], 0.0
    while (rounds == 0 or time.time() - t0 < secs) and not found and rounds < (5 if tier == 'quick' else 400):
        rs = seed * 100003 + rounds
        r = random.Random('C11 %d' % rs)
        srcs = sources(base, rs, 28, os.path.join(W, 'src'))
        names = sorted(srcs, key=lambda x: int(x[1:]))
        grams += len(names)
        ps = plans(r, names, 40)
        def go(i): 
            t = time.time()
            x = execute(base, so, srcs, ps[i][0], ps[i][1], os.path.join(W, 'e%d' % i))
            return x, time.time() - t
        with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(go, range(len(ps))))
        first, prints = {}, {}
        for i, ((sd, o), (x, dt)) in enumerate(zip(ps, res)):
            work += dt
            st['compiler processes'] += 1
            st['hash seeds'] += 1
            if len(o) > 1: st['processes with another order or other neighbours'] += 1
            distinct.add((rounds, tuple(o), sd))
            if len(samples) < 6 and i % 17 == 3: samples.append('process with seed %d expands %s' % (sd, ' '.join(o)))
            for n in o:
                g = n.split('_')[0]
                y = get(x, n)
                st['expansions'] += 1
                if n != g: st['grammars expanded again in the same process'] += 1
                if not isinstance(y, str) and any(m[0] == 'error' for m in y[1]): st['expansions of rejected grammars'] += 1
                if g not in first: first[g] = (y, i, n); continue
                if isinstance(y, str) and len(o) > 1: continue
                st['expansions compared'] += 1
                if not isinstance(y, str): st['diagnostics compared'] += len(y[1])
                f, fi, fn = first[g]
                if isinstance(f, str) and not isinstance(y, str) and len(ps[fi][1]) > 1: first[g] = (y, i, n); continue
                c = clash(f, y)
                if c and not any(z['kind'] == c[0] for z in found):
                    found.append({'prop': 'C11', 'kind': c[0], 'message': '%s: %s' % (n, c[1]), 'seed': rs, 'grammars': srcs,
                                  'first': {'seed': ps[fi][0], 'order': ps[fi][1], 'name': fn}, 'second': {'seed': sd, 'order': o, 'name': n}})
            if len(o) == 1 and not isinstance(x, str):
                if o[0] in prints:
                    pi, pt = prints[o[0]]
                    if pt: st['printed typings compared'] += 1
                    if pt != x[1] and not any(z['kind'] == 'printed' for z in found):
                        found.append({'prop': 'C11', 'kind': 'printed', 'message': '%s: the typing is printed differently' % o[0], 'seed': rs, 'grammars': srcs,
                                      'first': {'seed': ps[pi][0], 'order': ps[pi][1], 'name': o[0]}, 'second': {'seed': sd, 'order': o, 'name': o[0]}})
                else: prints[o[0]] = (i, x[1])
        rounds += 1
    import check as C
    cov = {
        'evaluations': st['compiler processes'], 'distinct_nontrivial': len(distinct),
        'rule': 'A case is one real compiler process that expands some grammars (generated, most of them well-formed, others spoilt in one or several ways so that they are rejected or warned about), in an order and with neighbours drawn from the seed, under a simulated surrounding (keys of hash maps, wall clock, process number, heap layout). It is distinct when its grammars, order or seed are new; all of them count as non-trivial because each expansion is compared with another execution of the same grammar.',
        'samples': samples, 'rounds': rounds, 'runs_per_worker_hour': int(st['compiler processes'] / max(work, 1e-9) * 3600), 'observed': st, 'grammars': grams,
        'faults_injected': {'rejected neighbours (the macro panics in the same process)': st['expansions of rejected grammars'], 'hash seeds, clocks, process numbers, heap layouts': st['hash seeds'], 'reordered or added neighbours': st['processes with another order or other neighbours']},
        'distinct_interleavings_or_states': 'distinct (order, neighbours, seed): %d' % len(distinct),
        'real_components': 'rustc 1.80, the oak macro', 'stubs': 'getrandom, clock_gettime(CLOCK_REALTIME), getpid, heap layout: tools/simproc.c',
        'simulated_time_units': 0,
    }
    C.evidence('C11', tier, seed, cov, t0)
    bad = 0
    os.makedirs(C.REPLAYS, exist_ok=True)
    for f in found:
        m = minimise(base, so, f, os.path.join(W, 'min'))
        x = [differs(base, so, m, os.path.join(W, 'conf')) for _ in range(2)]
        name = os.path.join(C.REPLAYS, 'C11-%s-%d.json' % (f['kind'], seed))
        if x[0]: m['message'] = x[0][1]
        json.dump(m, open(name, 'w'), indent=1)
        print('C11: %s: %s' % (f['kind'], m['message']))
        if x[0] is None or x[0] != x[1]: raise B.HarnessError('the difference did not reproduce from %s: %s' % (name, x))
        print('VIOLATION property=C11 replay=%s' % os.path.relpath(name, VERIF))
        bad += 1
    shutil.rmtree(W, ignore_errors=True)
    print('C11: %d compiler processes, %d expansions compared, %.0f s: %s' % (st['compiler processes'], st['expansions compared'], time.time() - t0, 'violated' if bad else 'held'))
    return 1 if bad else 0

def replay(f):
    base, so = B.base(), shim()
    c = json.load(open(f))
    x = differs(base, so, c, os.path.join(B.TARGET, 'work', 'C11r'))
    print('first: seed %d, %s; second: seed %d, %s' % (c['first']['seed'], c['first']['order'], c['second']['seed'], c['second']['order']))
    if x and x[0] == c['kind']:
        print('%s: %s' % x)
        print('VIOLATION property=C11 replay=%s' % f)
        return 1
    print('no difference: %s' % (x,))
    return 0
