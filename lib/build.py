"""Builds the simulator against /repo's working tree, and runners: one executable for each batch of grammars."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OAK_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')

class HarnessError(Exception):
    pass

def env(hash_seed=None):
    e = dict(os.environ)
    e.update({
        'RUSTUP_TOOLCHAIN': '1.80.0', 'RUSTC_BOOTSTRAP': '1', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never',
        'CARGO_INCREMENTAL': '0', 'CARGO_PROFILE_DEV_DEBUG': '0', 'RUST_BACKTRACE': '0', 'TERM': 'xterm', 'LANG': 'C.UTF-8',
        'HOME': '/root', 'PATH': '/root/.cargo/bin:' + os.environ.get('PATH', '/usr/bin:/bin'),
        'RUSTC_WRAPPER': os.path.join(VERIF, 'tools', 'rustc_wrap.sh'), 'CARGO_TARGET_DIR': TARGET,
    })
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'): e.pop(k, None)
    return e

def repo_state():
    """A hash of every source file of the repository that the build reads."""
    h = hashlib.sha256()
    for base in ('src', 'runtime/src'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, 'rb').read())
    for f in ('Cargo.toml', 'runtime/Cargo.toml'): h.update(open(os.path.join(REPO, f), 'rb').read())
    return h.hexdigest()[:16]

class Base:
    pass

def base():
    """Builds oak, its runtime and the simulator; returns where the artefacts are."""
    os.makedirs(TARGET, exist_ok=True)
    # Cargo looks at modification times only: a changed tree whose files carry old times has to be rebuilt too.
    state, mark = repo_state(), os.path.join(TARGET, 'repo_state')
    if not os.path.exists(mark) or open(mark).read() != state:
        for p in ('oak', 'oak_runtime'):
            subprocess.run(['cargo', 'clean', '--offline', '--locked', '-p', p], cwd=os.path.join(VERIF, 'sim'), env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(mark): os.remove(mark)
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--message-format=json', '--manifest-path', os.path.join(VERIF, 'sim', 'Cargo.toml')],
                       env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        msgs = [json.loads(l).get('message', {}).get('rendered', '') for l in r.stdout.split('\n') if l.startswith('{"reason":"compiler-message"')]
        raise HarnessError('cargo build failed\n' + '\n'.join(m for m in msgs if m and m.startswith('error')) + r.stderr[-3000:])
    b = Base()
    arts = {}
    for l in r.stdout.split('\n'):
        if not l.startswith('{'): continue
        j = json.loads(l)
        if j.get('reason') == 'compiler-artifact':
            for f in j['filenames']:
                n = j['target']['name']
                if f.endswith('.so') or f.endswith('.rlib') or j.get('executable') == f: arts[n] = f
    b.oak, b.rt, b.sim, b.gen = arts['oak'], arts['oak_runtime'], arts['oaksim'], arts['gen']
    open(mark, 'w').write(state)
    b.state = state
    return b

SANCOV = ['-Cpasses=sancov-module', '-Cllvm-args=-sanitizer-coverage-level=3', '-Cllvm-args=-sanitizer-coverage-trace-pc-guard']

def rustc(b, args, timeout=None, extra_env=None, cwd=None):
    cmd = ['rustc', '-L', 'dependency=' + os.path.join(TARGET, 'debug', 'deps'),
           '--extern', 'oak=' + b.oak, '--extern', 'oak_runtime=' + b.rt, '--extern', 'oaksim=' + b.sim] + args
    e = env()
    if extra_env: e.update(extra_env)
    # A macro that does not end must not take all memory.
    return subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                          preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))

MAIN = '''#![feature(alloc_error_hook)]
#![allow(warnings)]
extern crate oak;
extern crate oak_runtime;
extern crate oaksim;
%(mods)s
#[global_allocator]
static SIM_ALLOC: oaksim::alloc::SimAlloc = oaksim::alloc::SimAlloc;
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize { oaksim::hash_bytes(buf, len) }
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 { oaksim::seam::syscall(n, [a, b, c, d, e, f]) }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 { oaksim::seam::clock_gettime(id, ts) }
fn main() {
    std::alloc::set_alloc_error_hook(|_| oaksim::alloc::alloc_failed());
    let mut table = oaksim::run::Table::new();
%(ins)s
    oaksim::driver::main(include_str!("grams.txt"), table);
}
'''

def gram_id(line):
    return int(re.match(r'\(gram (\d+)', line).group(1))

def gram_exts(line):
    return set(int(x) for x in re.findall(r'\(ext (\d+) ', line))

def bad_files(stderr):
    """gN of the modules that the errors point at, with the messages."""
    out = {}
    for l in stderr.decode('utf8', 'replace').split('\n'):
        if not l.startswith('{'): continue
        j = json.loads(l)
        if j.get('level') not in ('error', 'error: internal compiler error'): continue
        ids = set()
        def spans(s):
            m = re.match(r'.*\bg(\d+)\.rs$', s.get('file_name', ''))
            if m: ids.add(int(m.group(1)))
            if s.get('expansion'): spans(s['expansion']['span'])
        for s in j.get('spans', []): spans(s)
        for c in j.get('children', []):
            for s in c.get('spans', []): spans(s)
        code = (j.get('code') or {}).get('code')
        for i in ids: out.setdefault(i, []).append((code, j.get('message', '')))
    return out

class Runner:
    """A built runner, the grammars it holds, and what became of the others."""
    def __init__(self): self.exe = None; self.grams = []; self.rejected = {}; self.uncompilable = {}

def build_runner(b, d, lines, edition='2018', timeout=180, empty=False):
    """Compiles the grammars of `lines`, leaving out those that are rejected (and those which call them)."""
    os.makedirs(d, exist_ok=True)
    r = Runner()
    lines = [l for l in lines if l.strip()]
    for attempt in range(12):
        have = set(gram_id(l) for l in lines)
        while True:
            keep = [l for l in lines if gram_exts(l) <= have]
            h2 = set(gram_id(l) for l in keep)
            lines = keep
            if h2 == have: break
            have = h2
        if not lines and not empty: return r
        open(os.path.join(d, 'grams.txt'), 'w').write('\n'.join(lines) + '\n')
        subprocess.run([b.gen, 'modules', '--in', os.path.join(d, 'grams.txt'), '--dir', d], check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        ids = [gram_id(l) for l in lines]
        open(os.path.join(d, 'main.rs'), 'w').write(MAIN % {
            'mods': '\n'.join('mod g%d;' % i for i in ids), 'ins': '\n'.join('    table.insert(%d, g%d::table());' % (i, i) for i in ids)})
        exe = os.path.join(d, 'runner')
        args = ['--edition', edition, '--crate-name', 'runner', '-Cdebug-assertions=on', '-Coverflow-checks=on', '-Copt-level=0', '-Ccodegen-units=1', '--error-format=json',
                '-o', exe, os.path.join(d, 'main.rs')] + SANCOV
        try:
            p = rustc(b, args, timeout=timeout)
            bad = bad_files(p.stderr)
            if p.returncode == 0:
                r.exe, r.grams = exe, lines
                return r
        except subprocess.TimeoutExpired:
            bad = {}
        if not bad:
            # The compiler died or hangs: find out which grammars do that.
            bad = {}
            def alone(i):
                one = os.path.join(d, 'one%d.rs' % i)
                open(one, 'w').write('extern crate oak; extern crate oak_runtime; extern crate oaksim;\nmod g%d;\n%s' % (i, ''.join('mod g%d;\n' % x for x in gram_exts([l for l in lines if gram_id(l) == i][0]))))
                try:
                    q = rustc(b, ['--edition', edition, '--crate-type', 'lib', '--emit=metadata', '-o', os.path.join(d, 'one%d.rmeta' % i), one], timeout=30)
                    if q.returncode in (0, 1): return None
                except subprocess.TimeoutExpired: pass
                # Is it the macro, or what the compiler does with a large result?
                try: q = rustc(b, ['--edition', edition, '--crate-type', 'lib', '-Zunpretty=expanded', '-o', os.path.join(d, 'one%d.txt' % i), one], timeout=120)
                except subprocess.TimeoutExpired: return [('crash', 'the compiler did not end')]
                if q.returncode not in (0, 1): return [('crash', 'the compiler crashed (%d)' % q.returncode)]
                return [('large', 'what it expands to is too large to compile in time')]
            with ThreadPoolExecutor(3) as ex: bad = {i: m for i, m in zip(ids, ex.map(alone, ids)) if m}
            if not bad:
                raise HarnessError('runner does not compile:\n' + p.stderr.decode('utf8', 'replace')[-4000:])
        for i, ms in bad.items():
            # Errors of the macro itself have no code; errors in what it produced have one.
            (r.rejected if any(c is None for c, _ in ms) else r.uncompilable)[i] = ms
        lines = [l for l in lines if gram_id(l) not in bad]
    raise HarnessError('too many attempts to compile a runner')

def gen_grams(b, seed, first, n, ill=False, focus=''):
    p = subprocess.run([b.gen, 'grams', '--seed', str(seed), '--first', str(first), '--n', str(n)] + (['--ill'] if ill else []) + (['--focus', focus] if focus else []), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, check=True, text=True)
    return [l for l in p.stdout.split('\n') if l.strip()]
