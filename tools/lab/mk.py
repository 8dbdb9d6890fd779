#!/usr/bin/env python3
"""mk.py [ids...]: writes /verif/seeded/<id> from specs.py, verifies, records the result in /tmp/seed/ok.json"""
import sys, os, json, subprocess, shutil
sys.path.insert(0,'/tmp/seed')
import importlib; specs=importlib.import_module(os.environ.get("SPECS","specs3"))
R='/repo'
DEMO='''#!/bin/bash
# Builds demo.rs against the oak and oak_runtime of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo-%(id)s"
version = "0.1.0"
edition = "2015"
[workspace]
[dependencies]
oak = { path = "$repo" }
oak_runtime = { path = "$repo/runtime" }
syntex_pos = "0.58"
EOF
cd "$d" || exit 2
%(body)s
'''
BODY='''cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo-%(id)s"'''
def sh(c, **k): return subprocess.run(c, stdin=subprocess.DEVNULL, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
base=json.load(open('/opt/vp/BASELINE.json'))
def stable():
    return set(base['stable'])
ids=sys.argv[1:] or [b['id'] for b in specs.BUGS]
okf='/tmp/seed/ok.json'
ok=json.load(open(okf)) if os.path.exists(okf) else {}
for b in specs.BUGS:
    if b['id'] not in ids: continue
    clean(); bad=None
    for f,old,new in b['edits']:
        p=os.path.join(R,f); t=open(p).read()
        if t.count(old)!=1: bad='edit matches %d times: %s'%(t.count(old),old); break
        open(p,'w').write(t.replace(old,new))
    d='/verif/seeded/'+b['id']
    if not bad:
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
        open(d+'/demo.sh','w').write(DEMO%{'id':b['id'],'body':(b.get('body') or BODY)%{'id':b['id']}}); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.rs','w').write(b['demo'])
        for n,c in b.get('files',{}).items(): open(d+'/'+n,'w').write(c)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: bad='does not build: '+r.stdout[-1500:]
    if not bad:
        sh('bash /opt/vp/test.sh /tmp/seed/x.json')
        x=json.load(open('/tmp/seed/x.json'))
        ps=set(x.get('passed',[]))
        miss=stable()-ps
        if miss: bad='tests fail: %s'%sorted(miss)[:6]
    if not bad:
        r=sh('bash %s/demo.sh'%d, cwd='/repo')
        if r.returncode==0: bad='demo does not fail with the patch'
        elif r.returncode==3 and not b.get('compile'): bad='demo does not compile with the patch: '+r.stdout[-1500:]
        dm=r.stdout[-300:]
    clean()
    if not bad:
        r=sh('bash %s/demo.sh'%d, cwd='/repo')
        if r.returncode: bad='demo fails on the clean tree: '+r.stdout[-1500:]
    if bad and not b.get('keep'): shutil.rmtree(d,ignore_errors=True)
    ok[b['id']]=bad or 'ok'
    print(b['id'], b['prop'], bad or 'OK: '+dm.strip().replace('\n',' | ')[:200], flush=True)
    json.dump(ok,open(okf,'w'),indent=1)
clean()
