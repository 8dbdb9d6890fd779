#!/usr/bin/env python3
"""labrun.py specs lab id[:prop]...: apply the edits in the lab's repo and run the property's check there"""
import sys,os,importlib,subprocess,time
sys.path.insert(0,'/tmp/seed'); S=importlib.import_module(sys.argv[1]); lab=sys.argv[2]
R=lab+'/repo'; want=sys.argv[3:]
sh=lambda c,**k: subprocess.run(c,shell=True,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
for w in want or [b['id'] for b in S.BUGS]:
    i,_,p=w.partition(':'); b=[x for x in S.BUGS if x['id']==i][0]; p=p or b['prop']
    sh('git -C %s checkout -q -- .'%R); bad=None
    for f,old,new in b['edits']:
        q=os.path.join(R,f); t=open(q).read()
        if t.count(old)!=1: bad='matches %d: %s'%(t.count(old),old); break
        open(q,'w').write(t.replace(old,new))
    if bad: print(i,'EDIT',bad,flush=True); continue
    t=time.time()
    r=sh('cd %s/verif && OAK_REPO=%s VERIF_SEED=%s nice -n 15 python3 check.py %s'%(lab,R,os.environ.get('SEED','1'),p))
    open('/tmp/seed/lab-%s.log'%i,'w').write(r.stdout)
    print(i,p,'rc=%d'%r.returncode,'%ds'%(time.time()-t),' | '.join(x[:150] for x in r.stdout.splitlines() if not x.startswith('VIOLATION'))[-330:],flush=True)
sh('git -C %s checkout -q -- .'%R)
