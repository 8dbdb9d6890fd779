import sys; sys.path.insert(0,'/verif/lib'); sys.dont_write_bytecode=True
import build as B, shutil
b=B.base()
from concurrent.futures import ThreadPoolExecutor
def go(w):
    ls=B.gen_grams(b,int(sys.argv[1]),w*1000,36,False,sys.argv[2] if len(sys.argv)>2 else '')
    d='/verif/target/rejw%s-%d'%(sys.argv[1],w)
    r=B.build_runner(b,d,ls,'2018' if int(sys.argv[1])%2 else '2015')
    out=[]
    for l in ls:
        i=B.gram_id(l)
        if i in r.rejected: out.append((i,r.rejected[i],l))
        if i in r.uncompilable: out.append((i,('UNC',r.uncompilable[i]),l))
    shutil.rmtree(d)
    return out
with ThreadPoolExecutor(8) as ex: rs=list(ex.map(go,range(8)))
for r in rs:
    for i,m,l in r:
        print('=====',i,m[:3]); print(l)
