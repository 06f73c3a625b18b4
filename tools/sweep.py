import subprocess,sys,json,collections,hashlib
from concurrent.futures import ThreadPoolExecutor
import os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import build
import shutil,tempfile,atexit
exe,_=build.build()
tmp=tempfile.mkdtemp(); atexit.register(shutil.rmtree,tmp)
exe=shutil.copy(exe,tmp) # other builds may push this one out of the cache
# sweep.py SEED COUNT [props]   sweeps the base range of VERIF_SEED for each property's own profile
seed0=int(sys.argv[1]); count=int(sys.argv[2])
P=(sys.argv[3] if len(sys.argv)>3 else "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C17,C18,C19,C19cold,C21,mix").split(',')
def base(p): return (int(hashlib.sha256(("%d %s" % (seed0, p)).encode()).hexdigest()[:8], 16) % 4000000) * 1000000 + 1
tasks=[(p,base(p)+i,min(500,count)) for i in range(0,count,500) for p in P]
def one(t):
    p,first,n=t; seed=first; end=first+n; bad=[]
    while seed<end:
        pr=subprocess.run([exe,'batch',p,str(seed),'1',str(end-seed),'600'],capture_output=True,text=True,timeout=900)
        last=seed-1; done=False
        for l in pr.stdout.splitlines():
            if l.startswith('B '): last=int(l[2:]); done=False
            elif l.startswith('{'):
                d=json.loads(l); done=True
                for x in d.get('viol') or []: bad.append((p,d['seed'],x['prop'],x['kind'],x['msg'][:300]))
        if not done: bad.append((p,last,pr.returncode,pr.stderr[:300]))
        seed=last+1
        if len(bad)>5: break
    return bad
n=0
with ThreadPoolExecutor(8) as ex:
    for b in ex.map(one,tasks):
        for x in b:
            n+=1
            if n<40: print(x,flush=True)
print('done',len(tasks),n)
