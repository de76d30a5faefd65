#!/usr/bin/env python3
"""buglist.py SPEC.py [name...]: applies each one-edit bug of SPEC (list B of
(name, property, file, old, new)) to a scratch copy of /repo and reports whether
the quick check of the property notices."""
import sys,os,subprocess,shutil,runpy,time
V=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
B=runpy.run_path(sys.argv[1])['B']; want=sys.argv[2:]
W=f'/tmp/bl_{os.getpid()}'; base=os.environ.get('VP_BASE','/repo'); shutil.rmtree(W,ignore_errors=True); subprocess.run(f'cp -a {base} {W}',shell=True)
for n,p,f,o,nw in B:
    if want and n not in want and p not in want: continue
    path=W+'/'+f; s=open(path).read(); orig=s
    if s.count(o)!=1: print('BAD',n,'matches',s.count(o)); continue
    open(path,'w').write(s.replace(o,nw)); t=time.time()
    c=subprocess.run(f'python3 {V}/check.py {p} quick',shell=True,cwd=V,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,VP_REPO=W,VP_FAILFAST='1'))
    open(path,'w').write(orig)
    ok=c.returncode==1 and f'VIOLATION property={p}' in c.stdout
    print('CAUGHT' if ok else 'MISS rc=%d'%c.returncode,n,p,'%.0fs'%(time.time()-t),flush=True)
    if not ok: print('\n'.join('     '+l[:300] for l in c.stdout.splitlines()[-4:]),flush=True)
shutil.rmtree(W)
