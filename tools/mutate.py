#!/usr/bin/env python3
"""mutate.py PID N SEED [file...]: random first-order mutants of the files a
property is anchored in; reports which the quick check misses (for review)."""
import sys, os, re, json, random, subprocess, shutil
V=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
pid,n,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); files=sys.argv[4:]
if not files:
    for l in open(V+'/properties.jsonl'):
        d=json.loads(l)
        if d['id']==pid: files=d['anchors']['files']
W='/tmp/mut_'+pid; shutil.rmtree(W,ignore_errors=True); os.makedirs(W); subprocess.run(f'cp -a /repo/ink {W}/',shell=True)
OPS=[(r'(?<![<>=\-])<(?![<=])(?= )','<='),(r'<=','<'),(r'(?<![<>=\-])>(?![>=])(?= )','>='),(r'>=','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r'\+= ','-= '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bmin\(','max('),(r'\bmax\(','min('),(r'\.x\b','.y'),(r'\.y\b','.x'),(r'(?<![\w.])(\d)(?![\w.])',lambda m:str(int(m.group(1))+1)),(r'(?<![\w.])0\.5f','0.25f'),(r'(?<![\w.])1\.f|(?<![\w.])1\.0f','0.99f'),(r'^(\s*)if \((.*)\) (\{|return.*|continue;|break;)$',r'\1if (false && (\2)) \3'),(r'^(\s*)if \((.*)\) (\{|return.*|continue;|break;)$',r'\1if (true || (\2)) \3'),(r'^(\s+)(?!return|ABSL|break|continue|case|using|static|const|auto|float|int|bool|std::\w+<|\w+ \w+ =)([\w.\->\[\]()*]+( [+\-*]?= .*|\(.*\));)$',r'\1/* \2 */;'),(r'std::nullopt','{}'),(r'^(\s+)(break|continue);$',r'\1;'),(r' \? (.+) : (.+?)(;|,|\))$',r' ? \2 : \1\3'),(r'(\w+)\+\+|\+\+(\w+)',lambda m:(m.group(1) or m.group(2))),(r'!(?=\w)','')]
c=[]
for f in files:
    p=W+'/'+f
    if not os.path.exists(p): continue
    L=open(p).read().split('\n'); incheck=False
    for i,l in enumerate(L):
        s=l.strip()
        if incheck:
            if s.endswith(';'): incheck=False
            continue
        if s.startswith(('//','#','static_assert','ABSL_DCHECK','ABSL_CHECK','ABSL_LOG')) or 'DCHECK' in s or 'template' in s:
            if s.startswith('ABSL') and not s.endswith(';'): incheck=True
            continue
        if 'Error(' in s or '"' in s: continue
        code=l.split('//')[0]
        for k,(r,t) in enumerate(OPS):
            for m in re.finditer(r,code):
                new=code[:m.start()]+(m.expand(t) if isinstance(t,str) and '\\' in t else t(m) if callable(t) else t)+code[m.end():]
                if new!=code: c.append((f,i,code,new))
random.seed(seed); random.shuffle(c); print(pid,len(c),'candidates',flush=True); done=0; miss=0
env=dict(os.environ,VP_REPO=W,VP_FAILFAST='1',VP_NOEV='1')
for f,i,o,nw in c:
    if done>=n: break
    p=W+'/'+f; src=open(p).read(); L=src.split('\n'); L[i]=nw; open(p,'w').write('\n'.join(L))
    try: r=subprocess.run(['python3',V+'/check.py',pid,'quick'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,timeout=600); out,rc=r.stdout,r.returncode
    except subprocess.TimeoutExpired: out,rc='timeout',9
    open(p,'w').write(src)
    if 'VIOLATION' in out: done+=1; continue
    if 'BUILD-FAILED' in out: continue
    done+=1; miss+=1; part=[x for x in out.split('\n') if 'entries decided' in x or 'not reproduced' in x]
    print('  MISS rc=%d %s:%d\n     - %s\n     + %s\n     %s'%(rc,f,i+1,o.strip(),nw.strip(),(' / '.join(part))[:300]),flush=True)
print(pid,done,'mutants',miss,'missed',flush=True); shutil.rmtree(W)
