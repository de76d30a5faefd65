#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: materialises planted bugs under seeded/ and confirms
them in a scratch copy (demo passes on the clean tree, fails with the patch; the
check of the property reports it or not).  SPEC defines B = [dict(id, prop,
edits=[(file, old, new)], srcs, demo, needs, breaks)]."""
import sys, os, subprocess, shutil, json, runpy
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); V=os.path.abspath(V)
SH=r'''#!/bin/bash
# Builds demo.cc against the sources in the current directory (/repo) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
OBJ=()
for f in "$D/demo.cc" %s; do
  o="$T/$(echo "$f" | tr '/' '_').o"
  g++ -std=c++20 -O1 -w -ffunction-sections -fdata-sections %s -I "$D/shim" -I . -c "$f" -o "$o" &
  OBJ+=("$o")
  while [ "$(jobs -rp | wc -l)" -ge 8 ]; do wait -n; done
done
wait
g++ -Wl,--gc-sections "${OBJ[@]}" -o "$T/demo" -l:libabsl_throw_delegate.a -l:libabsl_raw_logging_internal.a -l:libabsl_log_severity.a -ldl -lm || exit 2
timeout 120 "$T/demo"
'''
PRE=r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <vector>
#include <string>
#include "vp.h"
extern "C" void __vp_check_failed(const char* w) { printf("CHECK failed: %s\n", w); fflush(stdout); _Exit(3); }
extern "C" void __vp_assert(bool, const char*) {}
#define REQ(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
'''
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
spec=runpy.run_path(sys.argv[1])['B']; want=sys.argv[2:]
res={}
for b in spec:
    if want and b['id'] not in want: continue
    d=f"{V}/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
    if isinstance(b['srcs'],str): b['srcs']=[w for l in open(f"{V}/harness/{b['srcs']}.cc") if l.startswith('// SRC:') for w in l.split()[2:]]
    if os.path.isdir(d+'/shim'): shutil.rmtree(d+'/shim')
    shutil.copytree(V+'/shim',d+'/shim')
    open(d+'/demo.sh','w').write(SH%(' '.join(b['srcs']),b.get('flags',''))); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cc','w').write(PRE+b['demo'])
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    W=f"/tmp/plant_{os.getpid()}"; shutil.rmtree(W,ignore_errors=True); run(f'cp -a /repo {W}')
    r0=run(f'bash {d}/demo.sh',cwd=W)
    ok=True
    for f,o,n in b['edits']:
        p=W+'/'+f; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'edit matches',s.count(o),'times in',f); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: shutil.rmtree(W); continue
    df=run('git diff',cwd=W).stdout; open(d+'/patch.diff','w').write(df)
    r1=run(f'bash {d}/demo.sh',cwd=W)
    c=run(f"python3 {V}/check.py {b['prop']} quick",cwd=V,env=dict(os.environ,VP_REPO=W))
    caught=c.returncode==1 and f"VIOLATION property={b['prop']}" in c.stdout
    shutil.rmtree(W)
    print(b['id'],'demo clean',r0.returncode,'patched',r1.returncode,'CAUGHT' if caught else 'MISSED rc=%d'%c.returncode, flush=True)
    if r0.returncode!=0: print(r0.stdout[-1500:])
    if r1.returncode in(0,2): print('   patched demo:',r1.stdout[-1500:])
    if not caught: print(c.stdout[-1500:])
