#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property with a harness is claimed, any other
needs a reason in NA (tools/na.json)."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
na=json.load(open(os.path.join(root,'tools/na.json')))
checks=[];out=[]
for p in props:
    i=p['id']; h=os.path.join(root,'harness',i+'.cc')
    if os.path.exists(h) and i not in na:
        bounds=[l[len('// BOUND:'):].strip() for l in open(h) if l.startswith('// BOUND:')]
        checks.append(dict(property=i,quick_cmd=f'python3 check.py {i} quick',thorough_cmd=f'python3 check.py {i} thorough',
          technique='symbolic execution of the real code (LLVM IR) with SMT/SAT solving',level='other',
          level_note='Bounded: every path of the harness entries is executed symbolically and each assertion is decided by a solver for all values within: '+'; '.join(bounds)+'. Undecided obligations are listed in the evidence and never counted as held.'))
    else: out.append(dict(property=i,reason=na.get(i,'No check built yet for this property.')))
m=dict(version=1,setup_cmd='make -s -j8 -C engine',
 hooks=dict(guard='INK_VERIFY_MAX_VERTICES_PER_PARTITION',enable='the M10 harness compiles the sources of /repo with -DINK_VERIFY_MAX_VERTICES_PER_PARTITION=4',source_commits=['6b6a287f4ff145e8775c9adfd494b83956a3cd02']),
 checks=checks,not_applicable=out,
 notes='The engine in engine/ executes LLVM IR regenerated from /repo on every run; shim/ holds minimal stand-ins for the Abseil headers.')
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks',len(out),'n/a')
