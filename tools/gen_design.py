#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, properties.jsonl, the harness heads, tools/notes.json,
known_findings.txt and seeded/."""
import json,os,re,glob
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
notes=json.load(open(root+'/tools/notes.json')); na=json.load(open(root+'/tools/na.json'))
fixed={}; known={}
for l in open(root+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fixed.setdefault(m[1],[]).append(f'{m[3]} (`{m[2]}`)')
    m=re.match(r'finding: property=(\S+) .*:: (.*)',l)
    if m: known.setdefault(m[1],[]).append(m[2])
seeded={}
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d)); seeded.setdefault(m['property'],[]).append(os.path.basename(os.path.dirname(d)))
out=open(root+'/tools/design_head.md').read().rstrip()+'\n'
for p in props:
    i=p['id']; out+=f'\n### {i} {p["title"]}\n'
    h=f'{root}/harness/{i}.cc'
    if i in na or not os.path.exists(h): out+=f'Not applicable: {na.get(i,"no check")}\n'; continue
    s=open(h).read()
    out+='* Code: '+', '.join(f'`{f}`' for f in p['anchors']['files'])+'\n'
    e=[('T:' if t else '')+n[len(i)+1:] for t,n in re.findall(r'^VP_ENTRY(_T)?\((\w+)\)',s,re.M)]
    if len(e)>24: e=e[:24]+[f'and {len(e)-24} more']
    out+='* Entries: '+', '.join(e)+'\n'
    for k,t in (('BOUND','Bounds'),('ASSUME','Assumes')):
        for b in re.findall(rf'^// {k}: (.*)',s,re.M): out+=f'* {t}: {b}\n'
    for n in notes.get(i,[]): out+=f'* Note: {n}\n'
    for n in known.get(i,[]): out+=f'* Known finding: {n}\n'
    for n in fixed.get(i,[]): out+=f'* Defect found and fixed: {n}\n'
    if i in seeded: out+='* Planted bugs caught: '+', '.join(seeded[i])+'\n'
open(root+'/DESIGN.md','w').write(out)
