#!/usr/bin/env python3
# Writes DESIGN.md: prose below, bounds from units.py, costs from the last evidence, planted bugs from seeded/.
import json, os, sys, glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V); sys.dont_write_bytecode=True
from units import UNITS
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
HEAD=open(f'{V}/tools/design_head.md').read(); TAIL=open(f'{V}/tools/design_tail.md').read()
ORACLE=json.load(open(f'{V}/tools/design_oracles.json'))
out=[HEAD,'\n## Per property\n\nQuick bounds and thorough bounds are the `vp_cfg` values of each unit; the text says what they mean. Cost is the wall time of the last quick run on this 8-core machine (a fresh engine build of about 8 s included when it was needed).\n']
for p in props:
    i=p['id']; out.append(f"\n### {i} {p['title']}\n")
    out.append(ORACLE.get(i,'')+'\n')
    for u in UNITS.get(i,[]):
        f=lambda d:','.join(f'{k}={v}' for k,v in d.items() if k!='time') or '-'
        extra=f" Threads mode, NTHREADS={u['nth']}." if u.get('mode')=='threads' and 'nth' in u else ''
        out.append(f"- `{u['name']}` (harness/{u['h']}{', '+'/'.join(u['defs']) if u['defs'] else ''}; quick {f(u['quick'])}; thorough {f(u['thorough'])}): {u.get('bounds','')}.{extra}")
    e=f'{V}/evidence/{i}.json'
    if os.path.exists(e):
        d=json.load(open(e)); c=d['coverage']
        if d['tier']=='quick': out.append(f"\nCost: {d['wall_s']:.0f} s, {c['paths']} paths, {c['solver_queries']} queries, {c['functions_encoded_count']} functions of spatialops encoded.")
out.append('\n'+TAIL)
rows=[]
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m)); rows.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d.get('caught','yes')} |")
out.append('\n| planted bug | property | what it breaks | what it needs | caught by the check of the property |\n|---|---|---|---|---|\n'+'\n'.join(rows)+'\n')
out.append(open(f'{V}/tools/design_rejected.md').read())
open(f'{V}/DESIGN.md','w').write('\n'.join(out))
