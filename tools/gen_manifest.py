#!/usr/bin/env python3
# Writes MANIFEST.json from units.py (claimed) and properties.jsonl (the rest goes under not_applicable).
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from units import UNITS, NA
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in UNITS:
        us=UNITS[i]; thr=any(u.get('sched') for u in us)
        b='; '.join(f"{u['name']}: {u.get('bounds','see DESIGN.md')}" for u in us)
        checks.append(dict(property=i,quick_cmd=f'python3 check.py {i}',thorough_cmd=f'python3 check.py {i} --tier thorough',evidence_file=f'evidence/{i}.json',
          technique='symbolic execution of the LLVM IR of the real code with Z3'+(', all schedules up to a preemption bound' if thr else ''),
          level='model_checking' if thr else 'other',
          level_note='Bounded symbolic execution of the real code; every counterexample is replayed on the g++ build before it is reported. Holds within: '+b+'. Trusts clang IR, the executor and its models of libc/pthread; floating point is exact reals.'))
    else: na.append(dict(property=i,reason=NA.get(i,'no check built yet')))
m=dict(version=1,setup_cmd='make -s -j8 -C engine OUT=../build/engine',checks=checks,not_applicable=na,notes='No hooks in /repo; /repo carries only fix: commits.')
json.dump(m,open(f'{V}/MANIFEST.json','w'),indent=1); open(f'{V}/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
