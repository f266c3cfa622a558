#!/usr/bin/env python3
"""regenerates MANIFEST.json from plan.py"""
import json,sys,os
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE+'/engine')
import plan
props=[json.loads(l) for l in open(HERE+'/properties.jsonl')]
ids=[p['id'] for p in props]
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[])
for i in ids:
    if i in plan.PLAN:
        p=plan.PLAN[i]
        m['checks'].append(dict(property=i,quick_cmd='python3-vt check.py %s'%i,thorough_cmd='python3-vt check.py %s --thorough'%i,technique=p.get('technique','contract-based deductive verification of the LLVM IR extracted from /repo (symbolic execution against contracts, z3); bounded concrete stand-in for undecided functions'),level=p.get('level','proof'),level_note=p.get('note','functions listed in the evidence as proved are discharged for all inputs; those listed as undecided are only covered by the bounded concrete run')))
    else: m['not_applicable'].append(dict(property=i,reason=plan.NA.get(i,'no check built')))
json.dump(m,open(HERE+'/MANIFEST.json','w'),indent=1)
