#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in plan.CLAIMED:
        tech,note=plan.CLAIMED[i]
        checks.append({'property':i,'quick_cmd':'./check.py %s'%i,'thorough_cmd':'VERIF_TIER=thorough ./check.py %s'%i,
            'technique':tech,'level':'model_checking','level_note':note})
    else: na.append({'property':i,'reason':plan.NOT_APPLICABLE.get(i,'check under construction')})
json.dump({'version':1,'setup_cmd':'./check.py --setup','checks':checks,'not_applicable':na,
  'notes':'TLA+ specifications in spec/, checked with TLC and bound to the code by replaying behaviours and judging recorded executions; no hooks in /repo.'},
  open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
