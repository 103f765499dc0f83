#!/usr/bin/env python3
"""Writes MANIFEST.json from claims.json (what is claimed, with notes) and properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claims=json.load(open('/verif/tools/claims.json'))
m=dict(version=1,setup_cmd="python3 /verif/check.py --setup",
 hooks=dict(guard="verif",enable="no hook in /repo is needed: contracts are added through a load-time overlay",source_commits=[]),
 checks=[],not_applicable=[],notes="Contracts are in /verif/contracts (Go), the obligation generator in /verif/engine; see DESIGN.md.")
for p in props:
    i=p['id']
    if i in claims['checks']:
        c=claims['checks'][i]
        m['checks'].append(dict(property=i,quick_cmd="python3 check.py "+i,thorough_cmd="python3 check.py %s --thorough"%i,
          technique="contract-based deductive verification (function contracts over Go SSA, SMT)",level="proof",level_note=c))
    else:
        m['not_applicable'].append(dict(property=i,reason=claims['na'][i]))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
