#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TODO="not claimed: no check built yet"
T={  # id: (technique, level_note)
}
exec(open('/verif/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        tech,note=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=tech,level="exploration",level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,TODO)))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="No hooks in /repo: every monitored event is observable through public interfaces, the scripted transports and an interposed libc in the harness.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
