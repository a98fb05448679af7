#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json, properties.jsonl and not_applicable.json."""
import json
cs=json.load(open('/verif/checks.json'))
na=json.load(open('/verif/not_applicable.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed={c['id'] for c in cs}
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for c in cs:
    m["checks"].append({"property":c['id'],"quick_cmd":f"./check.sh {c['id']} quick","thorough_cmd":f"./check.sh {c['id']} thorough",
      "technique":c['technique'],"level":c['level'],"level_note":c['level_note']})
for p in props:
    if p['id'] not in claimed:
        m["not_applicable"].append({"property":p['id'],"reason":na.get(p['id'],"no check built yet: the contracts for this property are still being written")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(m['checks']),'checks',len(m['not_applicable']),'n/a')
