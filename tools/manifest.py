#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (technique/level notes) and properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=json.load(open('/verif/tools/checks.json'))
na=checks.get('not_applicable',{})
m={"version":1,"setup_cmd":"sh /verif/tools/setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in checks['checks']:
        c=checks['checks'][i]
        m['checks'].append({"property":i,"quick_cmd":f"VERIF_TIER=quick sh /verif/run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough sh /verif/run.sh {i}",
          "technique":c['technique'],"level":"model_checking","level_note":c['note']})
    else:
        m['not_applicable'].append({"property":i,"reason":na.get(i,"check under construction")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
