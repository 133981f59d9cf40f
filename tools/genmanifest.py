#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V,'tools/claims.py')).read())
ids=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
m={"version":1,"setup_cmd":"sh build.sh","checks":[],"not_applicable":[],
   "notes":"One analyser (analyzer/, Go, built offline from vendored x/tools) reads /repo's source on every run; nothing of /repo is executed. No hooks are needed."}
for i in ids:
    if i in CLAIMS:
        t,n=CLAIMS[i]
        m["checks"].append({"property":i,"quick_cmd":"sh check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough sh check.sh "+i,
            "technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); open(os.path.join(V,'MANIFEST.json'),'a').write("\n")
print(len(m["checks"]),"claimed",len(m["not_applicable"]),"not")
