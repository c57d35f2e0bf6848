#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
props={json.loads(l)['id'] for l in open('/verif/properties.jsonl')}
T={}
def c(id,technique,note,level="model_checking"): T[id]=(technique,level,note)
exec(open('/verif/tools/manifest_table.py').read())
checks=[]
for id in sorted(T):
    t,l,n=T[id]
    checks.append({"property":id,"quick_cmd":"bin/check %s"%id,"thorough_cmd":"VERIF_TIER=thorough bin/check %s"%id,"technique":t,"level":l,"level_note":n})
na=[{"property":p,"reason":NA.get(p,"check not built yet")} for p in sorted(props-set(T))]
json.dump({"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na,"notes":"All checks rebuild the checker against /repo's working tree; see DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),"checks",len(na),"not claimed")
