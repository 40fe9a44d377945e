#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property is claimed iff bin/p_<id>.py exists."""
import json, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
T=json.load(open(R+"/tools/techniques.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{R}/bin/p_{i.lower()}.py"):
        t=T[i]
        checks.append({"property":i,"quick_cmd":f"python3 bin/check.py {i}","thorough_cmd":f"VERIF_TIER=thorough python3 bin/check.py {i}",
          "evidence_file":f"evidence/{i}.json","technique":t["technique"],"level":t["level"],"level_note":t["note"]})
    else:
        na.append({"property":i,"reason":T.get(i,{}).get("na","check not built yet")})
m={"version":1,"setup_cmd":"python3 bin/setup.py","checks":checks,"not_applicable":na,
   "notes":"TLA+ specifications in spec/, checked with TLC; bound to the code by recorded behaviours of the real crates (harness/)."}
hooks=T.get("_hooks")
if hooks: m["hooks"]=hooks
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
