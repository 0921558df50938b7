#!/usr/bin/env python3
# writes MANIFEST.json. CLAIMED: property -> level note
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
props=[json.loads(l) for l in open("properties.jsonl")]
exec(open("tools/claims.py").read())
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,
          "technique":"contract-based deductive verification of the Go SSA of /repo (gover + z3)",
          "level":"proof","level_note":CLAIMED[i]})
    else:
        na.append({"property":i,"reason":NA.get(i,"contracts for this property are not finished yet")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open("MANIFEST.json","w"),indent=1)
