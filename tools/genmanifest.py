#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed checks
import json
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
TECH="contract-based deductive verification: strongest-postcondition symbolic execution of the real Go code (go/ssa) against contracts; obligations discharged by decision diagrams, a difference-constraint procedure and z3"
claimed={}
exec(open("/verif/tools/claims.py").read())
checks=[]
for i in ids:
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":claimed[i].get("technique",TECH),"level":claimed[i].get("level","proof"),"level_note":claimed[i]["note"],"evidence_file":f"evidence/{i}.json"})
na=[{"property":i,"reason":notapp.get(i,"not decided yet: its contracts are still being written")} for i in ids if i not in claimed]
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,"notes":"See DESIGN.md. No hooks in /repo: contracts are overlay files mounted next to the code by the verifier."},open("/verif/MANIFEST.json","w"),indent=1)
