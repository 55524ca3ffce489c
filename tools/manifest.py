#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from tools/claims.json."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
c=json.load(open(os.path.join(here,'claims.json')))
m={"version":1,"setup_cmd":"./check.sh setup","checks":[],"not_applicable":[]}
for x in c["claims"]:
    p=x["property"]
    m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p} -tier quick","thorough_cmd":f"./check.sh {p} -tier thorough",
      "evidence_file":f"evidence/{p}.json","technique":x.get("technique",c["technique"]),"level":"model_checking","level_note":x["note"]})
for p,r in c["not_applicable"].items():
    m["not_applicable"].append({"property":p,"reason":r})
json.dump(m,open(os.path.join(here,'..','MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
