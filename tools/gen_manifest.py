#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json: one check per property the explorer knows, the rest not applicable.
import json, os, subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
have=json.loads(subprocess.check_output([os.path.join(root,"target/release/mc"),"--json"]))
NOTES=json.load(open(os.path.join(root,"tools/level_notes.json")))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
          "evidence_file":f"evidence/{i}.json",
          "technique":NOTES.get(i,{}).get("technique","explicit-state model checking of the real code: exhaustive small-scope enumeration of inputs and operation histories against a reference model"),
          "level":"model_checking",
          "level_note":NOTES.get(i,{}).get("note","Exhaustive within the bounds listed in the evidence file; trusts the reference model in mc/src/model.rs and its comparison tolerances.")})
    else:
        na.append({"property":i,"reason":NOTES.get(i,{}).get("na","No check has been built for this property yet.")})
m={"version":1,"setup_cmd":"./check.sh --build",
   "checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: the checks drive the public API. fix: commits are listed in known-findings.txt."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
print(len(checks),"checks",len(na),"not applicable")

import re
d=os.path.join(root,"DESIGN.md"); t=open(d).read(); sd=os.path.join(root,"seeded")
if os.path.isdir(sd):
    rows=["| bug | caught by | needs | breaks |","|---|---|---|---|"]
    for i in sorted(os.listdir(sd)):
        m=json.load(open(os.path.join(sd,i,"meta.json")))
        rows.append(f"| {i} | {m.get('caught_by',m['property'])} | {m['needs']} | {m['what_it_breaks']} |")
    t=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda _:"<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->",t,flags=re.S)
    open(d,"w").write(t)
