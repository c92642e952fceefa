#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the table below
import json
LEAF="every obligation of the contracted functions discharged by SMT solvers from the current source; "
C={
"C01":("proof",LEAF+"the end-to-end statement (include directive to included text) additionally checked on generated documents by a bounded contract, not counted as proved"),
"C02":("proof",LEAF+"bounded contract on the preprocessing of whole documents beside it, not counted as proved"),
"C03":("proof",LEAF+"bounded contract on the preprocessing of whole documents with nested conditionals beside it, not counted as proved"),
"C15":("proof",LEAF+"bounded contract on the preprocessing of whole documents with nested offsets beside it, not counted as proved"),
}
NA={}
import re,os
extra=os.path.join(os.path.dirname(__file__),"claims.json")
if os.path.exists(extra):
    e=json.load(open(extra))
    for k,v in e.get("claims",{}).items(): C[k]=tuple(v)
    NA.update(e.get("na",{}))
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"/verif/check setup",
 "hooks":{"guard":"none: contracts live in /verif/contracts and enter the build through go/packages and go test overlays; /repo carries no hooks","enable":"not needed","source_commits":[]},
 "checks":[{"property":p,"quick_cmd":f"/verif/check {p}","thorough_cmd":f"/verif/check {p} --tier thorough",
   "technique":"contract-based deductive verification of the Go source (govc: SSA to SMT)" + ("" if C[p][0]=="proof" else "; bounded contracts where out of reach"),
   "level":C[p][0],"level_note":C[p][1]} for p in props if p in C],
 "not_applicable":[{"property":p,"reason":NA.get(p,"not built yet")} for p in props if p not in C]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks")
