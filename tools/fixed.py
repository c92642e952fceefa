#!/usr/bin/env python3
# usage: fixed.py PROP COMMIT CONTRACT WHAT : records a repaired defect
import json,sys
p,c,k,w=sys.argv[1:]
f="/verif/known_findings.json"
d=json.load(open(f))
d["findings"].append({"property":p,"contract":k,"what":w,"fixed":f"fixed: property={p} {c} {w}"})
json.dump(d,open(f,"w"),indent=1)
