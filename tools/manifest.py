#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the claims below and the properties list.
import json
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
exec(open("/verif/tools/claims.py").read())  # CLAIMS: id -> level note ; NA: id -> reason
TECH="contract-based deductive verification of the real TypeScript (symbolic execution with contracts and loop invariants, obligations discharged by z3/cvc5)"
checks=[dict(property=i,quick_cmd=f"node run.mjs {i}",thorough_cmd=f"VERIF_TIER=thorough node run.mjs {i}",technique=TECH,level=LEVELS.get(i,"proof"),level_note=CLAIMS[i]) for i in ids if i in CLAIMS]
na=[dict(property=i,reason=NA.get(i,"No contract for this property has been built yet.")) for i in ids if i not in CLAIMS]
json.dump(dict(version=1,setup_cmd="node tools/setup.mjs",checks=checks,not_applicable=na),open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not")
