#!/usr/bin/env python3
# mkseed.py ID < spec.json : writes seeded/ID from {"property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":"js source"}
import json,sys,os,subprocess
sid=sys.argv[1]; s=json.load(sys.stdin) if len(sys.argv)<3 else json.load(open(sys.argv[2]))
d=f"/verif/seeded/{sid}"; os.makedirs(d,exist_ok=True)
saved={}
try:
    for f,old,new in s["edits"]:
        p=os.environ.get("ROOT","/repo")+"/"+f; t=open(p).read(); saved.setdefault(p,t)
        assert t.count(old)==1,(f,t.count(old),old)
        open(p,"w").write(t.replace(old,new))
    diff=subprocess.check_output(["git","-C",os.environ.get("ROOT","/repo"),"diff"],text=True)
finally:
    for p,t in saved.items(): open(p,"w").write(t)
open(d+"/patch.diff","w").write(diff)
open(d+"/demo.mjs","w").write(s["demo"].lstrip("\n"))
open(d+"/demo.sh","w").write('#!/bin/bash\nexec node "$(dirname "$0")/demo.mjs"\n'); os.chmod(d+"/demo.sh",0o755)
json.dump({k:s[k] for k in("property","needs","what_it_breaks")},open(d+"/meta.json","w"),indent=1)
