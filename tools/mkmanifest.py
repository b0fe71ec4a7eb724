#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
T={}
def c(id,tech,note,level="model_checking"): T[id]=(tech,note,level)
exec(open("tools/claims.py").read())
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
checks=[];na=[]
for i in ids:
    if i in T:
        t,n,l=T[i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "hooks":{"guard":"none (no hooks: the checks drive the exported API of the real code through its io.ReadSeeker seam; the one substitution, of Google's frosting key, is a build overlay made by the check)","enable":"go build of /verif/harness with a replace directive to /repo","source_commits":[]},
 "notes":"Replay a violation with: build as run.sh does, then 'zzverif replay replay/FILE.json'."}
open("MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
