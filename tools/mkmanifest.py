#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"..","properties.jsonl"))]
NOTE={}
CLAIMED={}
exec(open(os.path.join(here,"claims.py")).read())
PURE="A pure function of its arguments: no schedule, clock, I/O, fault or history takes part, so there is nothing for a simulator to decide. "
NA={
"N01":PURE+"(Arithmetic results are still compared with an exact model wherever they feed replica state: C08, C06, C07.)",
"N02":PURE+"(Division runs inside C08's logs and C06's histories against an exact model, but the identity over all pairs is not claimed.)",
"N03":PURE+"(Bit operations run inside C08's logs against an exact model.)",
"N04":PURE+"(Conversions run inside C08's logs against an exact model.)",
"N05":PURE+"(Float conversions run inside C08's logs against an exact model.)",
"N06":PURE+"(Parsing is exercised as the read side of C03's stores and inside C08's logs.)",
"N07":"Evaluated by the compiler: nothing executes that a simulator could schedule or fault. (The parser behind the macros runs, at run time, as an operation in C08's logs.)",
"N08":PURE+"(The order is exercised through collection histories: C10.)",
"N09":PURE+"(The layouts are exercised through C04's stores and C08's snapshots.)",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        c=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":"exploration","level_note":c["note"]})
    else:
        na.append({"property":i,"reason":NA.get(i,"Not claimed yet: the simulation for it is being built (see DESIGN.md).")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: every seam the simulator needs (writers, iterators, serde data formats, hashers, the allocator, the build configuration, the instruction stream) is already outside the crate. All randomness derives from VERIF_SEED."}
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
