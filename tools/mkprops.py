#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":mech,"observe_at":(observe if isinstance(observe,list) else [observe]),"hook_needed":(hook or None)}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
exec(open(os.path.join(os.path.dirname(__file__),"props_data.py")).read())
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
