#!/usr/bin/env python3-vt
import json,jsonschema,sys,os,re
R="/root/.vp/"
ps=json.load(open(R+"PROPERTIES.schema.json")); ids=set()
for l in open("/verif/properties.jsonl"):
    d=json.loads(l); jsonschema.validate(d,ps); ids.add(d["id"])
    n=len(re.findall(r"[.!?](?:\s|$)", d["statement"]))
    if n>3: print("too many sentences",d["id"],n)
    for f in d["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",d["id"],f)
m=json.load(open("/verif/MANIFEST.json")); jsonschema.validate(m,json.load(open(R+"MANIFEST.schema.json")))
c={x["property"] for x in m["checks"]}; na={x["property"] for x in m.get("not_applicable",[])}
print("claimed",len(c),"n/a",len(na),"unlisted",ids-c-na,"dup",c&na,"unknown",(c|na)-ids)
