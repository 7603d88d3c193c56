import json,sys,jsonschema,os
b=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
ids=[]
for l in open(b+"/properties.jsonl"):
    o=json.loads(l); jsonschema.validate(o,s); ids.append(o["id"])
    n=o["statement"].count(". ")+1
    if n>3: print("too many sentences",o["id"],n)
if os.path.exists(b+"/MANIFEST.json"):
    m=json.load(open(b+"/MANIFEST.json")); jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
    c=[x["property"] for x in m["checks"]]+[x["property"] for x in m.get("not_applicable",[])]
    print("unclaimed:",set(ids)-set(c),"unknown:",set(c)-set(ids))
es=json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in sorted(os.listdir(b+"/evidence")):
    if f.endswith(".json"):
        jsonschema.validate(json.load(open(b+"/evidence/"+f)),es)
print("ok",len(ids))
