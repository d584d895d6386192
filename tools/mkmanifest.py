import json, jsonschema, sys
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
import checks
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[],
 "notes":"Checks rebuild their harness from /repo/include and /repo/tools on every run (object cache keyed by content). No hooks in /repo: libc calls are interposed instead."}
for p in props:
    i=p["id"]; c=checks.CHECKS.get(i)
    if c and "technique" in c:
        out["checks"].append({"property":i,"quick_cmd":"python3 run.py %s quick"%i,"thorough_cmd":"python3 run.py %s thorough"%i,
          "technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else: out["not_applicable"].append({"property":i,"reason":"check not built yet"})
jsonschema.validate(out,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(out,open('/verif/MANIFEST.json','w'),indent=1)
print(len(out["checks"]),"claimed")
