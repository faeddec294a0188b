#!/usr/bin/env python3
"""writes MANIFEST.json from check.py's table and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"C27": "a static fact about which symbols the objects reference: there is no behaviour to explore, so model checking does not apply"}
m = dict(version=1, setup_cmd="sh setup.sh", checks=[], not_applicable=[])
for p in props:
    c = check.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason=NA.get(p["id"], "not claimed yet: its explorer is still being built")))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 check.py %s quick" % p["id"],
                            thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=c["technique"],
                            level=c.get("level", "model_checking"), level_note=c["note"]))
m["notes"] = "No hooks: the checks build the library from /repo's working tree and drive its public functions only."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
