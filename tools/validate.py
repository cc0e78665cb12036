"""Validate MANIFEST.json, properties.jsonl and the evidence files against the schemas of /root/.vp."""
import json, pathlib, sys, jsonschema
V = pathlib.Path("/root/.vp"); R = pathlib.Path(__file__).resolve().parents[1]
man = json.loads((R/"MANIFEST.json").read_text())
jsonschema.validate(man, json.loads((V/"MANIFEST.schema.json").read_text()))
ps = json.loads((V/"PROPERTIES.schema.json").read_text())
for l in (R/"properties.jsonl").read_text().splitlines(): jsonschema.validate(json.loads(l), ps)
es = json.loads((V/"EVIDENCE.schema.json").read_text())
for c in man["checks"]:
    p = R/"evidence"/(c["property"]+".json")
    if p.exists(): jsonschema.validate(json.loads(p.read_text()), es)
    else: print("no evidence", c["property"])
print("valid", len(man["checks"]))
