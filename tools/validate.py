"""validate properties.jsonl, MANIFEST.json and evidence against the schemas"""
import json, glob, jsonschema
R = "/root/.vp/"
s = json.load(open(R + "PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), json.load(open(R + "MANIFEST.schema.json")))
e = json.load(open(R + "EVIDENCE.schema.json"))
for f in glob.glob("/verif/evidence/P*.json"):
    jsonschema.validate(json.load(open(f)), e)
print("ok")
