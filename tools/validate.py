"""Validates the committed files against the schemas of the task"""
import json, sys
import jsonschema
P = json.load(open("/root/.vp/PROPERTIES.schema.json")); M = json.load(open("/root/.vp/MANIFEST.schema.json"))
for l in open("/verif/properties.jsonl"):
    jsonschema.validate(json.loads(l), P)
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), M)
print("valid")
