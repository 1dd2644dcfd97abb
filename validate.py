#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and evidence against the schemas."""
import json, jsonschema, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
S=lambda n: json.load(open("/root/.vp/%s.schema.json"%n))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), S("PROPERTIES"))
jsonschema.validate(json.load(open("MANIFEST.json")), S("MANIFEST"))
for f in glob.glob("evidence/*.json"): jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("valid")
