#!/bin/bash
# Regenerates properties.jsonl and MANIFEST.json and checks them against the schemas.
cd "$(dirname "$0")/.." && python3 bin/mkprops.py && python3-vt - <<'P'
import json,jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'));M=json.load(open('/root/.vp/MANIFEST.schema.json'))
n=0
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),S); n+=1
m=json.load(open('MANIFEST.json')); jsonschema.validate(m,M)
print(n,"properties,",len(m["checks"]),"claimed, valid")
P
