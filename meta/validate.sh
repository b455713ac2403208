#!/bin/sh
cd "$(dirname "$0")/.." && python3 meta/make.py && python3-vt - <<'X'
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
print('ok')
X
