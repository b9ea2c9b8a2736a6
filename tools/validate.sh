#!/bin/bash
cd "$(dirname "$0")/.." && python3-vt -c "
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
import glob
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/P??.json'): jsonschema.validate(json.load(open(f)),e)
print('valid')
"
