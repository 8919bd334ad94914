#!/bin/bash
# validates the JSON artefacts against the schemas (development aid)
cd "$(dirname "$0")/.." && python3-vt - <<'PY'
import json,jsonschema,glob
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
for e in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(e)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok')
PY
