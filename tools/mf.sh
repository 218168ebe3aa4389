#!/bin/bash
# regenerate MANIFEST.json and validate it
cd "$(dirname "$0")/.." && /opt/venv/bin/python -B tools/make_manifest.py && python3-vt - <<'P'
import json, jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
P
