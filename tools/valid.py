#!/usr/bin/env python3
"""Validates MANIFEST.json, properties.jsonl and the evidence against their schemas."""
import json, jsonschema, os, glob
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, sc)
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/' + f): print(d['id'], 'no file', f)
ev = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C??.json'): jsonschema.validate(json.load(open(f)), ev)
