#!/usr/bin/env python3-vt
"""Validate properties.jsonl, MANIFEST.json and the evidence files against the schemas."""
import glob
import json
import os
import jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open('/root/.vp/%s.schema.json' % n))
for line in open(R + '/properties.jsonl'):
    jsonschema.validate(json.loads(line), S('PROPERTIES'))
jsonschema.validate(json.load(open(R + '/MANIFEST.json')), S('MANIFEST'))
for f in glob.glob(R + '/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), S('EVIDENCE'))
print('valid')
