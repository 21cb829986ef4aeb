#!/usr/bin/env python3-vt
import json, jsonschema, os, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('/verif/properties.jsonl'):
    x = json.loads(l); jsonschema.validate(x, s); ids.append(x['id'])
    for f in x['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
m = json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
claimed = [c['property'] for c in m['checks']] + [c['property'] for c in m.get('not_applicable', [])]
assert sorted(claimed) == sorted(ids), (claimed, ids)
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for e in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(e)), es)
print('ok', len(ids), 'properties', len(m['checks']), 'checks')
