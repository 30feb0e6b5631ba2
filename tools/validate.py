#!/usr/bin/env python3-vt
import json, jsonschema, os
h=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(h+'/properties.jsonl'): jsonschema.validate(json.loads(l),s)
m=json.load(open(h+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir(h+'/evidence'):
    if f.endswith('.json'): jsonschema.validate(json.load(open(h+'/evidence/'+f)),e)
ids={json.loads(l)['id'] for l in open(h+'/properties.jsonl')}
c={x['property'] for x in m['checks']}|{x['property'] for x in m.get('not_applicable',[])}
print('missing',ids-c,'extra',c-ids)
