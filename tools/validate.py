"""python3-vt tools/validate.py: properties.jsonl, MANIFEST.json and evidence against the schemas."""
import json, glob, os, sys
import jsonschema
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open('/root/.vp/%s.schema.json' % n))
for l in open(here + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), S('PROPERTIES'))
M = json.load(open(here + '/MANIFEST.json'))
jsonschema.validate(M, S('MANIFEST'))
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
got = [c['property'] for c in M['checks']] + [c['property'] for c in M.get('not_applicable', [])]
assert sorted(ids) == sorted(got), (set(ids) ^ set(got))
for f in glob.glob(here + '/evidence/C*.json'):
    jsonschema.validate(json.load(open(f)), S('EVIDENCE'))
print('ok', len(ids), 'properties', len(M['checks']), 'checks')
