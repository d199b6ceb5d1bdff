#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs that exist and tools/manifest_notes.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
notes = json.load(open(R + '/tools/manifest_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{R}/specs/{i}.py') and i not in notes['na']:
        n = notes['checks'].get(i, {})
        checks.append(dict(property=i, quick_cmd=f'python3 /verif/check.py {i} --tier quick', thorough_cmd=f'python3 /verif/check.py {i} --tier thorough',
                           evidence_file=f'/verif/evidence/{i}.json', technique=n.get('technique', notes['technique']), level=n.get('level', 'proof'),
                           level_note=n.get('note', notes['note'])))
    else:
        na.append(dict(property=i, reason=notes['na'].get(i, 'specification not built yet')))
m = dict(version=1, setup_cmd='python3 /verif/tools/selftest.py', checks=checks, not_applicable=na, notes=notes['notes'])
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks', len(na), 'not applicable')
