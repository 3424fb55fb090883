#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the rule modules and na.json."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
na = json.load(open(os.path.join(H, 'tools', 'na.json')))
props, checks = [], []
for p in sorted(glob.glob(os.path.join(H, 'va/rules/c*.py'))):
    m = importlib.import_module('va.rules.' + os.path.basename(p)[:-3])
    if getattr(m, 'WIP', False):
        continue
    P = m.PROP
    assert len(P['title']) <= 80, P['id']
    props.append(P)
    c = dict(property=P['id'], quick_cmd='./check.sh %s quick' % P['id'], thorough_cmd='./check.sh %s thorough' % P['id'],
             technique='static analysis: ' + m.TECHNIQUE, level='other', level_note=getattr(m, 'LEVEL', ' '.join(m.EXPLAIN.split()))[:1500])
    checks.append(c)
nas = []
for n in na:
    P = n['prop']
    assert len(P['title']) <= 80, P['id']
    props.append(P)
    nas.append(dict(property=P['id'], reason=n['reason']))
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for P in sorted(props, key=lambda x: x['id']):
        f.write(json.dumps(P, ensure_ascii=False) + '\n')
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=nas,
               notes='All checks decide from MIR facts of the current tree; no code of /repo is executed. See DESIGN.md.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(H + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for P in props:
        jsonschema.validate(P, s)
except ImportError:
    print('no jsonschema')
print(len(props), 'properties', len(checks), 'checks')
import subprocess; subprocess.run([sys.executable, H + '/tools/design.py'], check=True)
