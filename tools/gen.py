#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py (run by hand; no check reads the result)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS
from checks import CHECKS
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(q['title']) <= 80, p['id']
        f.write(json.dumps(q) + '\n')
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': p.get('na', 'no check built')})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'technique': c['technique'],
        'level': 'model_checking',
        'level_note': 'Every case within the bounds is executed on the real code (sanitized build of /repo) and compared '
                      'with an independent reference model; nothing is sampled. Bounds: ' + c['bounds'] +
                      '. Trusts the reference model and the sanitizers; nothing is claimed beyond the bounds.'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every harness uses the public API of /repo only. Each check compiles its harness and the '
              'library sources it needs from /repo\'s working tree into /verif/build (ignored by git).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')
