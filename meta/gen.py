#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/props.py (run by hand when a property changes)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, 'rules'), os.path.join(V, 'lib')]
from props import PROPS, NA
import registry

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(d) + '\n')
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
assert set(ids) == set(registry.CHECKS), set(ids) ^ set(registry.CHECKS)
m = dict(version=1, setup_cmd='python3 setup.py',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                      technique=p['technique'], level='other', level_note=p['note']) for p in PROPS],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
         notes='All checks are static analyses of the LLVM IR of /repo\'s current sources; nothing of the analysed code is run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
