#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and checks.py."""
import json, os
from spec import PROPS, NOT_APPLICABLE
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in CHECKS and i not in NOT_APPLICABLE:
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                           technique=p['technique'], level='exploration', level_note=p['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check under construction: no machinery registered for it yet')))
m = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='NONE', enable='no hooks: every monitor observes the public API and the sanitizer runtime', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All checks are run.py PROPERTY TIER; run.py rebuilds /repo/library with sanitizers from the working tree.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
