#!/usr/bin/env python3
"""properties.jsonl, MANIFEST.json and checks/meta.json from checks/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.props import PROPS, NOT_APPLICABLE

LEVEL_NOTE = ('Bounded: every assertion is decided by Z3 over all values within the stated bounds on the current source, executed '
              'symbolically; sizes and choices beyond the bounds are not covered. Floats are extended reals (no rounding, '
              'NaN and infinity modelled); numpy is modelled elementwise and library routines by the listed stand-ins. '
              'Counterexamples are replayed on the unmodified code before they are reported.')

ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n['prop'] for n in NOT_APPLICABLE]:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                             observe_at=p.get('observe', [])))) + '\n')
checks, meta = [], {}
for p in PROPS:
    i = p['id']
    assert os.path.exists(os.path.join(HERE, 'checks', i + '.py')), i
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run.py %s quick' % i,
                       thorough_cmd='/opt/venv/bin/python run.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='bounded symbolic execution of the real Python source, decided by Z3',
                       level='model_checking', level_note=p['bounds'] + ' ' + LEVEL_NOTE))
    meta[i] = dict(bounds=p['bounds'], assumptions=p.get('assume', []))
json.dump(meta, open(os.path.join(HERE, 'checks', 'meta.json'), 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python symnp/selftest.py', checks=checks,
               not_applicable=[dict(property=n['prop']['id'], reason=n['reason']) for n in NOT_APPLICABLE],
               notes='No hooks in /repo: the checks load corgidrp from /repo with its numpy import rewritten at load time.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
