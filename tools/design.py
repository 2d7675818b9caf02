#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, checks/props.py, the checks themselves, known_findings.jsonl and seeded/"""
import ast
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.props import PROPS, NOT_APPLICABLE


def harnesses(pid):
    src = open(os.path.join(HERE, 'checks', pid + '.py')).read()
    for f in ast.parse(src).body:
        if isinstance(f, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness' for d in f.decorator_list):
            d = [d for d in f.decorator_list if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness'][0]
            n = {k.arg: len(k.value.elts) for k in d.keywords if isinstance(k.value, ast.List)}
            yield f.name, ' '.join((ast.get_docstring(f) or '').split()), n


def stubs(pid):
    src = open(os.path.join(HERE, 'checks', pid + '.py')).read()
    return sorted(set(re.findall(r"'((?:scipy|photutils|pyklip|astropy|statsmodels)\.[\w.]+)':", src)))


out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties and how each is decided', '',
       'Per property: what the solver is asked (one line per harness: the assertions it makes over symbolic inputs; in brackets the',
       'number of configurations of the quick and the additional ones of the thorough tier), the bounds, and the library routines',
       'replaced by stand-ins.', '']
for p in PROPS:
    out += ['### %s  %s' % (p['id'], p['title']), '', p['statement'], '']
    for name, doc, n in harnesses(p['id']):
        out.append('- `%s` (%d%s): %s' % (name, n.get('quick', 0), '+%d' % n['thorough'] if 'thorough' in n else '', doc))
    out += ['', 'Bounds: ' + p['bounds']]
    st = stubs(p['id'])
    if st:
        out.append('Stand-ins: ' + ', '.join('`%s`' % s for s in st) + '.')
    if p['assume']:
        out.append('Assumed: ' + ' '.join(p['assume']))
    out += ['Why tests cannot settle it: ' + p['why'] + '.', '']
out += ['## Not applicable', '']
out += ['- %s %s: %s' % (n['prop']['id'], n['prop']['title'], n['reason']) for n in NOT_APPLICABLE] or ['None of the properties listed.']
out += ['', '## Defects found', '', 'Known findings (open, reported as KNOWN-FINDING on the unchanged tree):', '']
fixed = []
for line in open(os.path.join(HERE, 'known_findings.jsonl')):
    line = line.strip()
    if line.startswith('fixed:'):
        fixed.append(line)
    elif line.startswith('{'):
        k = json.loads(line)
        out.append('- **%s** (%s, harness `%s`): %s' % (k['property'], k['id'], k['harness'], k['what']))
out += ['', 'Repaired (one "fix:" commit each; the check reports the violation again if it returns):', '']
for f in fixed:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    out.append('- %s `%s` %s' % m.groups())
out += ['', '## Planted bugs', '', '`seeded/<id>`; each was confirmed to build, to pass the 224 stable tests, and to be shown by its demonstration. All',
        'of them are caught by the check of their property (exit 1 with a VIOLATION line) unless the last column says otherwise.', '',
        '| id | property | breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], ' '.join(j['what_it_breaks'].split()).replace('|', '/'),
                                       ' '.join(j['needs'].split()).replace('|', '/')))
out += ['', open(os.path.join(HERE, 'tools', 'design_tail.md')).read().rstrip(), '']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
