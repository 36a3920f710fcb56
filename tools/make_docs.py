#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from catalog import P, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p, note in P:
        n = p['statement'].replace('i.e.', 'ie').count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(p) + '\n')

TECH = ('property-based testing: Hypothesis-generated cases run against the real code and compared '
        'with an explicit oracle, failures shrunk to a replay file')
checks = []
for p, note in P:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    checks.append({
        'property': i,
        'quick_cmd': '/verif/check %s quick' % i,
        'thorough_cmd': '/verif/check %s thorough' % i,
        'evidence_file': '/verif/evidence/%s.json' % i,
        'technique': TECH,
        'level': 'exploration',
        'level_note': note or 'generated-input search; absence of a violation is not a proof',
    })
man = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'checks')

# --- tables in DESIGN.md
import importlib  # noqa: E402
import re  # noqa: E402
sys.path.insert(0, root)
try:
    from pbt import core
    for f in sorted(os.listdir(os.path.join(root, 'pbt', 'laws'))):
        if re.match(r'p\d+\.py$', f):
            importlib.import_module('pbt.laws.' + f[:-3])
except ImportError as e:
    sys.exit('DESIGN.md not updated: %s' % e)
rows = ['### Laws', '', 'Cases per law in the quick and thorough tier, with the rule for non-trivial ones.', '',
        '| property | law | quick | thorough | cases, and which are non-trivial |', '|---|---|---|---|---|']
for p, _ in P:
    for l in core.LAWS.get(p['id'], {}).values():
        rows.append('| %s | %s | %d | %d | %s |' % (p['id'], l.name, l.quick, l.thorough, ' '.join(l.rule.split())))
planted = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = os.path.join(root, 'seeded', d, 'meta.json')
    if os.path.exists(m):
        m = json.load(open(m))
        planted.append('| %s | caught by %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
path = os.path.join(root, 'DESIGN.md')
t = open(path).read()
for name, lines in (('laws', rows), ('planted', planted)):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    t = t[:t.index(a) + len(a)] + '\n' + '\n'.join(lines) + '\n' + t[t.index(b):]
open(path, 'w').write(t)
