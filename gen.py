#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the texts in props/*.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/props')
import text
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in text.PROPS:
        assert len(p['title']) <= 80, p['id']
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
checks = []
for p in text.PROPS:
    if 'technique' in p:
        c = dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s' % p['id'],
                 evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other',
                 level_note=p['level_note'])
        checks.append(c)
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks,
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in text.PROPS if 'reason' in p],
         notes='Static analysis only: the AST of the current tree is extracted with libclang-cpp (tool/extract.cpp), turned '
               'into inlined flow graphs with symbolic places and values (engine/), and decided by one rule file per '
               'property (rules/).')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)

# table of planted bugs in DESIGN.md
import os, glob
rows = ['| bug | needs |', '|---|---|']
for m in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/seeded/*/meta.json')):
    rows.append('| %s | %s |' % (os.path.basename(os.path.dirname(m)), json.load(open(m))['needs']))
p = os.path.dirname(os.path.abspath(__file__)) + '/DESIGN.md'
t = open(p).read()
a, b = t.index('<!-- seeds -->'), t.index('<!-- end -->')
open(p, 'w').write(t[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + t[b:])
