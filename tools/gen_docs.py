#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOTAPP
LEVELNOTE = ('Static: every execution of the anchored functions is covered symbolically, one trace partition at a time; operations of other modules are uninterpreted. '
             'Trusted: the front end, the abstract interpreter, the reviewed reference under /verif/spec. Nothing is executed.')
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['q']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NOTAPP:
        continue
    if not os.path.exists(V + '/rules/%s.py' % p['id'].lower()):
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                   'technique': p.get('tech', 'static analysis: trace-partitioned abstract interpretation with value numbering; refinement of the function summaries against a reviewed reference'),
                   'level': 'other', 'level_note': p.get('note', LEVELNOTE)})
na = [{'property': k, 'reason': r} for k, r in NOTAPP.items()]
done = {c['property'] for c in checks} | set(NOTAPP)
for p in PROPS:
    if p['id'] not in done:
        na.append({'property': p['id'], 'reason': 'no check yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', [x['property'] for x in na])

# DESIGN.md
import glob
out = [open(HERE + '/doc/head.md').read()]
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m))
    seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j))
out.append('## 5. Planted bugs and the checks that catch them\n\n| planted bug | needs | what it breaks | caught by |\n|---|---|---|---|\n')
missed = {l.strip() for l in open(HERE + '/doc/missed.txt')} if os.path.exists(HERE + '/doc/missed.txt') else set()
for p in sorted(seeds):
    for n, j in seeds[p]:
        out.append('| %s | %s | %s | %s |\n' % (n, j['needs'].replace('|', '/'), j['what_it_breaks'].replace('|', '/'), 'not caught' if n in missed else 'check ' + p))
out.append('\n## 6. Property by property\n\nUnless stated otherwise: refinement of the summaries of all functions of the anchored files against `spec/`; all sizes and inputs; cost 5 to 65 s on 8 cores.\n\n')
for p in PROPS:
    if p['id'] in NOTAPP:
        out.append('* **%s %s** - not applicable: %s\n' % (p['id'], p['title'], NOTAPP[p['id']]))
        continue
    out.append('* **%s %s** - files: %s. %s\n' % (p['id'], p['title'], ', '.join('`%s`' % f.replace('c++/triqs/', '').replace('python/triqs/', 'py:') for f in p['files']), p.get('design', '')))
out.append(open(HERE + '/doc/tail.md').read())
open(V + '/DESIGN.md', 'w').write(''.join(out))
