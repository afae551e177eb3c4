#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, the property list and the rule modules (python3 tool/design.py)"""
import os, sys, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + '/sa', V + '/rules', V + '/tool']
import props
out = [open(V + '/tool/design_head.md').read(), '\n## Properties and how each is decided\n']
for p in props.P:
    if p['na']: continue
    m = importlib.import_module('rules_' + p['id'].lower())
    out.append('### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Rules (each instance is one obligation, reported with file, line and function):*\n' % (p['id'], p['title'], p['statement'], m.EXPLAIN))
    out += ['* `%s`: %s' % (k, v) for k, v in m.RULES.items()]
    if getattr(m, 'ASSUMES', None): out.append('\n*Assumes:* ' + '; '.join(m.ASSUMES) + '.')
    out.append('\n*Beyond the tests:* %s\n' % p['why'])
out.append('## Not applicable\n')
out += ['* %s %s: %s' % (p['id'], p['title'], p['na']) for p in props.P if p['na']]
out.append(open(V + '/tool/design_tail.md').read() if os.path.exists(V + '/tool/design_tail.md') else '')
k = json.load(open(V + '/known_findings.json'))
out.append('\n## Known findings\n')
out += ['* %s: %s' % (x['property'], x['what']) for x in k['findings']] or ['none']
out.append('\n## Defects repaired in /repo\n'); out += ['* ' + x for x in k['fixed']]
out.append('\n## Planted changes and what catches them\n')
res = {}
rp = V + '/tool/seed_results.json'
if os.path.exists(rp): res = json.load(open(rp))
for s in sorted(os.listdir(V + '/seeded')):
    mt = json.load(open(V + '/seeded/%s/meta.json' % s))
    out.append('* `%s` (%s): %s. Needs: %s. %s' % (s, mt['property'], mt['what_it_breaks'].rstrip('.'), mt['needs'].rstrip('.'), res.get(s, 'Caught by the check of %s.' % mt['property'])))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
