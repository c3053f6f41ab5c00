#!/usr/bin/env python3
"""writes DESIGN.md from doc/design.in, the property texts, the evidence of the last runs, seeded/*/meta.json and doc/catches.json"""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/doc/design.in').read()
o = []
for p in P:
    o.append('\n### %s %s\n' % (p['id'], p['title']))
    if not p['claim']:
        o.append('Not applicable: ' + p['reason']); continue
    o.append('*Decided by:* %s. *Quantifies over:* %s. *Beyond tests:* %s.' % (p['technique'], p['qtext'], p['why']))
    ev = V + '/evidence/%s.json' % p['id']
    if os.path.exists(ev):
        c = json.load(open(ev))['coverage']
        o.append('*Analysed on the committed tree:* %d obligations in %d clauses, %d functions, %d path states.' % (c['obligations_total'], len(c['clauses']), c['functions_analysed_for_this_property'], c['path_states_explored']))
        for k, v in c['clauses'].items():
            o.append('- `%s` (%d): %s' % (k, v['instances'], v['rule']))
    if p['note']:
        o.append('\n*Bounds and trust:* ' + p['note'].strip())
k = json.load(open(V + '/known_findings.json'))
fx = '\n'.join('- ' + x for x in k['fixed'])
if k['findings']:
    fx += '\n\nRecorded, not repaired (`findings` in `known_findings.json`, printed as KNOWN-FINDING):\n' + '\n'.join('- ' + (x if isinstance(x, str) else json.dumps(x)) for x in k['findings'])
cat = {}
if os.path.exists(V + '/doc/catches.json'):
    cat = json.load(open(V + '/doc/catches.json'))
sd = ['| change | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    sd.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], d['needs'], cat.get(i, 'not caught')))
fa = open(V + '/doc/false.in').read().rstrip() if os.path.exists(V + '/doc/false.in') else ''
na = open(V + '/doc/na.in').read().rstrip() if os.path.exists(V + '/doc/na.in') else ''
na += ''.join('\n- %s %s: %s' % (p['id'], p['title'], p['reason']) for p in P if not p['claim'])
for a, b in (('@@PROPS@@', '\n'.join(o)), ('@@FIXED@@', fx), ('@@SEEDS@@', '\n'.join(sd)), ('@@FALSE@@', fa), ('@@NA@@', na)):
    t = t.replace(a, b)
open(V + '/DESIGN.md', 'w').write(t)
