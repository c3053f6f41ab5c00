#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh && python3 -c "import sys; sys.path.insert(0, \'.\'); from sa import db; db.program()"',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                 'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if p['claim']],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claim']],
     'notes': 'Every check parses /repo/src (all translation units) with a clang libTooling extractor built from tool/extract.cpp on first use and cached '
              'under .cache keyed by source content; no hooks in /repo are needed.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(m['checks']), 'claimed')
