#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(D)
sys.path.insert(0, D)
from props import P
PY = '/opt/venv/bin/python'
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'],
             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif not p['done']:
        na.append({'property': p['id'], 'reason': 'contracts not built yet'})
    else:
        tech = ('contract-based deductive verification: contracts on the real '
                'functions, verification conditions generated by symbolic '
                'execution of the current source, discharged by z3/cvc5')
        if p['level'] != 'proof':
            tech = ('contracts on the real functions; this property\'s '
                    'contracts are checked by bounded execution (labelled '
                    'bounded, not proved)' if p['level'] == 'exploration'
                    else tech)
        checks.append({
            'property': p['id'],
            'quick_cmd': '%s check.py %s --tier quick' % (PY, p['id']),
            'thorough_cmd': '%s check.py %s --tier thorough' % (PY, p['id']),
            'technique': tech, 'level': p['level'],
            'level_note': p['note'] or (
                'all obligations from the current source discharged; floats '
                'read as reals; see DESIGN.md'
                if p['level'] == 'proof' else
                'bounded contract checking, see DESIGN.md'),
            'evidence_file': 'evidence/%s.json' % p['id']})
m = {'version': 1, 'setup_cmd': '%s -c "import sys"' % PY, 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo. See DESIGN.md.'}
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
