#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (for the checks that exist)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': ['otpod/' + f for f in files],
                            'mechanism': [{'name': n, 'where': 'otpod/' + w} for n, w in mech],
                            'observe_at': observe, 'hook_needed': None}), level_note))


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

P.sort(key=lambda t: t[0]['id'])
P = [t for t in P if os.path.exists(os.path.join(ROOT, 'mc', 'checks', t[0]['id'].lower() + '.py'))]
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p) + '\n')
TECH = ('explicit-state model checking: exhaustive enumeration of a bounded space of inputs/configurations/histories '
        'executed on the real code, each observation compared with an independent reference model')
M = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'run_check.sh <ID> [quick|thorough] [--replay FILE]; no hooks are needed in /repo; fixes and open findings in '
              'known_findings.json; see DESIGN.md'}
for p, note in P:
    M['checks'].append({'property': p['id'], 'quick_cmd': './run_check.sh %s quick' % p['id'],
                        'thorough_cmd': './run_check.sh %s thorough' % p['id'],
                        'evidence_file': 'evidence/%s.json' % p['id'],
                        'technique': TECH, 'level': 'model_checking', 'level_note': note})
json.dump(M, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
