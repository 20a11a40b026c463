#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
from props import PROPS
import props
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i, p in sorted(list(PROPS.items()) + list(getattr(props, 'UNCLAIMED', {}).items())):
        f.write(json.dumps({
            'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('qover', ['inputs']), 'text': p['over']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
for i, p in sorted(PROPS.items()):
    b = p['bounded']
    note = ('Every obligation of the %d contracts (%s) and of every contract they call is generated from /repo and discharged on each run; '
            'trusted: pyvc VC generator and builtin models, SMT solvers, Lean kernel.' % (len(p['contracts']), ', '.join(p['contracts'])))
    if b:
        note += ' Bounded stand-ins (not proved): %s.' % ', '.join(b)
    if p['note']:
        note += ' ' + p['note']
    checks.append({
        'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
        'technique': 'contract-based deductive verification of the real Python source (VC generation, SMT + Lean lemmas)'
                     + ('; bounded executable contracts for the listed functions' if b else ''),
        'level': 'proof', 'level_note': note,
        'theorems': p['contracts']})
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': p['na']} for i, p in sorted(getattr(props, 'UNCLAIMED', {}).items())],
     'notes': 'see DESIGN.md; known findings in known-findings.jsonl'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
