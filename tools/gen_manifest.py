"""Writes MANIFEST.json from specs (claimed properties) and tools/not_applicable.json.
Run: python3-vt tools/gen_manifest.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc.check import load_specs

props = load_specs()
allp = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
na = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
checks = []
for p in allp:
    if p not in props:
        continue
    note = props[p]['note']
    if props[p]['level'] != 'proof':
        checks.append({
            'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
            'technique': 'run-time contracts on the real code (pre/postconditions and class invariants evaluated on '
                         'enumerated and seeded executions); bounded stand-in for the deductive check',
            'level': 'exploration',
            'level_note': 'Bounded, not proved: only the enumerated and seeded cases counted in the evidence were executed.' +
                          (' ' + note if note else '')})
        continue
    checks.append({
        'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
        'technique': 'contract-based deductive verification (pyvc: symbolic execution of the real source against '
                     'sidecar contracts, verification conditions discharged by z3/cvc5)',
        'level': 'proof',
        'level_note': 'All obligations generated from the current source are discharged for all inputs, array lengths and '
                      'iteration counts. Floats are reals, integers mathematical, numpy modelled; trusted base in the '
                      'evidence file.' + (' ' + note if note else '')})
out = {'version': 1, 'setup_cmd': 'python3-vt -W ignore -c "import specs, pyvc.check as c; c.load_specs()"', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': na.get(p, 'not built yet')} for p in allp if p not in props]}
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(out['not_applicable']), 'not applicable')
