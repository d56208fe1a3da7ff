#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
NA = {
    'N01': 'Memory safety of the C extensions is a property of addresses and reference counts, which a TLA+ specification of the behaviour has no state for; a sanitizer would decide it, not this family of technique.',
    'N02': 'The responses of filters are those of scipy.signal designs: complex transcendental functions to floating point accuracy; TLC has only integers, and what the filters do with their coefficients is C29.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
        continue
    m = importlib.import_module('checks.' + i.lower())
    checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                   'technique': getattr(m, 'TECHNIQUE', 'TLA+ specification model-checked with TLC; spec-generated and random call sequences replayed on the code, recorded traces validated against the specification by TLC'),
                   'level': m.LEVEL,
                   'level_note': getattr(m, 'LEVEL_NOTE', 'The design is checked exhaustively within small constants; the code is bound to it by validating every recorded step of the replayed histories. Trusts TLC, the driver\'s projection of observations, and PyPy. ') + ''.join(' Assumes: %s.' % a for a in getattr(m, 'ASSUMPTIONS', []))})
man = {'version': 1, 'setup_cmd': 'sh ./setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'Specifications in spec/ (TLA+, TLC). No hooks in /repo are needed: every observation is made through the public API.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
