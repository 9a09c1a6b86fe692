#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units import PROPS, KANI
NA = {}
checks = []
for p, d in sorted(PROPS.items()):
    c = {'property': p, 'quick_cmd': 'python3 tools/check.py %s' % p, 'thorough_cmd': 'python3 tools/check.py %s --thorough' % p,
         'technique': d.get('technique', ''), 'level': d['level'], 'level_note': d.get('note', '')}
    if not c['technique']:
        ks = []
        if d['units']: ks.append('deductive verification (Verus) of contracts on the extracted functions: ' + ', '.join(d['units']))
        if d['kani']: ks.append('function contracts checked by Kani: ' + ', '.join(d['kani']))
        c['technique'] = '; '.join(ks) or 'bounded stand-in: contract of the operation checked at run time on generated inputs'
    if not c['level_note']:
        n = ''
        if d['units'] or d['kani']:
            n += 'Every obligation of the listed functions is discharged for all inputs; the shims of std, uuid, serde_json and rocksdb items and the axioms in the trusted base are assumed. '
        n += 'Bounded, not proved: ' + d['bounded'] + '.'
        c['level_note'] = n
    if d.get('theorems'):
        c['theorems'] = d['theorems']
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
