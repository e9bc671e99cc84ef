#!/usr/bin/env python3
import json, os
from checks import PROPS, MODULES
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for k, p in PROPS.items():
    c = dict(property=k, quick_cmd='python3 run.py %s' % k, thorough_cmd='python3 run.py %s --tier thorough' % k, evidence_file='evidence/%s.json' % k,
             technique='Verus contracts on extracted code, bounded replay beside them' if p['level'] == 'proof' else 'contracts evaluated at run time on random histories (bounded stand-in)' + ('; Verus contracts for part of it' if p['modules'] else ''),
             level=p['level'], level_note=p['note'])
    if p.get('theorems'): c['theorems'] = p['theorems']
    checks.append(c)
json.dump(dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='none', enable='no hooks: the checks use the public API and read the source', source_commits=[]),
               checks=checks, not_applicable=[], notes='See DESIGN.md; known-findings.txt lists repaired defects.'), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
