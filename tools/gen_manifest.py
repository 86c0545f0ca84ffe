#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from engine/plan.py and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
from plan import PLAN, TITLE, NOTE, NA
checks = []
for p in sorted(PLAN):
    checks.append(dict(property=p, quick_cmd='python3-vt engine/check.py %s --tier quick' % p, thorough_cmd='python3-vt engine/check.py %s --tier thorough' % p,
                       technique='contracts on the real headers, discharged by symbolic execution of their LLVM IR and z3 (deductive verification)',
                       level='proof', level_note=NOTE.get(p, NOTE['default'])))
na = [dict(property=p, reason=NA.get(p, 'no check registered yet')) for p in sorted(TITLE) if p not in PLAN]
m = dict(version=1, setup_cmd='python3-vt engine/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the contracts live in /verif/contracts and name the real functions. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
