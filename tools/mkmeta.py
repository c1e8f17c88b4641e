#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/propdefs.py and gsbv/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from propdefs import DEFS
from gsbv.props import PROPS, NOT_APPLICABLE
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in DEFS: f.write(json.dumps(d) + '\n')
checks = []
na = []
for d in DEFS:
    i = d['id']
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': p.get('technique', 'contracts on the real functions, discharged by a VC generator over the clang AST with z3/cvc5; replay harness on the real code'),
                       'level': p.get('level', 'proof'), 'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo: contracts live in /verif/gsbv/spec_*.py and are attached to the functions of /repo by name and signature; the AST is extracted from the working tree on every run.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
