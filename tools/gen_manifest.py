#!/usr/bin/env python3
'''Write MANIFEST.json from properties.jsonl and the property modules that exist.'''
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C25': 'Parsing an option string is a pure function of its argument: no schedule, clock, I/O, '
           'fault or crash that a simulator could control takes part in it.',
    'C26': 'Serialising a mapping is a pure function of its argument: no schedule, clock, I/O, '
           'fault or crash that a simulator could control takes part in it.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    path = os.path.join(HERE, 'dst', 'props', i.lower() + '.py')
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(path):
        na.append({'property': i, 'reason': 'The simulated scenario for it is not built yet.'})
        continue
    src = open(path).read()
    m = re.search(r"^NOTE = \((.*?)\)$", src, re.S | re.M)
    note = eval('(' + m.group(1) + ')') if m else (
        'Seeded search over simulated runs of the real commands; no exhaustiveness. '
        'Trusts the simulated kernel VFS, storage service and reference model in dst/.')
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
        'technique': 'deterministic simulation with fault injection',
        'level': 'exploration',
        'level_note': note,
    })
man = {
    'version': 1,
    'setup_cmd': 'python3 setup_check.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo are needed: the simulator uses the seams that exist (AsyncBackend '
             'classes, trio clock and scheduler, pyfuse3 module, os and time functions). Defects '
             'repaired in /repo are listed in known-findings.json. Design: DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
