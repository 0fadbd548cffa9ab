#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and irsym/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'irsym'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the LLVM IR of the real code, z3 verdict per path and assertion, native replay',
                       'level': 'model_checking',
                       'level_note': 'Bounded: ' + p['bounds'] + ' ' + ' '.join(p['assumptions'] + props.COMMON)})
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. See DESIGN.md.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
