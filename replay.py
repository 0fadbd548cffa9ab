#!/usr/bin/env python3-vt
"""Re-runs a recorded counterexample against the natively compiled code: replay.py evidence/X.n.replay.json"""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'irsym'))
import build, props
d = json.load(open(sys.argv[1]))
cfg = None
for t in ('quick', 'thorough'):
    for c in props.PROPS[d['property']]['cfgs'](t):
        if c['name'] == d['config']['name']:
            cfg = dict(c)
cfg.setdefault('sources', ['CORE'])
w = d['reproduced_with'].split()
mode = int(w[1][5:]) if len(w) > 1 else 0
sd = int(w[2][5:]) if len(w) > 2 else 0
ok, txt = build.replay(cfg, d['inputs'], w[0], None, mode, sd)
print(txt)
print('REPRODUCED' if ok else 'not reproduced')
sys.exit(1 if ok else 0)
