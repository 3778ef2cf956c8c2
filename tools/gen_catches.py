#!/usr/bin/env python3
"""Folds the result log of tools/seed.py into tools/catches.json (last line per planted bug counts)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'tools', 'catches.json'); c = json.load(open(p)) if os.path.exists(p) else {}
for l in open(sys.argv[1] if len(sys.argv) > 1 else '/tmp/sd/results.txt'):
    f = l.rstrip('\n').split('\t')
    m = os.path.join(V, 'seeded', f[0], 'meta.json')
    if not os.path.exists(m): continue
    prop = json.load(open(m))['property']
    if f[1] == 'CAUGHT': c[f[0]] = 'caught by ' + prop
    elif f[1] == 'MISSED': c[f[0]] = 'missed by ' + prop
c = {k: v for k, v in c.items() if os.path.exists(os.path.join(V, 'seeded', k, 'meta.json'))}
json.dump(c, open(p, 'w'), indent=0, sort_keys=True)
