#!/usr/bin/env python3
"""Folds wall times of evidence files into tools/costs.json: gen_costs.py quick|thorough [evidence dir]."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'tools', 'costs.json'); c = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(sys.argv[2] if len(sys.argv) > 2 else os.path.join(V, 'evidence'), '*.json')):
    e = json.load(open(f))
    if e['tier'] != sys.argv[1]: continue
    n = sum(e['coverage'].get('executions_by_deviations') or [])
    c.setdefault(e['property'], {})[sys.argv[1]] = '%d s' % round(e['wall_s']) + (', %s executions' % format(n, ',') if n else '')
json.dump(c, open(p, 'w'), indent=0, sort_keys=True)
