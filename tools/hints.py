#!/usr/bin/env python3
"""Collect from result files of govc (-out) which contracts each contract needs and how long it takes; used only to start them early."""
import json, sys
h = {}
try:
    h = json.load(open('/verif/tools/hints.json'))
except Exception:
    pass
for f in sys.argv[1:]:
    for c in json.load(open(f))['contracts']:
        h[c['name']] = {'used': c.get('used') or [], 'cost': round(c.get('total_secs', c['exec_secs']), 1)}
json.dump(dict(sorted(h.items())), open('/verif/tools/hints.json', 'w'), indent=0)
