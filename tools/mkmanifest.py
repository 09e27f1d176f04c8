#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from aoa import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P39': 'The fixed-point arithmetic lives in the external bonfida-utils crate, not in this repository; it enters the other rules only as a contract.',
}
PEND = 'The static rule for this property is not written yet.'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile tools/check.py tools/aoa/*.py tools/aoa/rules/*.py tools/aoa/ts/*.py', 'checks': [], 'not_applicable': []}
for p in ids:
    if p in registry.RULES:
        t, n = registry.ABOUT[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 tools/check.py ' + p, 'thorough_cmd': 'python3 tools/check.py ' + p,
                            'technique': t, 'level': registry.LEVEL.get(p, 'proof'), 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, PEND)})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks')
