#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': NOT_APPLICABLE}
for k in sorted(CHECKS):
    c = CHECKS[k]
    m['checks'].append({'property': k, 'quick_cmd': 'python3 tools/vrun.py check ' + k, 'thorough_cmd': 'env VERIF_TIER=thorough python3 tools/vrun.py check ' + k,
                        'evidence_file': 'evidence/%s.json' % k, 'technique': c['technique'], 'level': c.get('level', 'exploration'), 'level_note': c['level_note']})
m['notes'] = 'No hooks in /repo; the programs in harness/ are built from /repo\'s working tree on every run.'
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
have = set(CHECKS) | {n['property'] for n in NOT_APPLICABLE}
m['not_applicable'] += [{'property': p, 'reason': 'check not built yet'} for p in props if p not in have]
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
