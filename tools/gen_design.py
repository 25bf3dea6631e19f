#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (development only)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
fix = {}
for f in json.load(open(V + '/known_findings.json'))['findings']:
    if f.get('status') == 'fixed': fix.setdefault((f['commit'], f['what']), []).append(f['property'])
t = '\n%d fixes, each one commit in /repo whose message starts "fix:", found by the checks of the properties named.\n\n| commit | properties | what failed or must hold |\n|---|---|---|\n' % len(fix)
t += ''.join('| %s | %s | %s |\n' % (c, ' '.join(p), w) for (c, w), p in fix.items())
s = re.sub(r'<!--FIXES-->.*?<!--/FIXES-->', lambda m: '<!--FIXES-->' + t + '<!--/FIXES-->', s, flags=re.S)
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
ids = sorted(os.listdir(V + '/seeded'))
t = '\n%d planted bugs.\n\n| bug | breaks | needs | caught by |\n|---|---|---|---|\n' % len(ids)
for i in ids:
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    t += '| %s | %s | %s | %s |\n' % (i, m['what_it_breaks'], m['needs'], caught.get(i, '?'))
s = re.sub(r'<!--SEEDS-->.*?<!--/SEEDS-->', lambda m: '<!--SEEDS-->' + t + '<!--/SEEDS-->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
