#!/usr/bin/env python3
"""Writes known_findings.json from the list below and /repo's log (development only)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s', 'c26abd4..HEAD'], stdout=subprocess.PIPE, text=True).stdout
P = {
 'd538df3': 'C01', '0641c83': 'C01', 'c9fbf09': 'C01', 'be73d36': 'C01', '1011e00': 'C01 C02 C09 C10', 'd9977f8': 'C01', 'ed0466d': 'C08 C16', '5882983': 'C08', 'c7e6814': 'C08', '06d3dd1': 'C09',
 '1eac845': 'C02', '6a50654': 'C02', 'd7cad25': 'C02', '2598b9d': 'C02 C16', 'ca0de35': 'C02 C13', '7f1f57d': 'C11 C15', '400be52': 'C10 C03', 'ab39564': 'C10', '5928394': 'C03 C06 C10 C11', '542ef5f': 'C11', '238a1fa': 'C10 C11',
 '7f5cab0': 'C12', 'afdae8b': 'C04 C12 C16', '7665288': 'C14', '96b5abc': 'C14', '68b162b': 'C08', '24a51be': 'C07 C08', 'e3c3c79': 'C08', '6e76064': 'C05', '52a395e': 'C05', 'd6ad134': 'C05', 'ce04502': 'C06', '2959427': 'C07',
 'bfa456a': 'C12 C13', '9c3bf8d': 'C22 C13', '3e0fca6': 'C22', '4745a68': 'C17', 'df50623': 'C17', '4864812': 'C20 C21', '1a32cd0': 'C25', '3db09e3': 'C25', '3be75ac': 'C19', '158b341': 'C07', '5e26c71': 'C05', '9211f1b': 'C13', '06c94c5': 'C12 C16',
 '5caa13d': 'C16 C12 C13', '91e3b72': 'C22 C13', 'ef5bea0': 'C16 C14', 'abaf4d6': 'C18', '8311537': 'C25', '3f576d1': 'C25', 'b97669f': 'C20', '6dedf02': 'C20', '5c68e75': 'C22', 'f1668e7': 'C22', 'd20e860': 'C22', '4354ed9': 'C22', '9fdc3f9': 'C13 C12', 'f969b92': 'C12',
 '97679e6': 'C02', 'f270bcd': 'C02', '78bf225': 'C02', '4ea4f3b': 'C10 C11', '7669518': 'C13 C12', '9c5303b': 'C13', 'c0200db': 'C13', '51c2f24': 'C01 C03', 'c592bc1': 'C13 C16', '822f94d': 'C06 C13',
}
FINDINGS = []   # genuine defects that are not repaired: dict(property, key, what)
out = list(FINDINGS)
for l in log.splitlines():
    h, s = l.split('\t', 1)
    if not s.startswith('fix: '): continue
    for p in P[h].split():
        out.append(dict(property=p, status='fixed', commit=h, what=s[5:], entry='fixed: property=%s %s %s' % (p, h, s[5:])))
json.dump({'findings': out}, open(V + '/known_findings.json', 'w'), indent=1); open(V + '/known_findings.json', 'a').write('\n')
