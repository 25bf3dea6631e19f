#!/usr/bin/env python3
"""Writes and validates planted bugs (development only; no check reads seeded/).

    plant.py SPEC.py [id...]     write /verif/seeded/<id> and validate it in a scratch copy
    plant.py --run id...         only run the property's check against it

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], demo=C++ text, needs, breaks,
                              flags='', src='', libs='')...]
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, re, tempfile
V = '/verif'
BASE = 'c26abd4'

def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

DEMO = '''#!/bin/bash
# Builds and runs demo.cpp against the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -g1 %(flags)s -ftemplate-depth=10000 -pthread -DUSE_BOOST -DHAVE_SHARED_POINTER -DWITH_OPENBLAS -DWITH_EIGEN \\
    -I"$d/shim" -Iinclude -isystem /usr/include/eigen3 "$d/demo.cpp" %(src)s -o "$t/demo" %(libs)s || exit 2
cd "$t" && OPENBLAS_NUM_THREADS=1 ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''

def copy(id):
    w = '/tmp/sw/' + id
    shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/sw', exist_ok=True)
    sh(['cp', '-a', '/repo', w])
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/opt/vp/build.sh', w + '/.vpbuild.sh').replace('/repo', w)
        open(w + '/.vp' + f, 'w').write(s)
    if os.path.exists(w + '/_build'): shutil.rmtree(w + '/_build')
    return w

def original(w, patch):
    """The changed lines belong to the original repository."""
    bad = []
    for fd in re.split(r'^diff --git ', patch, flags=re.M)[1:]:
        f = re.search(r'^--- a/(.*)$', fd, re.M).group(1)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? .*?\n((?:[ +\-\\].*\n?)*)', fd, re.M):
            n = int(m.group(1))
            for l in m.group(3).splitlines():
                if l.startswith('-'):
                    b = sh(['git', '-C', w, 'blame', '-l', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f]).stdout
                    if not b.lstrip('^').startswith(ORIG[:39]):
                        bad.append('%s:%d %s' % (f, n, l))
                    n += 1
                elif l.startswith(' '):
                    n += 1
    return bad

ORIG = sh(['git', '-C', '/repo', 'rev-parse', BASE]).stdout.strip()

def check(id, prop, w):
    env = dict(os.environ, VERIF_REPO=w, VRUN_EVIDENCE=w + '.ev', VRUN_CACHE='/tmp/vcache', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    r = sh(['python3', V + '/tools/vrun.py', 'check', prop], env=env)
    hit = ('VIOLATION property=' + prop) in r.stdout and r.returncode == 1
    open('/tmp/w/seed/%s.check' % id, 'w').write(r.stdout)
    shutil.rmtree(w + '.ev', ignore_errors=True)
    why = [l for l in r.stdout.splitlines() if '(' in l and 'times' in l][:2]
    return ('CAUGHT ' if hit else 'MISSED rc=%d ' % r.returncode) + ' | '.join(x.strip()[:110] for x in why)

def one(s, checks=True):
    id, d = s['id'], V + '/seeded/' + s['id']
    w = copy(id)
    try:
        for f, a, b in s['edits']:
            p = w + '/' + f; t = open(p).read()
            if t.count(a) != 1: return id + ': edit matches %d times: %s' % (t.count(a), a[:60])
            open(p, 'w').write(t.replace(a, b))
        patch = sh(['git', '-C', w, 'diff']).stdout
        bad = original(w, patch)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(patch)
        if 'demo_sh' in s: open(d + '/demo.sh', 'w').write(s['demo_sh'])
        else: open(d + '/demo.sh', 'w').write(DEMO % dict(flags=s.get('flags', '-O1'), src=s.get('src', 'src/Utilities/tracker.cpp src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp'), libs=s.get('libs', '-lopenblas -lboost_serialization -lboost_filesystem -lboost_system')))
        open(d + '/demo.cpp', 'w').write(s['demo'])
        shutil.copytree(V + '/shim', d + '/shim')
        for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
        open(d + '/meta.json', 'w').write(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        out = []
        if bad: out.append('NOT ORIGINAL ' + '; '.join(bad))
        r = sh(['bash', w + '/.vptest.sh', w + '/o.json']); j = json.load(open(w + '/o.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        missing = [t for t in stable if t not in j['passed']]
        if missing: out.append('TESTS ' + str(missing) + r.stdout[-800:])
        r = sh(['bash', d + '/demo.sh'], cwd=w)
        out.append('demo patched rc=%d%s' % (r.returncode, '' if r.returncode else '  <-- PASSES'))
        if r.returncode == 2 and 'error' in r.stdout: out.append(r.stdout[:1500])
        r = sh(['bash', d + '/demo.sh'], cwd='/repo')
        out.append('clean rc=%d%s' % (r.returncode, '  <-- FAILS ' + r.stdout[-1500:] if r.returncode else ''))
        if checks: out.append(check(id, s['property'], w))
        return id + ': ' + ', '.join(out)
    finally:
        sh(['rm', '-rf', w])

def rerun(id):
    w = copy(id)
    try:
        m = json.load(open(V + '/seeded/%s/meta.json' % id))
        r = sh(['git', '-C', w, 'apply', V + '/seeded/%s/patch.diff' % id])
        if r.returncode: return id + ': patch does not apply ' + r.stdout[:200]
        return id + ': ' + check(id, m['property'], w)
    finally:
        sh(['rm', '-rf', w])

if __name__ == '__main__':
    jobs = int(os.environ.get('JOBS', '2'))
    with cf.ThreadPoolExecutor(jobs) as p:
        if sys.argv[1] == '--run':
            ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
            fs = [p.submit(rerun, i) for i in ids]
        else:
            ns = {}; exec(open(sys.argv[1]).read(), ns)
            want = sys.argv[2:]
            fs = [p.submit(one, s, not os.environ.get('NOCHECK')) for s in ns['SEEDS'] if not want or s['id'] in want]
        for f in cf.as_completed(fs):
            t = f.result(); print(t, flush=True)
            id = t.split(':')[0]; m = V + '/seeded/%s/meta.json' % id
            if not os.path.exists(m) or ('CAUGHT' not in t and 'MISSED' not in t): continue
            c = V + '/tools/caught.json'; j = json.load(open(c)) if os.path.exists(c) else {}
            k = re.search(r'CAUGHT (.*?)(?:  \(|$)', t)
            j[id] = json.load(open(m))['property'] + ': ' + k.group(1).replace('|', ',')[:70] if k else 'missed'
            json.dump(j, open(c, 'w'), indent=1, sort_keys=True)
