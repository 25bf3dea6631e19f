#!/usr/bin/env python3
"""Builds the monitored programs of one property from /repo's working tree, runs them,
collects what the monitors saw and decides.

    vrun.py check C01            (VERIF_SEED, VERIF_TIER from the environment)
    vrun.py replay FILE          (FILE as named by a VIOLATION line)

Exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: no answer.
"""
import concurrent.futures as cf
import fnmatch, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))

DEFS = ['-DUSE_BOOST', '-DHAVE_SHARED_POINTER', '-DWITH_OPENBLAS', '-DWITH_EIGEN']
INC = ['-I' + VERIF + '/harness', '-I' + VERIF + '/shim', '-I' + REPO + '/include', '-isystem', '/usr/include/eigen3']
STD = ['-std=c++17', '-ftemplate-depth=10000', '-w', '-pthread']
LIBS = ['-lopenblas', '-lboost_serialization', '-lboost_filesystem', '-lboost_system', '-lpthread']

VARIANTS = {
    # compiler, flags
    'asan': ['clang++', '-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'],
    'asan1': ['clang++', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'],
    'gasan': ['g++', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'tsan': ['clang++', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'plain': ['g++', '-O1', '-g1'],
    # the flags the repository itself uses for its release build
    'release': ['g++', '-O3', '-funroll-loops', '-ffast-math', '-mfpmath=sse', '-march=core2', '-mtune=core2', '-mavx', '-mfma', '-g1'],
}

ENV = {
    'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=97:halt_on_error=1:detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=127:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:check_initialization_order=1:handle_abort=1:print_summary=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=97',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:second_deadlock_stack=1',
    'LC_ALL': 'C',
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class Builder:
    def __init__(self, tmp, pool):
        self.tmp, self.pool, self.done = tmp, pool, {}

    def compile(self, src, variant, extra=(), tag=''):
        """Schedules a compilation once; returns a future with the object's path."""
        key = (src, variant, tuple(extra))
        if key not in self.done:
            name = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
            obj = os.path.join(self.tmp, name + '.o')
            cmd = VARIANTS[variant] + STD + DEFS + INC + list(extra) + ['-c', src, '-o', obj]
            self.done[key] = self.pool.submit(self._run, cmd, obj, src)
        return self.done[key]

    def _run(self, cmd, out, what):
        cache = os.environ.get('VRUN_CACHE')     # development only, never set in a check
        key = None
        if cache:
            h = hashlib.sha1(repr([c for c in cmd if c != out]).encode())
            pre = subprocess.run([c for c in cmd[:cmd.index('-c')]] + ['-E', '-P', cmd[cmd.index('-c') + 1]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            h.update(pre.stdout)
            key = os.path.join(cache, h.hexdigest())
            if os.path.exists(key):
                shutil.copy(key, out)
                return out
        r = sh(cmd)
        if r.returncode and re.search(r'PLEASE submit a bug report|internal compiler error|Segmentation fault|[Kk]illed', r.stdout):
            r = sh(cmd)
        if r.returncode:
            raise BuildError('building %s failed:\n%s\n%s' % (what, ' '.join(cmd), r.stdout[-6000:]))
        if cache:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(out, key + '.tmp%d' % os.getpid())
            os.rename(key + '.tmp%d' % os.getpid(), key)
        return out

    def program(self, unit):
        v, d = unit.get('variant', 'asan'), list(unit.get('defs', []))
        src = os.path.join(VERIF, 'harness', unit['src'])
        objs = [self.compile(src, v, d)]
        for o in unit.get('objs', ['tracker', 'blas']):
            if o == 'tracker':
                objs.append(self.compile(REPO + '/src/Utilities/tracker.cpp', v, [x for x in d if 'TRACKER' in x]))
            elif o == 'blas':
                objs.append(self.compile(REPO + '/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp', v, []))
            elif o.startswith('repo:'):
                objs.append(self.compile(os.path.join(REPO, o[5:]), v, d))
            else:
                objs.append(self.compile(os.path.join(VERIF, 'harness', o), v, d))
        exe = os.path.join(self.tmp, unit['name'])
        cmd = VARIANTS[v] + ['-pthread'] + [o.result() for o in objs] + unit.get('link', []) + unit.get('libs', LIBS) + ['-o', exe]
        r = sh(cmd)
        if r.returncode:
            r = sh(cmd)   # the linker sometimes dies when many run at once
        if r.returncode:
            raise BuildError('linking %s failed:\n%s' % (unit['name'], r.stdout[-4000:]))
        return exe


FRAME = re.compile(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\()', re.M)
TSANFRAME = re.compile(r'^\s*#\d+ (.+?) (?:/|\()', re.M)


def shorten(f):
    """Function name without template arguments and parameters."""
    out, depth = '', 0
    f = f.replace('operator<<', 'operator_shl').replace('operator>>', 'operator_shr').replace('operator<', 'operator_lt').replace('operator>', 'operator_gt').replace('operator->', 'operator_arrow')
    f = f.replace('operator()', 'operator_call').replace('operator ()', 'operator_call').replace('(anonymous namespace)', 'anon')
    for c in f:
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif depth == 0:
            out += c
    return out.strip()


def crash_kind(err, rc):
    """What ended the process: a line for the report and a stable key."""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    kind = None
    if m:
        kind = 'asan ' + m.group(1)
    if not kind:
        m = re.search(r'runtime error: (.*)', err)
        if m:
            t = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+-]*', 'N', m.group(1))
            t = re.sub(r"'[^']*'", "T", t)
            kind = 'ubsan ' + t.strip()
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([\w ()-]+?)(?: \(pid|$)', err, re.M)
        if m:
            kind = 'tsan ' + m.group(1).strip()
    if not kind:
        m = re.search(r"Assertion `(.*?)' failed", err)
        if m:
            kind = 'assertion ' + m.group(1)
    if not kind:
        m = re.search(r'ERROR: AddressSanitizer: (.*)', err)
        kind = ('asan ' + m.group(1)[:60]) if m else ('hang' if rc == 78 else 'killed by signal %d' % -rc if rc < 0 else 'ended with status %d' % rc)
    return kind


def crash_site(err):
    for m in list(FRAME.finditer(err)) + list(TSANFRAME.finditer(err)):
        if 'BlasBooster' in m.group(1) or '/repo/' in m.group(0):
            s = shorten(m.group(1))
            if s.startswith('vh::'):
                continue
            return s
    return ''


class Runner:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.wall = float(os.environ.get('VRUN_WALL', '780' if tier == 'quick' else '20000'))
        self.t0 = time.time()

    def env(self, unit, work):
        e = dict(os.environ)
        e.update(ENV)
        for k, v in unit.get('env', {}).items():
            e[k] = (e[k] + ':' + v) if k.endswith('_OPTIONS') else v
        if unit.get('reuse'):   # freed memory is handed out again at once: nothing may be remembered by address
            e['ASAN_OPTIONS'] += ':quarantine_size_mb=0:thread_local_quarantine_size_kb=0'
        e['TMPDIR'] = work
        e['VH_WORK'] = work
        return e

    def run(self, unit, exe, extra=()):
        """Runs one program to its end, resuming after sanitizer stops."""
        res = {'unit': unit['name'], 'evaluations': 0, 'checks': 0, 'distinct': 0, 'counters': {}, 'samples': [], 'violations': []}
        work = tempfile.mkdtemp(prefix='run-' + unit['name'] + '.', dir=self.tmp)  # no path of a program is a prefix of it
        marker, out = os.path.join(work, 'marker'), os.path.join(work, 'out.json')
        scale = unit.get('scale', 1.0) * (unit.get('thorough', 12.0) if self.tier == 'thorough' else 1.0) * float(os.environ.get('VRUN_SCALE', '1'))
        seed = self.seed + 1000003 * unit.get('copy', 0)
        base = [exe, '--seed', str(seed), '--scale', '%.6g' % scale, '--marker', marker, '--out', out] + unit.get('args', [])
        if self.tier == 'thorough':
            base.append('--thorough')
        start, restarts, percase, hung = list(extra), 0, {}, set()
        while True:
            for p in (out,):
                if os.path.exists(p):
                    os.unlink(p)
            left = self.wall - (time.time() - self.t0)
            if left < 5:
                raise BuildError('no time left for %s' % unit['name'])
            errf = os.path.join(work, 'stderr')
            with open(errf, 'w') as ef:
                try:
                    p = subprocess.Popen(base + start, stdout=subprocess.DEVNULL, stderr=ef, cwd=work, env=self.env(unit, work), start_new_session=True)
                    p.wait(timeout=left)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    raise BuildError('%s did not finish in time at %s' % (unit['name'], open(marker, 'rb').read().split(b'\0')[0]))
            err = open(errf, errors='replace').read()
            if p.returncode == 0 and os.path.exists(out):
                self.merge(res, json.load(open(out)))
                break
            mark = open(marker, 'rb').read().split(b'\0')[0].decode(errors='replace').split('\t') if os.path.exists(marker) else []
            if len(mark) < 3 or not mark[0]:
                raise BuildError('%s ended with status %s before its first case:\n%s' % (unit['name'], p.returncode, err[-3000:]))
            if os.path.exists(out):          # finished, then ended badly
                self.merge(res, json.load(open(out)))
            else:                            # verdicts of the cases before the stop
                for m in re.finditer(r'^FAIL (.*?) \[(.*?):(\d+)\] (.*)$', err, re.M):
                    self.add(res, m.group(1), m.group(2) + ':' + m.group(3), m.group(4))
                res['evaluations'] += 1
            group, index, what = mark[0], mark[1], mark[2]
            kind, site = crash_kind(err, p.returncode), crash_site(err)
            if p.returncode == 78 and (group, index) not in hung:   # once more before calling it a hang
                hung.add((group, index))
                start = ['--from', '%s:%s' % (group, index)]
                continue
            key = 'stop: %s%s%s' % (what or group, ': ' + kind, ' in ' + site if site else '')
            self.add(res, key, '%s:%s' % (group, index), err[-3500:])
            if group == 'end' or extra:
                break
            restarts += 1
            percase[group] = percase.get(group, 0) + 1
            if restarts > 40:
                res['gave_up'] = True
                break
            start = ['--from', '%s:%d' % (group, int(index) + 1 if percase[group] < 4 else 10**12)]
        shutil.rmtree(work, ignore_errors=True)
        for v in res['violations']:
            v['seed'], v['reuse'], v['scale'] = seed, bool(unit.get('reuse')), unit.get('scale', 1.0)
        return res

    @staticmethod
    def add(res, key, where, detail, n=1):
        for v in res['violations']:
            if v['key'] == key:
                v['n'] += n
                return
        res['violations'].append({'key': key, 'n': n, 'where': where, 'detail': detail, 'unit': res['unit']})

    def merge(self, res, j):
        for k in ('evaluations', 'checks', 'distinct'):
            res[k] += j[k]
        for k, v in j['counters'].items():
            res['counters'][k] = res['counters'].get(k, 0) + v
        res['samples'] += j['samples']
        for v in j['violations']:
            self.add(res, v['key'], v['where'], v['detail'], v['n'])


def known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))['findings'] if f['property'] == prop]


def matches(f, v):
    if not fnmatch.fnmatchcase(v['key'], f['key'].replace('[', '[[]')):
        return False
    return True


def check(prop):
    from checks import CHECKS
    c = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    base = os.environ.get('TMPDIR', '/tmp')
    tmp = tempfile.mkdtemp(prefix='vh-%s-' % prop, dir=base)
    os.chmod(tmp, 0o755)
    try:
        results = []
        with cf.ThreadPoolExecutor(8) as cpool, cf.ThreadPoolExecutor(8) as lpool:
            b, r = Builder(tmp, cpool), Runner(prop, tier, seed, tmp)
            units = [u for u in c['units'] if tier == 'thorough' or not u.get('thorough_only')]
            only = os.environ.get('VRUN_UNITS')
            if only:
                units = [u for u in units if fnmatch.fnmatch(u['name'], only)]
            for u in units:         # start all compilations first
                v, d = u.get('variant', 'asan'), list(u.get('defs', []))
                b.compile(os.path.join(VERIF, 'harness', u['src']), v, d)
            progs = [lpool.submit(b.program, u) for u in units]

            def go(u, f):
                return r.run(u, f.result())
            with cf.ThreadPoolExecutor(8) as rpool:      # each program several times, with different seeds
                copies = max(1, 8 // len(units))
                runs = [(dict(u, copy=k, reuse=k % 2 == 1), f) for k in range(8) for u, f in zip(units, progs) if k < u.get('copies', copies)]
                # a program that runs once has a short second run at reused addresses
                runs += [(dict(u, copy=1, reuse=True, scale=u.get('scale', 1.0) * 0.25), f) for u, f in zip(units, progs) if u.get('copies', copies) == 1]
                futs = [rpool.submit(go, u, f) for u, f in runs]
                results = [f.result() for f in futs]
    except BuildError as e:
        print('NO ANSWER property=%s: %s' % (prop, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': c.get('level', 'exploration')}
    counters, samples, viols = {}, [], {}
    for x in results:
        for k, v in x['counters'].items():
            counters[k] = counters.get(k, 0) + v
        samples += x['samples']
        for v in x['violations']:
            w = viols.setdefault(v['key'], dict(v))
            if w is not v and w['unit'] != v['unit']:
                w['n'] += v['n']
    findings = known(prop)
    new, hit = [], set()
    for key, v in sorted(viols.items()):
        f = [i for i, f in enumerate(findings) if f.get('status') != 'fixed' and matches(f, v)]
        if f:
            hit.add(f[0])
        else:
            new.append(v)
    ev['coverage'] = {
        'evaluations': sum(x['evaluations'] for x in results),
        'distinct_nontrivial': sum(x['distinct'] for x in results),
        'rule': c['rule'],
        'samples': samples[:40],
        'monitor_questions': sum(x['checks'] for x in results),
        'observed': counters,
        'programs': {n: sum(x['evaluations'] for x in results if x['unit'] == n) for n in sorted({x['unit'] for x in results})},
        'runs_with_different_seeds': len(results),
        'runs_at_reused_addresses': sum(1 for u, _ in runs if u.get('reuse')),
    }
    ev['assumptions'] = c.get('assumptions', [])
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = len(new)
    ev['known_findings_seen'] = [findings[i]['key'] for i in sorted(hit)]
    evdir = os.environ.get('VRUN_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for i, f in enumerate(findings):
        if f.get('status') != 'fixed' and (i in hit or f.get('always')):
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    missing = [k for k in c.get('must_observe', []) if not counters.get(k)]
    if new:
        for v in new[:12]:
            name = 'replay-%s-%s.json' % (prop, hashlib.sha1(v['key'].encode()).hexdigest()[:10])
            path = os.path.join(evdir, name)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'unit': v['unit'], 'where': v['where'], 'seed': v['seed'], 'reuse': v['reuse'], 'scale': v['scale'], 'tier': tier,
                           'key': v['key'], 'detail': v['detail'], 'times': v['n'],
                           'replay': 'python3 tools/vrun.py replay ' + path}, f, indent=1)
            print('  %s  (%d times, first at %s %s)\n    %s' % (v['key'], v['n'], v['unit'], v['where'], v['detail'][:600].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        if len(new) > 12:
            print('  and %d more kinds' % (len(new) - 12))
        return 1
    if missing and not only:
        print('NO ANSWER property=%s: nothing observed for %s' % (prop, ', '.join(missing)))
        return 2
    print('held: property=%s %d cases, %d distinct, %d questions, %.0f s' % (prop, ev['coverage']['evaluations'],
          ev['coverage']['distinct_nontrivial'], ev['coverage']['monitor_questions'], ev['wall_s']))
    return 0


def replay(path):
    from checks import CHECKS
    j = json.load(open(path))
    unit = [u for u in CHECKS[j['property']]['units'] if u['name'] == j['unit']][0]
    tmp = tempfile.mkdtemp(prefix='vh-replay-')
    try:
        with cf.ThreadPoolExecutor(8) as pool:
            exe = Builder(tmp, pool).program(unit)
        unit = dict(unit, reuse=j.get('reuse', False), scale=j.get('scale', unit.get('scale', 1.0)))
        # the case alone, then, as it may need what the cases before it left behind, the whole run
        for extra in (['--only', j['where']], []):
            r = Runner(j['property'], j['tier'], j['seed'], tmp).run(unit, exe, extra)
            hits = [v for v in r['violations'] if v['key'] == j['key']]
            for v in hits or r['violations']:
                print('%s\n%s' % (v['key'], v['detail']))
            same = bool(hits)
            if same:
                break
            print('not by the case alone' if extra else 'not by the whole run')
        print('reproduced' if same else 'not reproduced')
        return 1 if same else 0
    except BuildError as e:
        print(e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
