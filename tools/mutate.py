#!/usr/bin/env python3
"""Mutation campaign (development only): changes single tokens or drops single statements of
/repo's headers in a scratch copy and lists the changes which no check of the file notices.

    JOBS=3 mutate.py OUT.jsonl COUNT SEED [file...]
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, U = 'include/BlasBooster/Core/', 'include/BlasBooster/Utilities/'
MAP = {
 C+'BinaryFunctors.h': 'C01 C03 C07', C+'SparseMatrix.h': 'C08 C01 C16 C12 C09', C+'DenseMatrix.h': 'C16 C14 C12 C06 C08 C22 C11',
 C+'Storage.h': 'C12 C16 C14 C22 C13', C+'SparseStorage.h': 'C12 C08 C16 C13', C+'Multiplication_Native.h': 'C02 C04 C09',
 C+'AbsoluteValueRangeChecker.h': 'C15 C11', C+'MatrixMultExp.h': 'C03 C02 C04', C+'Norm.h': 'C10 C06', C+'Cursor.h': 'C14 C02 C13',
 C+'BlockSizeGenerator.h': 'C05', C+'MatrixIO.h': 'C23', C+'Threshold.h': 'C07 C06', C+'Dimension.h': 'C16 C12 C22 C14',
 C+'ZeroMatrix.h': 'C16 C12 C10 C11 C08', C+'DynamicMatrixFunctions.h': 'C03 C06', C+'MatrixConverter.h': 'C08 C07 C03', C+'MatrixFiller.h': 'C16',
 C+'MultipleMatrix.h': 'C01 C10 C11 C12 C08', C+'PatternGenerator.h': 'C23', C+'MatrixFileIO.h': 'C17', C+'Transposition.h': 'C09',
 C+'Multiplication_Eigen.h': 'C02', C+'Multiplication_OpenBLAS.h': 'C02 C20', C+'Multiplication_TheBestPolicy.h': 'C02 C03', C+'StripedIterator.h': 'C14',
 C+'Occupation.h': 'C11', C+'OccupationPolicy.h': 'C11', C+'NormPolicy.h': 'C10', C+'GenerateTypeMatrix.h': 'C06', C+'BlockedMatrixGenerator.h': 'C06 C04',
 C+'Copy.h': 'C14 C06', C+'StatisticalErrorInformation.h': 'C25', U+'EqualWithinNumericalAccuracy.h': 'C25', C+'CursorBase.h': 'C14', C+'Parameter.h': 'C14 C12',
 C+'DynamicMatrix.h': 'C03', C+'DynamicMatrixTypeList.h': 'C03', C+'StridedCursorBase.h': 'C14', C+'MatrixBase.h': 'C03 C10', C+'BlockedMatrix.h': 'C06', C+'Memory.h': 'C12',
 U+'Tracker.h': 'C20', U+'ScopedTimer.h': 'C20', U+'TypeList.h': 'C24', U+'exec_if.h': 'C24 C03', U+'exec_if_2dim.h': 'C24', U+'exec_dyn.h': 'C24 C03', U+'exec_dyn_2dim.h': 'C24 C03',
 U+'EnumParser.h': 'C24', U+'TypeName.h': 'C24', U+'FileIO.h': 'C22', U+'BoostSerializePath.h': 'C22', U+'range.h': 'C24 C14', U+'TypeChecker.h': 'C24',
 'include/BlasBooster/MatrixFactory/MatrixGenerator.h': 'C18', 'src/MatrixFactory/MatrixGenerator.cpp': 'C18', 'src/MatrixFactory/MatrixFileImporter.cpp': 'C17', 'include/BlasBooster/MatrixFactory/MatrixFactory.h': 'C17 C18',
 'include/BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h': 'C19', 'src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp': 'C19', 'include/BlasBooster/BlasInterface/Blas.h': 'C19',
}
SWAP = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), 
        (r' / ', ' * '), (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'--', '++'), (r'Rows', 'Columns'), (r'Columns', 'Rows'), (r'\bbegin\b', 'end'), (r'\bend\b', 'begin'), (r'first', 'second'), (r'second', 'first'),
        (r'\bA\b', 'B'), (r'\bB\b', 'A'), (r'\b1\b', '0'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'true', 'false'), (r'false', 'true'), (r'&&|\band\b', '||'), (r'\|\||\bor\b', '&&'), (r'std::min', 'std::max'), (r'std::max', 'std::min'),
        (r'lower', 'upper'), (r'upper', 'lower'), (r'Lower', 'Upper'), (r'Upper', 'Lower'), (r'Inclusive', 'Exclusive'), (r'Exclusive', 'Inclusive'), (r'M1', 'M2'), (r'M2', 'M1'), (r'\bA_\b', 'B_'), (r'\bB_\b', 'A_'),
        (r'double', 'float'), (r'float', 'double'), (r'ColumnMajor', 'RowMajor'), (r'RowMajor', 'ColumnMajor'), (r'!(?=[\w(])', ''), (r'if \((.*)\)', r'if (!(\1))'), (r'if \((.*)\)', r'if (false)'), (r'if \((.*)\)', r'if (true)'),
        (r'return (\w.*);', r'return !(\1);'), (r', 2', ', 3'), (r'std::abs', ''), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\(([\w.]+),\s*([\w.]+)\)', r'(\2,\1)'), (r'Single', 'Double'), (r'Double', 'Single')]

def mutants(path, text):
    ls = text.split('\n'); out = []
    for n, l in enumerate(ls):
        s = l.strip()
        if not s or s.startswith(('#', '//', '*', '/*', 'template', 'typedef', 'using', 'struct', 'class', 'static_assert', 'friend', 'namespace')): continue
        code = l.split('//')[0]
        if 'BlasInterface' in path and 'return ::' not in code: continue
        if re.match(r'(virtual |explicit |inline |friend )?[\w:<>,&* ]+\([^()]*\)( const)?( override)?;', s) and not re.match(r'(return|throw|\w+\()', s) and re.search(r'\w [\w&*]+\(', s) and '=' not in s and '.' not in s: continue  # a declaration
        for a, b in SWAP:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code: out.append((n, l, new))
        if s.endswith(';') and not s.startswith(('return', 'break', 'continue')) and not re.match(r'(const |static |auto |size_t |double |int |bool |typename |std::\w+[<\w>]* \w+|[\w:]+(<.*>)? \w+( = .*)?;|[\w:<>,]+ \w+\()', s) and '(' in s or re.match(r'[\w.*\[\]()>-]+ [+-]?= ', s):
            out.append((n, l, re.match(r'\s*', l).group() + ';' if s.endswith(';') else None))
    return [(n, a, b) for n, a, b in out if b is not None]

def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

free, lock = [], threading.Lock()

def run(m, out):
    f, n, a, b = m
    with lock: w = free.pop()
    p = w + '/' + f
    try:
        ls = open('/repo/' + f).read().split('\n')
        assert ls[n] == a
        ls[n] = b
        open(p, 'w').write('\n'.join(ls))
        # does it change what the compiler sees, and compile?
        res, why = 'survived', ''
        k = sh(['clang++', '-std=c++17', '-w', '-fsyntax-only', '-ftemplate-depth=10000', '-DUSE_BOOST', '-DHAVE_SHARED_POINTER', '-DWITH_OPENBLAS', '-DWITH_EIGEN', '-I' + V + '/shim', '-I' + w + '/include', '-isystem', '/usr/include/eigen3', '-x', 'c++', p])
        if k.returncode: return
        for c in MAP[f].split():
            env = dict(os.environ, VERIF_REPO=w, VRUN_EVIDENCE=w + '.ev', VERIF_SEED='1', VERIF_TIER='quick'); env.pop('VRUN_CACHE', None)
            r = sh(['timeout', '800', 'python3', V + '/tools/vrun.py', 'check', c], env=env)
            if r.returncode == 1: res = 'killed'; why = c; break
            if r.returncode: res = 'no answer'; why = c + ' ' + (re.search(r'error: .*', r.stdout) or re.search(r'.*', '')).group()[:120]; break
        with lock:
            open(out, 'a').write(json.dumps(dict(file=f, line=n + 1, old=a.strip(), new=b.strip(), result=res, by=why)) + '\n')
    finally:
        shutil.copy('/repo/' + f, p)
        with lock: free.append(w)

if __name__ == '__main__':
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(MAP)
    r = random.Random(seed); ms = []
    for f in files:
        if f not in MAP: f = C + f if C + f in MAP else U + f
        t = open('/repo/' + f).read()
        all_ = mutants(f, t); r.shuffle(all_)
        seen = set(); pick = []
        for n, a, b in all_:                      # spread over the lines
            if n in seen and r.random() < 0.8: continue
            seen.add(n); pick.append((f, n, a, b))
        ms += pick if not count else pick[:max(2, int(count * len(t.split('\n')) / 8000))]
    r.shuffle(ms)
    jobs = int(os.environ.get('JOBS', '3'))
    for i in range(jobs):
        w = '/tmp/mut/w%d_%d' % (os.getpid(), i); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        for d in ('include', 'src', 'devel', 'docs', 'settings', 'python', 'cmake', 'CMakeLists.txt'):
            if os.path.exists('/repo/' + d): sh(['cp', '-a', '/repo/' + d, w])
        free.append(w)
    print(len(ms), 'mutants', flush=True)
    with cf.ThreadPoolExecutor(jobs) as p:
        for x in cf.as_completed([p.submit(run, m, out) for m in ms]): x.result()
    for w in free: shutil.rmtree(w)
