#!/usr/bin/env python3
"""Writes harness/c19_table.h from the documented function list (run once; the table is committed)."""
import re, sys
secs, cur = {}, None
for l in open(sys.argv[1] if len(sys.argv) > 1 else '/repo/include/BlasBooster/BlasInterface/FunctionList.yml'):
    m = re.match(r'^(\w+):', l)
    if m:
        cur = m.group(1); secs[cur] = []; continue
    m = re.match(r'^ - return_value: (.*)', l)
    if m:
        f = {'ret': m.group(1).strip(), 'args': []}; secs[cur].append(f); continue
    m = re.match(r'^   name: (.*)', l)
    if m:
        f['name'] = m.group(1).strip(); continue
    m = re.match(r'^    - (.*)', l)
    if m:
        f['args'].append(m.group(1).strip())
print('// Written by tools/gen_blas_table.py: the documented BLAS routines and their arguments.')
for sec, macro in (('functions_blas', 'BLAS_TABLE'), ('functions_blas_zdot', 'ZDOT_TABLE'), ('functions_spblas', 'SPBLAS_TABLE')):
    print('#define %s(X) \\' % macro)
    for f in secs[sec]:
        pars = ', '.join('%s* a%d' % (a, i) for i, a in enumerate(f['args']))
        args = ', '.join('a%d' % i for i in range(len(f['args'])))
        print('  X(%s, %s, (%s), (%s)) \\' % (f['ret'], f['name'], pars, args))
    print()
