"""python3-vt replay.py <file>: runs the recorded input on the real code again"""
import importlib, json, os, random, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np
import build, contract, verify, check
r = json.load(open(sys.argv[1]))
for m in check.SPECS:
    importlib.import_module('specs.' + m)
print('failed obligations:', *r['failed_obligations'], sep='\n  ')
v = r['violation']
if not v or 'input' not in v or r['dim'] == 0:
    print(json.dumps(r, indent=1)[:4000])
    sys.exit(1)
tmp = tempfile.mkdtemp(prefix='fverif-')
try:
    units, _, _ = build.load(r['dim'], None)
    contract.extend({r['dim']: units})
    th = [c for c in contract.all_contracts() if c[0] == r['unit'] and c[1] == r['dim'] and c[2] == r['cfg']][0]
    k = th[4]()
    u = units.get(r['unit'])
    if k.file.endswith('.cc'):
        if not contract.align(k, u):
            u = check.golden(k, r['dim'])
        so, bad = build.compile_lib(r['dim'], {k.file}, tmp, check.cunits([th], r['dim']))
    else:
        so, bad = build.compile_lib(r['dim'], {u.srcfile}, tmp)
    inp = v['input']
    ty = {n: u.vars[cn].type for cn, n in zip(u.args, k.args)}
    arrays = {n: (np.array(a['values_fortran_order'], dtype=np.int32 if ty[n] == 'I' else float).reshape([h - l + 1 for l, h in a['bounds']], order='F'),
                  [tuple(x) for x in a['bounds']]) for n, a in inp['arrays'].items()}
    bad, n = verify.check_run(k, u, verify.Lib(so), inp['scalars'], arrays, inp['strings'], random.Random(1), 10**9)
    print('replayed:', bad or 'no violation now')
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
