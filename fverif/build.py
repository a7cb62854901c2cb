"""Loads the current sources (m4 expanded by ourselves) and builds a shared
library of the real kernels for replay."""
import glob, os, re, subprocess, shutil
import fparse

REPO = os.environ.get('AMPE_REPO', '/repo')
FD = os.path.join(REPO, 'source', 'fortran')
COMMON = ['functions.f', 'quat.f']


def files(dim):
    return COMMON + sorted('%dd/%s' % (dim, os.path.basename(x)) for x in glob.glob('%s/%dd/*.m4' % (FD, dim)))


def load(dim, tmp, cwant=None):
    """units of all kernels of that dimension; files that cannot be parsed are
    reported, not fatal"""
    units, texts, errs = {}, {}, {}
    for f in files(dim):
        try:
            u, t = fparse.load(os.path.join(FD, f), FD)
        except Exception as e:
            errs[f] = '%s: %s' % (type(e).__name__, e)
            continue
        for n, x in u.items():
            x.srcfile = f
        units.update(u)
        texts[f] = t
    import cxx
    u, e = cxx.load(dim, cwant)
    units.update(u)
    errs.update(e)
    return units, texts, errs


FLAGS = ['-O1', '-fcheck=bounds', '-finit-real=nan', '-ffixed-line-length-72', '-w', '-fPIC']


def called(path):
    txt = open(path, errors='replace').read()
    return set(re.findall(r'\bcall\s+(\w+)', txt, re.I))


def closure(dim, want):
    """files defining the subroutines the wanted files call"""
    defs = {}
    for f in files(dim):
        for n in re.findall(r'^\s+subroutine\s+(\w+)', open(os.path.join(FD, f), errors='replace').read(), re.I | re.M):
            defs[n.lower()] = f
    want, todo = set(want), list(want)
    for f in list(want):
        if f.endswith('.cc'):
            # C++ files: the kernels they name
            want.discard(f)
            todo.remove(f)
            try:
                ws = {w.lower() for w in re.findall(r'\w+', open(os.path.join(REPO, 'source', f), errors='replace').read())}
            except OSError:
                continue
            for n in ws & defs.keys():
                if defs[n] not in want:
                    want.add(defs[n])
                    todo.append(defs[n])
    while todo:
        f = todo.pop()
        if not os.path.exists(os.path.join(FD, f)):
            continue
        for n in called(os.path.join(FD, f)):
            g = defs.get(n.lower())
            if g and g not in want:
                want.add(g)
                todo.append(g)
    return want


def compile_lib(dim, need, tmp, cunits=()):
    """compile the m4 output of the needed files (plus functions.f, quat.f)"""
    d = os.path.join(tmp, '%dd' % dim)
    os.makedirs(d, exist_ok=True)
    procs, objs = [], []
    want = closure(dim, set(need) | {u.srcfile for u in cunits} | set(COMMON))
    for f in files(dim):
        if f not in want:
            continue
        base = os.path.basename(f).split('.')[0]
        src = os.path.join(d, base + '.f')
        txt = fparse.run_m4(os.path.join(FD, f), FD) if f.endswith('.m4') else open(os.path.join(FD, f)).read()
        open(src, 'w').write(txt)
        o = os.path.join(d, base + '.o')
        objs.append(o)
        procs.append((f, subprocess.Popen(['gfortran', *FLAGS, '-c', src, '-o', o, '-I', FD, '-I', os.path.join(FD, '%dd' % dim)],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    if cunits:
        import cxx
        for f, o, p in cxx.compile_units(dim, cunits, d):
            objs.append(o)
            procs.append((f, p))
    bad = {}
    for f, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            bad[f] = out.decode(errors='replace')[-2000:]
    so = os.path.join(d, 'libk%d.so' % dim)
    objs = [o for o in objs if os.path.exists(o)]
    if cunits:
        # what the files under replay need from files that are not linked:
        # type descriptions are blank, functions end the run with status 77
        nm = lambda fs, *o: [l.split() for l in subprocess.run(['nm', '-P', *o] + fs, capture_output=True, text=True).stdout.splitlines()]
        syms = [l for l in nm(objs) if len(l) > 1]
        lib = subprocess.run(['gcc', '-print-file-name=libstdc++.so.6'], capture_output=True, text=True).stdout.strip()
        defd = {l[0] for l in syms if l[1] not in 'Uwv'} | {l[0].split('@')[0] for l in nm([lib], '-D', '--defined-only') if l}
        und = sorted({l[0] for l in syms if l[1] == 'U' and l[0].startswith('_Z')} - defd)
        src = os.path.join(d, 'undefined.c')
        with open(src, 'w') as g:
            g.write('#include <unistd.h>\nvoid verif_undefined(void) { _exit(77); }\n')
            for n in und:
                if re.match(r'_ZT[IVS]', n):
                    g.write('long %s[64] __attribute__((weak));\n' % n)
                else:
                    g.write('void %s(void) __attribute__((weak, alias("verif_undefined")));\n' % n)
        if subprocess.run(['gcc', '-fPIC', '-c', src, '-o', src + '.o']).returncode == 0:
            objs.append(src + '.o')
    r = subprocess.run(['gfortran', '-shared', '-o', so, '-Wl,--allow-shlib-undefined', '-Wl,-z,lazy'] + objs + ['-lstdc++'], capture_output=True, text=True)
    if r.returncode:
        bad['link'] = r.stderr[-2000:]
    return so, bad
