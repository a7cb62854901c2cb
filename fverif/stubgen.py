"""Headers generated on every run: forwarding headers to the stand-in of SAMRAI
(stubs/SAMRAI/mini.h) and the Fortran name mangling headers cmake would write,
from the symbol lists in the current CMakeLists.txt."""
import atexit, glob, os, re, shutil, tempfile
import build

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
_dir = None


def directory():
    global _dir
    if _dir and os.path.isdir(_dir):
        return _dir
    _dir = tempfile.mkdtemp(prefix='fverif_stub_')
    pid = os.getpid()
    atexit.register(lambda d=_dir: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    src = os.path.join(build.REPO, 'source')
    inc = set()
    for f in glob.glob(src + '/*.cc') + glob.glob(src + '/*.h'):
        inc |= set(re.findall(r'^\s*#\s*include\s*[<"](SAMRAI/[^>"]+)[>"]', open(f, errors='replace').read(), re.M))
    for i in sorted(inc):
        if not os.path.exists(os.path.join(STUBS, i)):
            p = os.path.join(_dir, i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write('#include "SAMRAI/mini.h"\n')
    cm = open(os.path.join(build.REPO, 'CMakeLists.txt'), errors='replace').read()
    for h, body in re.findall(r'FortranCInterface_HEADER\s*\(\s*(\S+)(.*?)\)', cm, re.S):
        syms = body.split('SYMBOLS', 1)[-1].split()
        with open(os.path.join(_dir, h), 'w') as f:
            f.write('#pragma once\n')
            for s in syms:
                f.write('#define %s %s_\n' % (s, s.lower()))
    return _dir
