"""C25: element-wise array operations (C++ templates, as instantiated)."""
from contract import *

for _t, _s in (('d', 'R'), ('i', 'I')):
    for _n, _f in (('multiply', lambda a, b: a * b), ('add', lambda a, b: a + b)):
        @kernel('%soperation_%s__call' % (_n, _t), 'C25', dims=(2,))
        def _(k, s=_s, f=_f):
            k.tol, k.atol = 1e-14, 1e-300
            k.more = 10
            for n in ('vdst', 'vsrc'):
                if s == 'I':
                    k.samplers[n] = lambda rng, env: rng.choice([0, 1, -1, 2, rng.randint(-9, 9), rng.randint(-40000, 40000)])
                else:
                    k.samplers[n] = lambda rng, env: rng.choice([0., 1., -1., 2.]) if rng.random() < .3 else rng.uniform(-3, 3) * 10.**(env.setdefault('#e', rng.randint(-20, 12)) if rng.random() < .7 else rng.randint(-20, 12))
            a, b = var('vdst', s), var('vsrc', s)
            k.scalar('vdst', f(a, b))
