"""python3-vt check.py <property> : decides one property on /repo's current
source.  Exit 0 (held) / 1 with a VIOLATION line."""
import glob, importlib, json, os, pickle, random, shutil, signal, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import sym
import build, contract, verify
from verify import Verifier, Lib, trials

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
QUICK = TIER != 'thorough'
NW = int(os.environ.get('VERIF_JOBS', '8'))
UNIT_LIMIT = 60 if QUICK else 240
NTRIAL = 6 if QUICK else 60
TOTAL = 560 if QUICK else 3600
SPECS = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, 'specs', '*.py')) if not f.endswith('__init__.py'))

TRUSTED = [
    'the front end and verification-condition generator in /verif/fverif (fparse.py, sym.py, vc.py, verify.py)',
    'm4 (the build\'s own macro expansion is re-run on every check)',
    'z3 4.8.12 / cvc5 for linear and nonlinear side conditions',
    'gfortran compiles the verified source faithfully',
]
ASSUME = [
    'real arithmetic: REAL*8 is treated as the mathematical reals (rounding, overflow, NaN not modelled); '
    'single-precision literals are taken at their exact decimal value',
    'no aliasing between dummy arguments (the Fortran rule callers must obey)',
    'the caller passes arrays with the declared bounds',
    'integer overflow is not modelled',
    'division by an expression that is zero is outside the contract (denominators are assumed nonzero)',
]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------- one task
def solver_atoms(ctx):
    """array reads and real scalars the solver sees in the facts"""
    out, seen = {}, set()

    def go(p):
        for a in p.atoms():
            if a in seen:
                continue
            seen.add(a)
            at = sym.atom(a)
            if at.kind in 'rv':
                out[a] = at
            if at.kind == 'f' and at.args[0] not in ('max', 'abs'):
                continue
            for x in at.args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, sym.Poly) and at.kind != 'r':
                        go(y)
    for f in ctx.facts:
        go(f)
    return list(out.values())


def z3_ints(ctx, names, rng, resid=None):
    """a small model of the facts: values of integer arguments, real scalars
    and array elements (the counterexample to replay), or None"""
    import z3
    s = z3.Solver()
    s.set('timeout', 3000)
    try:
        seen, out = set(), []
        for f in ctx.facts:
            s.add(sym.zcond(f))
            sym.side_facts(f, seen, out)
        for o in out:
            s.add(o)
        if resid is not None and not resid.isconst():
            try:
                s.push()
                s.add(sym.zpoly(resid) != 0)
                sd = []
                sym.side_facts(resid, seen, sd)
                for o in sd:
                    s.add(o)
                if s.check() == z3.unsat:
                    s.pop()
            except (z3.Z3Exception, sym.SymError):
                s.pop()
        ats = solver_atoms(ctx)
        reads = [a for a in ats if a.kind == 'r']
        for n, a in enumerate(reads[:40]):
            for b in reads[:n]:
                if a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
                    s.add(z3.Implies(z3.And([sym.zpoly(x) == sym.zpoly(y) for x, y in zip(a.args[1], b.args[1])] or [z3.BoolVal(True)]),
                                     sym.zatom(a) == sym.zatom(b)))
        vs = {n: sym.zpoly(sym.var(n, 'I')) for n in names}
        for w in (6, 12, 40):
            s.push()
            for v in vs.values():
                s.add(v >= -w, v <= w)
            for v in vs.values():
                s.push()
                s.add(v == rng.randint(-3, 4))
                if s.check() != z3.sat:
                    s.pop()
            # prefer ordinary values for the real inputs
            for a in ats:
                if a.sort == 'I' and a.kind == 'v':
                    continue
                z = sym.zatom(a)
                x = rng.choice([0, 1]) if a.sort == 'I' else round(rng.uniform(-0.2, 1.2), 3)
                for c in (z == x, z3.And(z >= 0, z <= 1), z3.And(z >= -2, z <= 2)):
                    s.push()
                    s.add(c)
                    if s.check() == z3.sat:
                        break
                    s.pop()
            if s.check() == z3.sat:
                m = s.model()

                def num(z):
                    q = m.eval(z, model_completion=True)
                    if z3.is_int_value(q):
                        return q.as_long()
                    if z3.is_rational_value(q):
                        return float(q.as_fraction())
                    return float(q.approx(12).as_fraction())
                fv = {n: num(v) for n, v in vs.items()}
                fv['<reads>'] = {}
                for a in ats:
                    if a.kind == 'v' and a.sort == 'R':
                        fv.setdefault(a.args[0], num(sym.zatom(a)))
                    elif a.kind == 'r':
                        ix = tuple(num(sym.zpoly(sym.P(x))) for x in a.args[1])
                        fv['<reads>'].setdefault(a.args[0], {})[ix] = num(sym.zatom(a))
                return fv
            s.pop()
    except Exception:
        return None
    return None


def intargs(k, unit, ctx):
    mentioned = set()
    for f in ctx.facts:
        for a in f.deps():
            at = sym.atom(a)
            if at.kind == 'v':
                mentioned.add(at.args[0])
    return [n for cn, n in zip(unit.args, k.args) if unit.vars[cn].type == 'I' and unit.vars[cn].dims is None
            and n in mentioned]


def do_task(spec, units, lib, what, post):
    """spec = (name, dim, cfg, thunk)"""
    name, dim, cfg, thunk = spec
    t0 = time.time()
    res = dict(unit=name, dim=dim, cfg=cfg, obls=[], viol=None, evals=0, runs=0, notes=[], nofail=[])
    try:
        k = thunk()
    except Exception as e:
        res['notes'].append('contract: %s' % traceback.format_exc()[-400:])
        res['obls'].append(('setup', name, 'undecided', 'contract does not apply: %s' % e, 0, 1))
        return res
    cc = k.file.endswith('.cc')
    if contract.align(k, units.get(name)) or not cc:
        V = Verifier(k, units, UNIT_LIMIT, what)
        V.run()
    else:
        V = None
        res['obls'].append(('setup', name, 'undecided', 'not in the front end\'s reach or changed signature', 0, 1))
        return fallback(k, res, lib, dim)
    if cc and k.unit and (V.unit is None or V.E is None):
        for o in V.obls:
            res['obls'].append((o.kind, o.label, o.status, o.detail, o.t, 1))
        return fallback(k, res, lib, dim)
    for o in V.obls:
        res['obls'].append((o.kind, o.label, o.status, o.detail, o.t, getattr(o, 'n', 1)))
    res['stats'] = dict(sym.STATS)
    res['ints'] = [a for a in k.assumed] if hasattr(k, 'assumed') else []
    if V.unit is None or V.E is None or len(V.unit.args) != len(k.args):
        return res
    dimsof = V.alloc
    bad = [o for o in V.obls if o.status == 'refuted']
    und = [o for o in V.obls if o.status in ('undecided', 'error')]
    base = SEED * 100003
    n = (NTRIAL if not (bad or und) else 40) * getattr(k, 'more', 1)
    v, e, r, note = trials(k, V.unit, dimsof, lib, range(base, base + n), limit=20)
    res['evals'] += e
    res['runs'] += r
    if note:
        res['notes'].append(note)
    if v is None and bad:
        rng = random.Random(SEED)
        t1 = time.time()
        for o in bad:
            if v or time.time() - t1 > 60:
                break
            covered = False
            if o.ctx is not None:
                for q in range(6):
                    fv = z3_ints(o.ctx, intargs(k, V.unit, o.ctx), rng, o.resid if q % 2 == 0 else None)
                    if fv is None:
                        break
                    v, e, r, note = trials(k, V.unit, dimsof, lib, range(base + 1000 * (q + 1), base + 1000 * (q + 1) + 15),
                                           forced=fv, limit=8, probe=(o.ctx.facts, o.kind))
                    covered = covered or (note or '').startswith('covered')
                    res['evals'] += e
                    res['runs'] += r
                    if v:
                        v['obligation'] = o.label
                        break
            if v is None and not covered:
                v, e, r, note = trials(k, V.unit, dimsof, lib, range(base + 50000, base + 50200), limit=15,
                                       probe=(o.ctx.facts, o.kind) if o.ctx is not None else None)
                res['evals'] += e
                res['runs'] += r
                covered = covered or (note or '').startswith('covered')
            if v is None and not covered and o.kind == 'post' and definite(o):
                res['nofail'].append((o.kind, o.label, o.detail))
    res['viol'] = v
    res['wall'] = time.time() - t0
    return res


def golden(k, dim):
    import cxx
    return cxx.golden_unit(k.unit, contract.SIGS[str(dim)][k.unit])


def fallback(k, res, lib, dim):
    """a C++ function the front end cannot translate: its contract is
    evaluated on executions of the real code only (bounded)"""
    u = golden(k, dim)

    def ev(a):
        if a[0] == 'num':
            return sym.const(a[1])
        if a[0] == 'name':
            return sym.var(a[1], 'I')
        if a[0] == 'bin' and a[1] in '+-*':
            x, y = ev(a[2]), ev(a[3])
            return x + y if a[1] == '+' else x - y if a[1] == '-' else x * y
        raise ValueError(a)
    al = lambda cn: [(ev(a), None if b is None else ev(b)) for a, b in u.vars[cn].dims]
    v, e, r, note = trials(k, u, al, lib, range(SEED * 100003, SEED * 100003 + 20 * NTRIAL), limit=30)
    res['evals'] += e
    res['runs'] += r
    if note:
        res['notes'].append(note)
    res['viol'] = v
    return res


def definite(o):
    """the residual cannot vanish for free values of the inputs"""
    if o.resid is None or o.ctx is None:
        return False
    for f in list(o.ctx.facts) + [o.resid]:
        for a in f.deps():
            if sym.atom(a).kind == 'f':
                return False
    return True


def pool(tasks, fn, nw, total):
    """run tasks in forked children, at most nw at a time"""
    t0 = time.time()
    pend = list(enumerate(tasks))
    run = {}
    out = [None] * len(tasks)
    while pend or run:
        while pend and len(run) < nw and time.time() - t0 < total:
            i, t = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    data = pickle.dumps(fn(t))
                except BaseException:
                    data = pickle.dumps({'crash': traceback.format_exc()[-1500:]})
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(code)
            os.close(w)
            os.set_blocking(r, False)
            run[r] = (pid, i, bytearray(), time.time())
        if pend and not run and time.time() - t0 >= total:
            break
        import select
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            pid, i, buf, ts = run[r]
            while True:
                try:
                    b = os.read(r, 1 << 20)
                except BlockingIOError:
                    b = None
                    break
                if not b:
                    break
                buf.extend(b)
            if b == b'':
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                try:
                    out[i] = pickle.loads(bytes(buf))
                except Exception:
                    out[i] = {'crash': 'worker died'}
        now = time.time()
        for r in list(run):
            pid, i, buf, ts = run[r]
            if now - ts > UNIT_LIMIT * 3 + 120 or now - t0 > total + 120:
                os.kill(pid, signal.SIGKILL)
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                out[i] = {'crash': 'killed: time limit'}
    return out


def cunits(cs, d):
    import cxx
    return [cxx.golden_unit(n, contract.SIGS[str(d)][n]) for n in sorted({c[0] for c in cs if c[1] == d})
            if contract.SIGS[str(d)][n][0].endswith('.cc')]


def known():
    f = os.path.join(VERIF, 'known_findings.jsonl')
    if not os.path.exists(f):
        return []
    return [json.loads(l) for l in open(f) if l.strip() and l.startswith('{')]


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='fverif-')
    try:
        return main2(prop, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main2(prop, t0, tmp):
    for m in SPECS:
        importlib.import_module('specs.' + m)
    allc = contract.all_contracts()
    only = os.environ.get('VERIF_ONLY')
    if prop == 'C12':
        what, cs = ('frame', 'bounds'), [c for c in allc if 'cxx' not in c[3]]
    else:
        what, cs = ('post', 'frame', 'bounds'), [c for c in allc if prop in c[3]]
    if only:
        cs = [c for c in cs if c[0] in only.split(',')]
    units, errs = {}, {}
    for d in (2, 3):
        units[d], _, e = build.load(d, None, {contract.SIGS[str(d)][c[0]][0] for c in cs if c[1] == d})
        errs.update(e)
    contract.extend(units)
    libs, cerrs = {}, {}
    ths = []
    for d in (2, 3):
        need = set()
        for c in cs:
            if c[1] == d:
                u = units[d].get(c[0])
                need.add(u.srcfile if u is not None and not contract.SIGS[str(d)][c[0]][0].endswith('.cc') else contract.SIGS[str(d)][c[0]][0])
        if need:
            so, bad = build.compile_lib(d, need | {f for c in cs if c[1] == d for f in c[5].get('files', ())}, tmp,
                                         cunits(cs, d))
            libs[d] = Lib(so)
            cerrs.update(bad)
    lem = [l for l in contract.LEMMAS if l[0] == prop]
    tasks = [('L', l) for l in lem] + sorted([('K', c) for c in cs], key=lambda t: -t[1][1])

    def run(t):
        if t[0] == 'K':
            name, dim, cfg, props, th, opt = t[1]
            return do_task((name, dim, cfg, th), units[dim], libs[dim], what, True)
        p, name, fn, opt = t[1]
        t1 = time.time()
        try:
            env = contract.LemmaEnv(units, build, tmp, UNIT_LIMIT * 2)
            obls, viol, extra = fn(env)
            return dict(unit='lemma ' + name, dim=0, cfg={}, obls=obls, viol=viol, evals=extra.get('evals', 0),
                        runs=extra.get('runs', 0), notes=extra.get('notes', []), nofail=extra.get('nofail', []),
                        wall=time.time() - t1, stats=dict(sym.STATS))
        except Exception as e:
            return dict(unit='lemma ' + name, dim=0, cfg={}, obls=[('lemma', name, 'undecided', traceback.format_exc()[-600:], 0, 1)],
                        viol=None, evals=0, runs=0, notes=[], nofail=[])
    outs = pool(tasks, run, NW, TOTAL)
    # ---------------------------------------------------------- report
    kf = [f for f in known() if f['property'] == prop and f.get('status') != 'fixed']
    shown = set()
    viols, und, per, notes = [], [], [], []
    nob = ndis = 0
    kinds = {}
    evals = runs = 0
    z3n = z3t = nf = 0
    bounded = []
    rep = os.path.join(VERIF, 'replays')
    for t, r in zip(tasks, outs):
        nm = t[1][0] if t[0] == 'K' else t[1][1]
        if r is None or 'crash' in r:
            und.append('%s: %s' % (nm, (r or {'crash': 'not started: time budget'})['crash']))
            nob += 1
            continue
        cfgs = ','.join('%s=%s' % x for x in sorted(r['cfg'].items()))
        full = '%s %dD%s' % (r['unit'], r['dim'], (' ' + cfgs) if cfgs else '') if r['dim'] else r['unit']
        n = d = 0
        ub = []
        for kind, lab, st, det, tt, cnt in r['obls']:
            n += cnt
            kk = kinds.setdefault(kind, [0, 0])
            kk[0] += cnt
            if st == 'proved':
                d += cnt
                kk[1] += cnt
            else:
                ub.append('%s %s: %s %s' % (kind, lab, st, det[:300]))
        nob += n
        ndis += d
        evals += r['evals']
        runs += r['runs']
        s = r.get('stats') or {}
        z3n += s.get('z3', 0)
        z3t += s.get('z3time', 0)
        nf += s.get('nf', 0)
        per.append(dict(unit=full, obligations=n, discharged=d, runs=r['runs'], wall_s=round(r.get('wall', 0), 2)))
        for x in r['notes']:
            notes.append(full + ': ' + str(x)[-500:])
        v = r['viol']
        failed = [('%s: %s' % (k_, l_)) for k_, l_, st, *_ in r['obls'] if st == 'refuted']
        if v or r['nofail']:
            out = v['output'] if v else r['nofail'][0][1]
            known_ = None
            for f in kf:
                if f['unit'] == r['unit'] and f.get('dim', r['dim']) == r['dim'] and (not f.get('output') or f['output'] == out or out.startswith(f['output'] + ':')) \
                        and all(r['cfg'].get(a) == b for a, b in f.get('cfg', {}).items()):
                    known_ = f
            if known_:
                line = 'KNOWN-FINDING: property=%s %s' % (prop, known_['what'])
                if line not in shown:
                    print(line)
                    shown.add(line)
                continue
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, '%s-%s-%d%s.json' % (prop, r['unit'].replace(' ', '_').replace('/', '_'), r['dim'], ''.join('-' + str(x) for x in r['cfg'].values())))
            json.dump(dict(property=prop, unit=r['unit'], dim=r['dim'], cfg=r['cfg'], failed_obligations=failed,
                           verifier_output=ub, violation=v, nofail=r['nofail'],
                           rerun='cd /verif && python3-vt fverif/replay.py ' + path), open(path, 'w'), indent=1, default=str)
            viols.append((full, out, path, v is None))
        elif ub:
            und.append(full)
            bounded.append(dict(unit=full, undischarged=ub, bound='%d executions of the real code on random inputs satisfying the precondition' % r['runs']))
    for f in sorted(errs):
        notes.append('front end could not read %s: %s' % (f, errs[f][:200]))
    for f in sorted(cerrs):
        notes.append('compile: %s: %s' % (f, cerrs[f][:300]))
    # units with no contract at all
    uncovered = []
    if prop == 'C12':
        have = {(c[0], c[1]) for c in allc}
        for d in (2, 3):
            for u in units[d].values():
                if (u.name, d) not in have and u.name not in sum((list(c[5].get('covers', ())) for c in allc), []):
                    uncovered.append('%s %dD' % (u.name, d))
    ev = dict(property=prop, tier='quick' if QUICK else 'thorough', seed=SEED, level='proof',
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='python3-vt fverif/check.py %s' % prop,
                  trusted_base=TRUSTED,
                  obligations_by_kind={k: {'generated': a, 'discharged': b} for k, (a, b) in sorted(kinds.items())},
                  functions_under_contract=len({(p_['unit'].split(' ')[0], p_['unit'].split(' ')[1] if ' ' in p_['unit'] else '') for p_ in per}),
                  backends={'normal-form rewriting steps': nf, 'z3 queries': z3n, 'z3 seconds': round(z3t, 1)},
                  per_function=per, undecided_and_bounded=bounded, not_run=[u for u in und if ': ' in u],
                  units_without_contract=uncovered,
                  real_code_executions=runs, contract_evaluations_on_real_code=evals, notes=notes,
                  known_findings=sorted(shown)),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, %d undecided units, %d runs of the real code, %.0f s'
          % (prop, len(tasks), nob, ndis, len(und), runs, time.time() - t0))
    for u in und:
        print('  undecided (bounded stand-in):', u)
    if os.environ.get('VERBOSE'):
        for b in bounded:
            print(json.dumps(b)[:1500])
        for n in notes:
            print('  note', n)
        for p_ in sorted(per, key=lambda x: -x['wall_s'])[:10]:
            print('  slow', p_['unit'], p_['wall_s'])
        print('  uncovered', uncovered)
    for full, out, path, nf_ in viols:
        print('  violated: %s: %s' % (full, out))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if nf_ else ''))
    return 1 if viols else 0


if __name__ == '__main__':
    sys.exit(main())
