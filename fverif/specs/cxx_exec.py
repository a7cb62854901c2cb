"""Bounded stand-ins for the constructors and readers of the classes of
cxx_classes (regular expressions, string maps and input databases are outside
the verifier's reach): the real functions run on generated inputs."""
import math
from contract import *

READDB = '''
#include "SAMRAI/tbox/Database.h"
#include <cstdio>
#include <memory>
#include <sstream>
using namespace SAMRAI;
// database: lines "n key count values" / "s key text" / "b key" ... "e"
static std::shared_ptr<tbox::Database> readdb(std::istream& in) {
   auto db = std::make_shared<tbox::Database>();
   std::string c, k;
   while (in >> c) {
      if (c == "e") break;
      in >> k;
      if (c == "n") { int m; in >> m; std::vector<double> v(m); for (auto& x : v) in >> x; db->num[k] = v; }
      else if (c == "s") { std::string t; in >> t; db->str[k] = t; }
      else db->sub[k] = readdb(in);
   }
   return db;
}
'''


# ---------------------------------------------------------------- C27
EVENT = READDB + '''
#include "EventInterval.h"
int main() {
   int cases; std::cin >> cases;
   while (cases--) {
      int have, steps, inc1, inc2; double dv; std::string dt;
      std::cin >> have >> dv >> dt >> inc1 >> inc2;
      std::shared_ptr<tbox::Database> db;
      if (have) db = readdb(std::cin);
      EventInterval e(db, "Event", dv, dt, inc1 != 0, inc2 != 0);
      printf("%d", (int)e.isActive());
      std::cin >> steps;
      while (steps--) {
         char c; int n; double t; std::cin >> c >> n >> t;
         if (c == 'i') printf(" %d", (int)e.includeInitial(t));
         if (c == 'f') printf(" %d", (int)e.includeFinal(t));
         if (c == 'h') printf(" %d", (int)e.hasIntervalPassed(n, t));
         if (c == 'o') printf(" %d", (int)e.eventOccurredAtTime(t));
         if (c == 'a') printf(" %d", (int)e.isActive());
      }
      printf("\\n"); fflush(stdout);
   }
}
'''


class EventModel:
    """the property, as a state machine"""

    def __init__(self, db, dv, dt, inc1, inc2):
        typ = dt
        self.first, self.last = inc1, inc2
        step, time = int(dv + 0.5), dv
        if db is not None:
            typ = db.get('interval_type', typ)
            self.first = bool(db.get('include_first_step', inc1))
            self.last = bool(db.get('include_last_step', inc2))
        self.cyc = typ in ('step', 'cycle')
        if db is not None and 'interval' in db:
            step, time = int(db['interval']), db['interval']
        self.n, self.dt = (step, None) if self.cyc else (None, time)
        self.active = (self.n if self.cyc else self.dt) > 0
        self.prev = self.event = -1.

    def occurred(self, t):
        return self.active and self.event == t

    def go(self, c, n, t):
        if c == 'a':
            return self.active
        if c == 'o':
            return self.occurred(t)
        f = self.active and not self.occurred(t)
        if f:
            if c == 'i':
                f = self.first
            elif c == 'f':
                f = self.last
            elif self.first and self.prev < 0:
                f = True
            elif self.cyc:
                f = math.fmod(n, self.n) == 0
            else:
                f = self.prev >= 0 and int(t / self.dt) > int(self.prev / self.dt)
        self.prev = t
        if f:
            self.event = t
        return f


def dbtext(db):
    o = []
    for k, v in db.items():
        if isinstance(v, dict):
            o.append('b %s %s' % (k, dbtext(v)))
        elif isinstance(v, str):
            o.append('s %s %s' % (k, v))
        else:
            v = v if isinstance(v, (list, tuple)) else [v]
            o.append('n %s %d %s' % (k, len(v), ' '.join('%.17g' % float(x) for x in v)))
    return '\n'.join(o) + '\ne\n'


@bounded('C27', 'event histories from the input database')
def _(env, rng, check, mult):
    exe = env.program('event', ['EventInterval.cc'], EVENT)
    if not exe:
        return 0
    cases = []
    for _ in range(300 * mult):
        dv, dt = rng.choice([0., 1., 2., 3., 0.5, 10., 2.4999, 2.5, -1.]), rng.choice(['step', 'cycle', 'time', 'dt'])
        inc = rng.random() < .5, rng.random() < .5
        top = None
        db = None
        if rng.random() < .8:
            top = {}
            if rng.random() < .85:
                db = top['Event'] = {}
                if rng.random() < .6:
                    db['interval_type'] = rng.choice(['step', 'cycle', 'time', 'dt'])
                if rng.random() < .8:
                    db['interval'] = rng.choice([1, 2, 3, 5, 10, 0, -2]) if db.get('interval_type', dt) in ('step', 'cycle') else rng.choice([.5, 1., 1.5, .1, 3., 0., -1.])
                for x in ('first', 'last'):
                    if rng.random() < .4:
                        db['include_%s_step' % x] = float(rng.random() < .5)
        seq = []
        n, t = rng.choice([0, 0, 0, 7]), rng.choice([0., 0., 0., 2.5])
        if rng.random() < .6:
            seq.append(('i', n, t))
        for _ in range(rng.randint(1, 30)):
            if rng.random() < .85:
                n, t = n + 1, t + rng.choice([.5, .25, 1., 1., rng.random(), 3.])
            seq.append((rng.choice('hhhhhhhoa'), n, t))
            if rng.random() < .1:
                seq.append((rng.choice('fhoi'), n, t))
        if rng.random() < .6:
            seq.append(('f', n, t))
        cases.append((top, db, dv, dt, inc, seq))
    text = '%d\n' % len(cases)
    for top, db, dv, dt, inc, seq in cases:
        text += '%d %r %s %d %d\n' % (top is not None, dv, dt, inc[0], inc[1])
        if top is not None:
            text += dbtext(top)
        text += '%d\n%s\n' % (len(seq), '\n'.join('%s %d %r' % s for s in seq))
    out, err = env.run(exe, text)
    check(err is None, 'EventInterval', 'generated histories (seed %s)' % os.environ.get('VERIF_SEED', '1'), err, 'normal termination')
    for (top, db, dv, dt, inc, seq), l in zip(cases, out):
        m = EventModel(db, dv, dt, *inc)
        want = [int(m.active)] + [int(m.go(*s)) for s in seq]
        got = [int(x) for x in l.split()]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            check(False, 'EventInterval', dict(database=top, default_value=dv, default_type=dt, include_first=inc[0], include_last=inc[1],
                                               calls=[list(s) for s in seq[:i]]), got[:i + 1], want[:i + 1])
        else:
            check(True, '', None, None, None)
    return len(cases)


# ---------------------------------------------------------------- C28
HIST = '''
#include "TemperatureHistory.h"
#include <cstdio>
#include <fstream>
int main() {
   std::ofstream null("/dev/null");
   int cases; std::cin >> cases; std::string line; std::getline(std::cin, line);
   while (cases--) {
      int lines, q; std::cin >> lines; std::getline(std::cin, line);
      { std::ofstream o("t.csv"); for (int i = 0; i < lines; i++) { std::getline(std::cin, line); o << line << "\\n"; } }
      TemperatureHistory h(null);
      h.readCSV("t.csv");
      std::cin >> q;
      while (q--) {
         double t, x, T = -1., g = -1.; std::cin >> t >> x;
         int r = h.getTandGradT(t, x, T, g);
         printf("%d %.17g %.17g\\n", r, T, g);
      }
      fflush(stdout);
   }
}
'''


def history(ts, xs, h, t, x):
    if t < ts[0] or t >= ts[-1] or x < xs[0] or x > xs[-1]:
        return None
    i = max(n for n in range(len(ts) - 1) if ts[n] <= t)
    j = max([0] + [n for n in range(len(xs) - 1) if xs[n] < x])
    tf = (t - ts[i]) / (ts[i + 1] - ts[i])
    xf = (x - xs[j]) / (xs[j + 1] - xs[j])
    s = lambda m, n: (h[m][n + 1] - h[m][n]) / (xs[n + 1] - xs[n])

    def at(m):
        g = s(m, j)
        if j > 0 and xf < .5:
            g = (.5 + xf) * g + (.5 - xf) * s(m, j - 1)
        elif j + 2 < len(xs) and xf > .5:
            g = (1.5 - xf) * g + (xf - .5) * s(m, j + 1)
        return (1 - xf) * h[m][j] + xf * h[m][j + 1], g
    a, b = at(i), at(i + 1)
    return tuple((1 - tf) * u + tf * v for u, v in zip(a, b))


@bounded('C28', 'temperature histories read from a file')
def _(env, rng, check, mult):
    exe = env.program('history', ['TemperatureHistory.cc'], HIST)
    if not exe:
        return 0
    cases, text = [], ''
    for _ in range(60 * mult):
        def grid(n):
            a = [rng.choice([0., -1., 2.5])]
            while len(a) < n:
                a.append(a[-1] + rng.choice([1., .5, .1, round(rng.uniform(.1, 2.), 3)]))
            return a
        ts, xs = grid(rng.choice([2, 2, 3, 5])), grid(rng.choice([2, 3, 4, 6]))
        h = [[round(rng.uniform(250, 900), 3) for _ in xs] for _ in ts]
        # rows of the file list positions in decreasing order
        lines = ['# comment'] if rng.random() < .4 else []
        lines.append(','.join('%.17g' % x for x in reversed(xs)))
        for t, row in zip(ts, h):
            if rng.random() < .1:
                lines.append('#,1,2')
            lines.append(','.join(['%.17g' % t] + ['%.17g' % v for v in reversed(row)]))
        qs = []
        for _ in range(25):
            def pick(a):
                u = rng.random()
                if u < .3:
                    return rng.choice(a)
                if u < .4:
                    return rng.choice([a[0] - .1, a[-1] + .1])
                n = rng.randrange(len(a) - 1)
                return a[n] + (a[n + 1] - a[n]) * rng.choice([.25, .75, rng.random()])
            qs.append((pick(ts), pick(xs)))
        cases.append((lines, ts, xs, h, qs))
        text += '%d\n%s\n%d\n%s\n' % (len(lines), '\n'.join(lines), len(qs), '\n'.join('%r %r' % q for q in qs))
    out, err = env.run(exe, '%d\n%s' % (len(cases), text))
    check(err is None, 'TemperatureHistory', 'generated files (seed %s)' % os.environ.get('VERIF_SEED', '1'), err, 'normal termination')
    p = 0
    for lines, ts, xs, h, qs in cases:
        for t, x in qs:
            got = [float(v) for v in out[p].split()]
            p += 1
            w = history(ts, xs, h, t, x)
            want = [1] if w is None else [0, w[0], w[1]]
            check(got[0] == want[0] and all(close(a, b, 1e-8) for a, b in zip(got[1:], want[1:])),
                  'TemperatureHistory', dict(file=lines, time=t, position=x), got, want)
    return p


# ---------------------------------------------------------------- C29
MOB = READDB + '''
#include "CALPHADMobility.h"
int main() {
   int cases; std::cin >> cases;
   while (cases--) {
      int n, q; std::cin >> n;
      std::vector<CALPHADMobility> m;
      for (int i = 0; i < n; i++) { CALPHADMobility x("M"); x.initialize(readdb(std::cin)); m.push_back(x); }
      std::cin >> q;
      while (q--) {
         double a, b, T; std::cin >> a >> b >> T;
         if (n == 2) {
            printf("%.17g %.17g %.17g\\n", m[0].getAtomicMobility(a, b, T), m[1].getAtomicMobilityBinary(a, T),
                   computeDiffusionMobilityBinaryPhase(a, T, m));
         } else {
            std::vector<double> d(4);
            computeDiffusionMobilityTernaryPhase(a, b, T, m, d);
            printf("%.17g %.17g %.17g %.17g %.17g\\n", m[0].getAtomicMobility(a, b, 1. - a - b, T), d[0], d[1], d[2], d[3]);
         }
      }
      fflush(stdout);
   }
}
'''
GAS = 8.314472


def atomic(db, n, c, T):
    f = lambda p: p[0] + GAS * T * math.log(p[1])
    extra = any(len(db['q' + s]) > 2 for s in 'ABC'[:n])

    def q(s):
        p = db['q' + s]
        r = f(p)
        if extra and len(p) > 2:
            r += p[2] * T * math.log(T) + p[3] / T
        return r
    g = sum(c[i] * q('ABC'[i]) for i in range(n))
    for i in range(n):
        for j in range(i + 1, n):
            for m in range(4 if n == 2 else 2):
                p = db.get('q%d%s%s' % (m, 'ABC'[i], 'ABC'[j]))
                if p:
                    g += c[i] * c[j] * (c[i] - c[j])**m * f(p)
    return math.exp(g / (GAS * T)) / (GAS * T)


@bounded('C29', 'mobilities from the input database')
def _(env, rng, check, mult):
    exe = env.program('mobility', ['CALPHADMobility.cc'], MOB)
    if not exe:
        return 0
    cases, text = [], ''
    for _ in range(80 * mult):
        n = rng.choice([2, 3])
        dbs = []
        extra = rng.random() < .5
        for _ in range(n):
            db = {}
            pair = lambda: [rng.choice([0., rng.uniform(-3000, 3000)]), rng.choice([1., rng.uniform(.2, 3.)])]
            for s in 'ABC'[:n]:
                db['q' + s] = pair() + ([rng.uniform(-3, 3), rng.uniform(-3000, 3000)] if extra else [])
            for m in range(4):
                for s in ('AB',) if n == 2 else ('AB', 'AC', 'BC'):
                    if rng.random() < .75:
                        db['q%d%s' % (m, s)] = pair()
            dbs.append(db)
        qs = []
        for _ in range(8):
            a = rng.choice([0., 1., .5, rng.random()])
            b = 1. - a if n == 2 and rng.random() < .5 else rng.choice([0., rng.uniform(0, 1. - a)])
            qs.append((a, b, rng.choice([300., 1000., rng.uniform(200, 1500)])))
        cases.append((n, dbs, qs))
        text += '%d\n%s%d\n%s\n' % (n, ''.join(dbtext(d) for d in dbs), len(qs), '\n'.join('%r %r %r' % q for q in qs))
    out, err = env.run(exe, '%d\n%s' % (len(cases), text))
    check(err is None, 'CALPHADMobility', 'generated databases (seed %s)' % os.environ.get('VERIF_SEED', '1'), err, 'normal termination')
    p = 0
    for n, dbs, qs in cases:
        for a, b, T in qs:
            got = [float(v) for v in out[p].split()]
            p += 1
            if n == 2:
                m = [atomic(d, 2, (a, 1 - a), T) for d in dbs]
                want = [atomic(dbs[0], 2, (a, b), T), m[1], a * (1 - a) * (a * m[1] + (1 - a) * m[0]) * 1e12]
            else:
                c = (a, b, 1 - a - b)
                m = [atomic(d, 3, c, T) for d in dbs]
                L = lambda i, j: 1e12 * sum(((s == i) - c[i]) * ((s == j) - c[j]) * c[s] * m[s] for s in range(3))
                want = [m[0], L(0, 0), L(0, 1), L(1, 0), L(1, 1)]
            scale = max(abs(w) for w in want[1:])
            check(all(close(x, y, 1e-8) or abs(x - y) < 1e-9 * scale for x, y in zip(got, want)),
                  'CALPHADMobility', dict(databases=dbs, c0=a, c1=b, temperature=T), got, want)
    return p
