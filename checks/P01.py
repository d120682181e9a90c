# -*- coding: utf-8 -*-
"""P01: the figures of the elastic analysis."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
import scommon as sc
import S05

BOUNDS = ('symbolic polar curves of 3 points on one of the three planes '
          'at a time, for every '
          'property and plane, with and without density, curves with positive, '
          'negative and mixed lobes')
OUTSIDE = ('the drawing library itself; colours, fonts and sizes; the curves '
           'themselves (S05)')
ASSUMPTIONS = ['matplotlib draws the given points, within the given largest '
               'radius, and writes the figure to the given file']
PLANES = ('xy', 'xz', 'yz')
WORDS = {'E': ('young',), 'LC': ('compress',), 'G': ('shear',),
         'Nu': ('poisson',), 'waves': ('wave', 'seismic', 'velocit')}
# meaning of the columns (after the angle)
LINES = {'E': [('',)], 'LC': [('posit',), ('negat',)],
         'G': [('min',), ('max',)], 'Nu': [('negat',), ('min',), ('max',)],
         'waves': [('s1',), ('s2',), ('_{p}', '_p', 'vp', 'long')]}
N = 3


class Axis(object):
    def __init__(self):
        self.lines, self.texts, self.rmax, self.labels = [], [], None, None

    def plot(self, t, r, *a, **k):
        self.lines.append((t, r, k.get('label')))
        return [self]

    def set_rmax(self, r):
        self.rmax = r

    def set_rlim(self, *a, **k):
        if len(a) > 1:
            self.rmax = a[1]
        for q in ('rmax', 'top', 'ymax'):
            if q in k:
                self.rmax = k[q]
    set_ylim = set_rlim

    def text(self, x, y, s, *a, **k):
        self.texts.append(s)

    def set_title(self, s, *a, **k):
        self.texts.append(s)
    set_xlabel = annotate = set_title

    def legend(self, *a, **k):
        self.labels = names(a, k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def names(a, k):
    if 'labels' in k:
        return list(k['labels'])
    return list(a[-1]) if a else []


class Figure(object):
    def __init__(self, made, n=0):
        self.axes = [Axis() for q in range(n)]
        self.files, self.labels = [], None
        made.append(self)

    def add_subplot(self, *a, **k):
        self.axes.append(Axis())
        return self.axes[-1]

    def subplots(self, nrows=1, ncols=1, **k):
        self.axes += [Axis() for q in range(nrows * ncols)]
        z = np.empty(nrows * ncols, dtype=object)
        z[:] = self.axes[-nrows * ncols:]
        return z if nrows * ncols > 1 else z[0]

    def legend(self, *a, **k):
        self.labels = names(a, k)

    def savefig(self, name, *a, **k):
        self.files.append((str(name), k.get('dpi')))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def draw(env):
    """stand-in for the drawing library: the figures that are made."""
    made = []

    def subplots(nrows=1, ncols=1, **k):
        f = Figure(made)
        return f, f.subplots(nrows, ncols)

    def figure(*a, **k):
        return Figure(made)

    def subplot(*a, **k):
        return made[-1].add_subplot()

    def savefig(name, *a, **k):
        made[-1].savefig(name, *a, **k)
    new = {f.__name__: f for f in (subplots, figure, subplot, savefig)}
    if env.sym:
        class Pyplot(object):
            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return new.get(n, lambda *a, **k: None)
        env.pyplot = Pyplot()
        return made
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    for n in ('close', 'tight_layout', 'show', 'clf'):
        new[n] = lambda *a, **k: None
    for n, f in new.items():
        env.patch(plt, n, f)
    return made


def curves(env, n, q, lobe, symbolic, base):
    """values of property `n` on plane `q`: N x columns."""
    w = S05.WIDTH[n]
    v = [[env.real('v%d%d' % (i, j), pos=True, sample=(1., 90.)) if symbolic
          else base + .7 * i + .01 * j for j in range(w)] for i in range(N)]
    out = []
    for i in range(N):
        r = list(v[i])
        neg = lobe == 'negative' or lobe == 'mixed' and i == 1
        if n == 'LC':
            r = [0., r[1]] if neg else [r[0], 0.]
        elif n == 'Nu':
            # negative part of the minimum, positive part, maximum
            r = [-.01 * r[0], 0., r[2]] if neg else [0., r[1], r[1] + r[2]]
        elif n == 'G':
            r = [r[0], r[0] + r[1]]
        elif n == 'waves':
            r = [r[0], r[0] + r[1], r[0] + r[1] + r[2]]
        out.append(r)
    return out


def figures(env):
    n = env.choice('property', sorted(S05.WIDTH))
    dens = env.choice('density', [True, False])
    lobe = env.choice('lobes', ['positive', 'negative', 'mixed'] if n in (
        'LC', 'Nu') else ['positive'])
    dpi = 80 if dens else 300
    C = [[250. if i == j < 3 else 110. if i == j else 90. if max(i, j) < 3
          else 0. for j in range(6)] for i in range(6)]
    rho = 3000.
    import scipy.optimize
    env.patch(scipy.optimize, 'brute', lambda func, ranges, *a, **k: (
        sc.some_point(env, func, ranges, *a, **k)))
    ang = [0., 100., 360.]
    plane = env.choice('plane', PLANES)
    data = {(p, q): curves(env, p, q, lobe if p == n else 'positive',
                           p == n and q == plane, 10. + 7. * k)
            for k, (p, q) in enumerate((p, q) for p in sorted(S05.WIDTH)
                                       for q in PLANES)}
    made = draw(env)
    calc, err, text = sc.calculator(env, C, rho if dens else None, True)
    env.check_true('input read', err is None, detail=str(err))
    base = os.path.join(env.tmpdir(), 'fig.v2')
    calc._plotting, calc._plot_basename, calc._plot_dpi = True, base, dpi

    def fill(*a, **k):
        calc.results['polar'] = {q: {p: env.mkarr(
            [[ang[i]] + data[p, q][i] for i in range(N)])
            for p in S05.WIDTH if dens or p != 'waves'} for q in PLANES}
    calc.calculate_polar_properties = fill
    calc.run()
    env.check_true('completed', bool(calc.completed))
    files = [f for g in made for f in g.files]
    env.check_true('one figure per property', len(files) == len(
        set(f for f, d in files)) == (5 if dens else 4)
        and all(len(g.files) == 1 for g in made), detail=str(files))
    for f, d in files:
        env.check_true('file of the figure', f.startswith(base) and
                       os.path.basename(f) in text(), detail=f)
        env.check_true('resolution', d == dpi, detail=str(d))
    if n == 'waves' and not dens:
        return
    mine = [g for g in made if any(
        w in t.lower() for w in WORDS[n] for a in g.axes for t in a.texts)]
    env.check_true('figure of ' + n, len(mine) == 1)
    g = mine[0]
    env.check_true('name of the figure', ('_' + n + '.') in g.files[0][0],
                   detail=g.files[0][0])
    seen = []
    for a in g.axes:
        q = [q for q in PLANES if any(q in t for t in a.texts)]
        env.check_true('label of the plane', len(q) == 1, detail=str(a.texts))
        seen.append(q[0])
        lab = [l[2] for l in a.lines]
        if any(x is None for x in lab):
            lab = a.labels or g.labels or ['']
        env.check_true('legend', len(lab) == len(a.lines) == len(LINES[n]),
                       detail=str(lab))
        cols = []
        for s in lab:
            s = s.lower().replace('$', '')
            c = [j for j, w in enumerate(LINES[n]) if any(x in s for x in w)]
            env.check_true('curve of the legend', len(c) == 1, detail=s)
            cols.append(c[0])
        env.check_true('every curve', sorted(cols) == list(
            range(len(LINES[n]))))
        env.check_true('largest radius', a.rmax is not None)
        for j, (t, r, _) in zip(cols, a.lines):
            env.check_true('points', len(t) == len(r) == N)
            for i in range(N):
                env.check_eq('angle', t[i], ang[i] * np.pi / 180.)
                env.check_eq('%s %s' % (n, q[0]), r[i], data[n, q[0]][i][j])
                env.check('visible', a.rmax >= data[n, q[0]][i][j] * 1.)
    env.check_true('planes', sorted(seen) == sorted(PLANES))


def harnesses(tier):
    return [('figures', figures, {'numpy_div': True, 'abs_fork': False})]
