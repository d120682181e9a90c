# -*- coding: utf-8 -*-
"""Q01: thermodynamic identities between the quasi-harmonic results."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import qcommon as qc

BOUNDS = ('50 temperatures (1-3 and 49 for the short-grid behaviour) x 2 '
          'pressures; symbolic U, F, K_T, Cv at every point, volume '
          'linear in T with symbolic coefficients, or free; 8 combinations '
          'of energy, volume, pressure and temperature unit covering every '
          'unit')
OUTSIDE = ('the truncation error of the finite difference for a volume that '
           'is not linear in T (only bracketed by the neighbouring slopes)')
ASSUMPTIONS = ['the quantities interpolated at V(T,P) (Q03) are replaced by '
               'arbitrary values', 'Cv > 0 in the main family']
GRID = {'K': (10., 500., 10.), 'C': (-260., 230., 10.)}
PR = {'GPa': (0., 3., 3.), 'kbar': (0., 25., 25.)}


def solve(env, u, trange, prange, fill):
    e, v, p, t = u
    C = env.load(qc.MOD).QHACalculator

    def fake(self, *a, **k):
        fill(self)
    for n in ('run_thermodynamics_interpolation',
              'run_frequency_interpolation'):
        env.patch(C, n, fake)
    c = C(qc.settings(trange, prange, e=e, v=v, p=p, t=t))
    c.input = qc.data(env, [60., 65., 70., 75.], [-1., -2., -2., -1.],
                      [[[3., 2., 2., 1.]]])
    c.run()
    env.check_true('completed', bool(c.completed))
    return c.results


def state(env, n, m):
    out = {'KT': env.arr('KT', (n, m), sample=(50., 200.))}
    for k in ('Utot', 'F'):
        # any sign at zero pressure, positive elsewhere (relative
        # tolerances need terms of the same sign)
        x = env.arr(k, (n, m), pos=True, sample=(.1, 5.))
        z = env.arr(k + '0', n, sample=(-5., 5.))
        for i in range(n):
            x[i, 0] = z[i]
        out[k] = x
    return out


def fill_with(st, V, Cv, npr):
    def fill(self):
        r = self.results
        n, m = V.shape
        for k, val in list(st.items()) + [('VT', V), ('Cv', Cv)]:
            for i in range(n):
                for j in range(m):
                    r[k][i, j] = val[i, j]
    return fill


def points(n, u, every):
    return range(n) if every else [0, 1, n // 2, n - 2, n - 1]


def identities(every, hasfree=False):
    def h(env):
        u = qc.UNITS[0] if every else env.choice('units', qc.UNITS[1:])
        e, v, p, t = u
        n, m = 50, 2
        st = state(env, n, m)
        Cv = env.arr('Cv', (n, m), pos=True, sample=(.05, .5))
        T0, P0 = GRID[t], PR[p]
        T = [qc.kelvin(T0[0] + i * T0[2], t) for i in range(n)]
        P = [P0[0], P0[1]]
        a = env.arr('a', m, pos=True, sample=(60., 90.))
        b = env.arr('b', m, pos=True, sample=(1e-4, 1e-2))
        # contraction on heating as well
        if not every and tuple(u) == tuple(qc.UNITS[-1]):
            b = -b
            env.assume(a[0] + b[0] * T[-1] > 1.)
            env.assume(a[1] + b[1] * T[-1] > 1.)
        V = env.mkarr([[a[j] + b[j] * T[i] for j in range(m)]
                       for i in range(n)])
        keep = {k: x.copy() for k, x in st.items()}
        V0, Cv0 = V.copy(), Cv.copy()
        r = solve(env, u, T0, P0, fill_with(st, V, Cv, m))
        pv = qc.PU[p] * qc.VU[v] / qc.EU[e]
        kw = dict(rtol=1e-6, ctol=1e-6)
        for i in points(n, u, every):
            for j in range(m):
                lab = '[%d,%d]' % (i, j)
                x, w = V0[i, j], r['alphaV'][i, j]
                env.check_eq('volume kept' + lab, r['VT'][i, j], x)
                env.check_eq('Cv kept' + lab, r['Cv'][i, j], Cv0[i, j])
                env.check_eq('H' + lab, r['H'][i, j], keep['Utot'][i, j]
                             + P[j] * x * pv, **kw)
                env.check_eq('G' + lab, r['G'][i, j], keep['F'][i, j]
                             + P[j] * x * pv, **kw)
                env.check_eq('alpha' + lab, w, b[j] / x, rtol=1e-6,
                             ctol=1e-4)
                k = keep['KT'][i, j]
                corr = w * w * k * x * T[i] * pv * 1e3
                env.check_eq('Cp-Cv' + lab, r['Cp-Cv'][i, j], corr, **kw)
                env.check_eq('Cp' + lab, r['Cp'][i, j],
                             Cv0[i, j] + r['Cp-Cv'][i, j], **kw)
                env.check_eq('KS' + lab, r['KS'][i, j] * Cv0[i, j],
                             k * (Cv0[i, j] + corr), **kw)
                env.check_eq('gruneisen' + lab,
                             r['gruneisen'][i, j] * Cv0[i, j],
                             w * k * x * pv * 1e3, **kw)
    return h


def slopes(env):
    """the expansion coefficient lies between the neighbouring slopes."""
    n, m = 50, 1
    u = env.choice('units', [qc.UNITS[0], qc.UNITS[4]])
    T0, P0 = GRID[u[3]], (0., 0., 1.)
    st = state(env, n, m)
    V = env.arr('V', (n, m), pos=True, sample=(60., 90.))
    Cv = env.arr('Cv', (n, m), pos=True, sample=(.05, .5))
    V0 = V.copy()
    r = solve(env, u, T0, P0, fill_with(st, V, Cv, m))
    for i in [1, 2, 24, 47, 48]:
        d = r['alphaV'][i, 0] * V0[i, 0]
        lo = (V0[i, 0] - V0[i - 1, 0]) / T0[2]
        hi = (V0[i + 1, 0] - V0[i, 0]) / T0[2]
        env.check('slope at %d' % i, (d - lo) * (d - hi) <= 1e-9)


def limits(env):
    """absolute zero and vanishing heat capacity."""
    n, m = 50, 1
    zero = env.choice('Cv', ['zero at 0 K', 'zero everywhere'])
    t = env.choice('temperature', ['K', 'C'])
    lo = 0. if t == 'K' else -273.15
    st = state(env, n, m)
    a = env.real('a', pos=True, sample=(60., 90.))
    b = env.real('b', pos=True, sample=(1e-4, 1e-2))
    V = env.mkarr([[a + b * 10. * i] for i in range(n)])
    x = env.arr('Cv', (n, m), pos=True, sample=(.05, .5))
    Cv = env.mkarr([[0. if i == 0 or zero == 'zero everywhere' else x[i, 0]]
                    for i in range(n)])
    K = st['KT'].copy()
    r = solve(env, ('Ha', 'A', 'GPa', t), (lo, lo + 490., 10.),
              (0., 0., 1.), fill_with(st, V, Cv, m))
    for i in ([0] if zero == 'zero at 0 K' else [0, 1, 25, 49]):
        env.check_eq('KS = KT at %d' % i, r['KS'][i, 0], K[i, 0], rtol=1e-6,
                     ctol=1e-6)
        env.check_eq('no gruneisen at %d' % i, r['gruneisen'][i, 0], 0.,
                     catol=1e-12)
    env.check_eq('Cp = Cv at 0 K', r['Cp'][0, 0], 0., catol=1e-12)


def short(env):
    """fewer than 50 temperatures: the derivatives are not reported."""
    n = env.choice('n', [1, 2, 3, 49])
    u = env.choice('units', [qc.UNITS[0], qc.UNITS[3], qc.UNITS[6]])
    m = 2
    st = state(env, 49, m)
    V = env.arr('V', (49, m), pos=True, sample=(60., 90.))[:n]
    Cv = env.arr('Cv', (49, m), pos=True, sample=(.05, .5))[:n]
    # negative pressure, negative energies
    st = {k: x[:n] if k == 'KT' else -x[:n, ::-1] for k, x in st.items()}
    keep = {k: x.copy() for k, x in st.items()}
    V0 = V.copy()
    r = solve(env, u, (10., 10. * n, 10.),
              (-4., 0., 4.), fill_with(st, V, Cv, m))
    pv = qc.PU[u[2]] * qc.VU[u[1]] / qc.EU[u[0]]
    for i in sorted({0, n // 2, n - 1}):
        for j in range(m):
            lab = '[%d,%d]' % (i, j)
            for k in ('alphaV', 'Cp-Cv', 'gruneisen'):
                env.check_eq('no ' + k + lab, r[k][i, j], 0., catol=1e-12)
            env.check_eq('KS' + lab, r['KS'][i, j], keep['KT'][i, j])
            w = (-4., 0.)[j] * V0[i, j] * pv
            env.check_eq('H' + lab, r['H'][i, j], keep['Utot'][i, j] + w,
                         rtol=1e-6, ctol=1e-6)
            env.check_eq('G' + lab, r['G'][i, j], keep['F'][i, j] + w,
                         rtol=1e-6, ctol=1e-6)


def harnesses(tier):
    return [('identities', identities(True), {}),
            ('units', identities(False), {'validate': 8}),
            ('slopes', slopes, {}), ('limits', limits, {}),
            ('short', short, {'validate': 4})]
