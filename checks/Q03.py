# -*- coding: utf-8 -*-
"""Q03: quasi-harmonic properties at the equilibrium volume."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import qcommon as qc
import hcommon as hc
from Q02 import positive

BOUNDS = ('4-5 fixed volumes, symbolic energies and frequencies of 1-2 modes, '
          '1-2 q-points with symbolic weights, energy polynomials of degree '
          '3, frequency polynomials of degree 2-3, up to 2 temperatures x 2 '
          'pressures; both schemes; every energy unit')
OUTSIDE = 'rounding of the least-squares solver; more modes or q-points'
ASSUMPTIONS = ['numpy polynomial roots: real simple roots in ascending order '
               'with alternating slopes (contract); least squares are exact',
               'the interpolated frequencies stay real']
FNS = {'Uzp': hc.zpe, 'Uth': hc.uth, 'S': hc.ent, 'Cv': hc.cv,
       'Fvib': hc.fvib}


def start(env, n, nq=1, modes=1, **kw):
    qc.quiet(env)
    C = env.load(qc.MOD).QHACalculator
    V, U, W = qc.crystal(env, n, kw.get('e', 'eV'), modes * nq)
    c = C(qc.settings(**dict({'e': 'eV'}, **kw)))
    Q = [W[q * modes:(q + 1) * modes] for q in range(nq)]
    wt = [env.real('k%d' % q, pos=True, sample=(.5, 3.)) for q in range(nq)] \
        if nq > 1 else [1.]
    c.input = qc.data(env, V, U, Q, wt)
    return c, V, U, Q, wt


def total(env, name, T, fr, wt, e):
    """weighted sum over the modes (one volume) in the energy unit."""
    tot = 0.
    for w in wt:
        tot = tot + w
    s = 0.
    for q in range(len(wt)):
        for w in fr[q]:
            s = s + FNS[name](env, T, w * qc.FU['cm^-1']) * (wt[q] / tot)
    return s * (1e3 / hc.NA / qc.EU[e])


def td(n, nq=1, modes=1, nt=1, npr=1, deg=3, t0=300., e='eV'):
    def h(env):
        eu = env.choice('energy', sorted(qc.EU)) if e is None else e
        t, tu = env.choice('unit', [(t0, 'K'), (t0 - 273.15, 'C')]) \
            if e is None else (t0, 'K')
        c, V, U, Q, wt = start(env, n, nq, modes, e=eu, scheme='td',
                               edeg=deg, t=tu,
                               trange=(t, t + 200. * (nt - 1), 200.),
                               prange=(0., 4. * (npr - 1), 4.))
        c.run()
        r = c.results
        fit = qc.Lsq(env, V, deg)
        pv = 1e-21 / qc.EU[eu]
        kw = dict(rtol=1e-6, ctol=1e-4)
        for i in range(nt):
            T = t0 + 200. * i
            d = {k: [total(env, k, T, [[w[v] for w in q] for q in Q], wt, eu)
                     for v in range(n)] for k in FNS}
            d['Utot'] = [U[v] + d['Uzp'][v] + d['Uth'][v] for v in range(n)]
            d['F'] = [U[v] + d['Fvib'][v] for v in range(n)]
            for j in range(npr):
                qc.sane(env, fit, d['F'], 4. * j * pv, pv)
                x = r['VT'][i, j]
                for k in sorted(d):
                    env.check_eq('%s[%d,%d]' % (k, i, j), r[k][i, j],
                                 fit.value(d[k], x), **kw)
    return h


def cold(env):
    """absolute zero."""
    t, tu = env.choice('unit', [(0., 'K'), (-273.15, 'C')])
    c, V, U, Q, wt = start(env, 4, scheme='td', t=tu, trange=(t, t, 1.))
    c.run()
    r = c.results
    fit = qc.Lsq(env, V, 3)
    z = [total(env, 'Uzp', 0., [[w[v] for w in q] for q in Q], wt, 'eV')
         for v in range(4)]
    F = [U[v] + z[v] for v in range(4)]
    qc.sane(env, fit, F, 0., 1e-21 / qc.EV)
    x = r['VT'][0, 0]
    kw = dict(rtol=1e-6, ctol=1e-4)
    env.check_eq('Uzp', r['Uzp'][0, 0], fit.value(z, x), **kw)
    env.check_eq('U', r['Utot'][0, 0], fit.value(F, x), **kw)
    env.check_eq('F', r['F'][0, 0], fit.value(F, x), **kw)
    for k in ('S', 'Cv', 'Uth'):
        env.check_eq(k, r[k][0, 0], 0., catol=1e-9)


def freq(n, deg, fdeg, nq=1, modes=1, nt=1, npr=1, e='eV'):
    def h(env):
        eu = env.choice('energy', sorted(qc.EU)) if e is None else e
        c, V, U, Q, wt = start(env, n, nq, modes, e=eu, scheme='freq',
                               edeg=deg, fdeg=fdeg,
                               trange=(300., 300. + 200. * (nt - 1), 200.),
                               prange=(0., 4. * (npr - 1), 4.))
        fit, ffit = qc.Lsq(env, V, deg), qc.Lsq(env, V, fdeg)
        pv = 1e-21 / qc.EU[eu]
        if env.sym:
            hz = env.load('quantas.utils.physics.units').convert_frequency(
                1., 'cm^-1', 'Hz')
            env.out['modes'] = (ffit, [[x * hz for x in w]
                                       for q in Q for w in q])
        if nq * modes * npr * nt > 1:
            # the report of the quality of the fit changes no property
            name = '_QHACalculator__report_frequency_fit'
            if hasattr(type(c), name):
                env.patch(type(c), name, lambda self, *a, **k: None)
        c.run()
        r = c.results
        kw = dict(rtol=1e-6, ctol=1e-4)
        for i in range(nt):
            T = 300. + 200. * i
            F = [U[v] + total(env, 'Fvib', T, [[w[v] for w in q]
                                               for q in Q], wt, eu)
                 for v in range(n)]
            for j in range(npr):
                qc.sane(env, fit, F, 4. * j * pv, pv)
                x = r['VT'][i, j]
                fr = [[ffit.value(w, x) for w in q] for q in Q]
                u0 = fit.value(U, x)
                d = {k: total(env, k, T, fr, wt, eu) for k in FNS}
                d['Utot'] = u0 + d['Uzp'] + d['Uth']
                d['F'] = u0 + d['Fvib']
                for k in sorted(d):
                    env.check_eq('%s[%d,%d]' % (k, i, j), r[k][i, j], d[k],
                                 **kw)
    return h


def soft(scheme):
    """modes that are unstable at every volume contribute nothing."""
    def h(env):
        c, V, U, Q, wt = start(env, 4, scheme=scheme, edeg=3, fdeg=2,
                               trange=(300., 300., 1.))
        low = env.real('low', sample=(-80., -40.), hi=-1.)
        fit, ffit = qc.Lsq(env, V, 3), qc.Lsq(env, V, 2)
        if env.sym:
            hz = env.load('quantas.utils.physics.units').convert_frequency(
                1., 'cm^-1', 'Hz')
            env.out['modes'] = (ffit, [[x * hz for x in Q[0][0]]])
        name = '_QHACalculator__report_frequency_fit'
        if hasattr(type(c), name):
            env.patch(type(c), name, lambda self, *a, **k: None)
        c.input = qc.data(env, V, U, [Q[0] + [[low] * 4]], wt)
        c.run()
        r = c.results
        d = {k: [total(env, k, 300., [[w[v] for w in q] for q in Q], wt, 'eV')
                 for v in range(4)] for k in FNS}
        F = [U[v] + d['Fvib'][v] for v in range(4)]
        qc.sane(env, fit, F, 0., 1e-21 / qc.EV)
        x = r['VT'][0, 0]
        for k in sorted(d):
            if scheme == 'td':
                w = fit.value(d[k], x)
            else:
                w = total(env, k, 300., [[ffit.value(m, x) for m in q]
                                         for q in Q], wt, 'eV')
            env.check_eq(k, r[k][0, 0], w, rtol=1e-6, ctol=1e-4)
    return h


def harnesses(tier):
    one = {'nroots': [2], 'root_sign': [-1], 'abs_fork': False,
           'numpy_div': True}
    fq = dict(one, roots=positive(2, 0))
    fq3 = dict(one, roots=positive(3, 0))
    out = [('td', td(4), one), ('td-22', td(4, 1, 1, 2, 2), one),
           ('td-modes', td(4, 2, 2), one),
           ('td-units', td(4, 1, 1, e=None), dict(one, validate=6)),
           ('td-5', td(5, 1, 2), one), ('cold', cold, one),
           ('soft-td', soft('td'), one), ('soft-freq', soft('freq'), fq),
           ('freq', freq(4, 3, 2), fq),
           ('freq-3', freq(5, 3, 3), fq3),
           ('freq-12', freq(4, 3, 2, 1, 1, 1, 2), fq),
           ('freq-21', freq(4, 3, 2, 1, 1, 2, 1), fq),
           ('freq-modes', freq(4, 3, 2, 2, 1), dict(fq, path_time=200)),
           ('freq-units', freq(4, 3, 2, e=None), dict(fq, validate=3))]
    if tier == 'thorough':
        out += [('td-5-44', td(5, 2, 1, 3, 3), one),
                ('freq-22', freq(4, 3, 2, 1, 2, 2, 2), fq)]
    return out
