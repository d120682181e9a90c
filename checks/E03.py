# -*- coding: utf-8 -*-
"""E03: energy-volume equations of state and their pressure."""
import numpy as np

BOUNDS = ('one volume; all E0, K0, V0, V > 0, all real K\' (K\' != 0, 1 where '
          'the formulation divides by it); the four formulations')
OUTSIDE = 'convergence of the least-squares optimiser; IEEE rounding'
ASSUMPTIONS = ['scipy.optimize.curve_fit is replaced by a contract stub: it '
               'returns arbitrary parameters and an arbitrary covariance '
               'diagonal; the function, data and starting point it receives '
               'are checked',
               'numpy.roots/polyfit of the starting guess are not modelled']
TAGS = ['murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola']


def pv(env):
    e0 = env.real('E0', sample=(-5., 5.))
    k0 = env.real('K0', pos=True, sample=(0.5, 3.))
    kp = env.real('Kp', sample=(2.5, 7.))
    v0 = env.real('V0', pos=True, sample=(60., 140.))
    return e0, k0, kp, v0


def consistency(tag):
    def h(env):
        E = env.load('quantas.qha.utils.ev_eos').EnergyEOS()
        e0, k0, kp, v0 = pv(env)
        v = env.real('V', pos=True, sample=(55., 150.))
        f = getattr(E, tag)
        env.check_eq('E(V0)', f(v0, e0, k0, kp, v0), e0, catol=1e-9)
        d = env.derivs_at(lambda x: f(x, e0, k0, kp, v0), v, 1)
        pars = env.mkarr([e0, k0, kp, v0])
        if env.choice('array', [False, True]):
            p = E.pressure(tag, pars, env.mkarr([v0, v]))
            env.check_eq('P(V0)', p[0], 0., catol=1e-9)
            p = p[1]
        else:
            p = E.pressure(tag, pars, v)
        env.check_eq('P = -dE/dV', p, -d[1], ctol=1e-4, catol=1e-6)
        env.check_arr('parameters untouched', pars,
                      env.mkarr([e0, k0, kp, v0]))
    return h


def curvature(tag):
    def h(env):
        E = env.load('quantas.qha.utils.ev_eos').EnergyEOS()
        e0, k0, kp, v0 = pv(env)
        f = getattr(E, tag)
        d = env.derivs_at(lambda x: f(x, e0, k0, kp, v0), v0, 3)
        env.check_eq('K(V0)', v0 * d[2], k0, ctol=1e-4)
        env.check_eq("K'(V0)", -(1. + v0 * d[3] / d[2]), kp, ctol=1e-2)
    return h


def fit(tag):
    def h(env):
        import scipy.optimize
        e0, k0, kp, v0 = pv(env)
        c = [env.real('c%d' % i, pos=True, sample=(0.1, 2.))
             for i in range(4)]
        cov = env.mkarr([[c[i] if i == j else c[0] * 0.01 for j in range(4)]
                         for i in range(4)])
        popt = env.mkarr([e0, k0, kp, v0])
        seen = {}

        def fake(f, xdata, ydata, p0=None, *a, **k):
            seen.update(f=f, x=xdata, y=ydata, p0=p0)
            return popt.copy(), cov

        env.patch(scipy.optimize, 'curve_fit', fake)
        mod = env.load('quantas.qha.utils.ev_eos')
        E = mod.EnergyEOS()
        V = env.mkarr([90., 95., 100., 105., 110.])
        Y = env.arr('E', 5, sample=(-1., 1.))
        g = [e0 * 0 + 1., 2., 4., 100.]
        E.guess = lambda V, E: g
        Y0 = Y.copy()
        p, err = E.fit(tag, V, Y)
        env.check_true('optimiser called', 'f' in seen)
        v = env.real('V', pos=True, sample=(55., 150.))
        q = env.arr('q', 4, pos=True, sample=(1.5, 3.))
        env.check_eq('model', seen['f'](v, *q), getattr(E, tag)(v, *q),
                     catol=1e-9)
        env.check_arr('x', seen['x'], V)
        env.check_arr('y', seen['y'], Y0)
        env.check_arr('E untouched', Y, Y0)
        env.check_arr('parameters', p, popt)
        for i in range(4):
            env.check_eq('error%d' % i, err[i], env.sqrt(c[i]))
    return h


def harnesses(tier):
    out = []
    for t in TAGS:
        out.append(('pressure-' + t, consistency(t), {}))
        out.append(('curvature-' + t, curvature(t), {'noise': 5e-2}))
        out.append(('fit-' + t, fit(t), {}))
    return out
