# -*- coding: utf-8 -*-
"""S03: polycrystalline averages."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
import scommon as sc

BOUNDS = ('triclinic tensors (21 symbolic constants) for the identities; '
          'cubic and isotropic tensors, all positive-definite values, for '
          'the bounds')
OUTSIDE = 'IEEE rounding'
ASSUMPTIONS = ['numpy.linalg.inv returns the inverse']


def avg(env, kind, **kw):
    C = env.mkarr(sc.voigt(env, kind=kind))
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    m = env.load(sc.MOD)
    o = m.SOEC(C, rho)
    return C, rho, o, m.np.linalg.inv(C)


def identities(env):
    kind = env.choice('class', ['triclinic', 'orthorhombic', 'hexagonal'])
    C, rho, o, S = avg(env, kind)
    a = o.averages()
    T, U = sc.c_tensor(np.array(C)), sc.s_tensor(S)
    r3 = range(3)
    kv = sum(T[i, i, j, j] for i in r3 for j in r3) / 9.
    gv = (3. * sum(T[i, j, i, j] for i in r3 for j in r3)
          - sum(T[i, i, j, j] for i in r3 for j in r3)) / 30.
    kr = 1. / sum(U[i, i, j, j] for i in r3 for j in r3)
    gr = 15. / (6. * sum(U[i, j, i, j] for i in r3 for j in r3)
                - 2. * sum(U[i, i, j, j] for i in r3 for j in r3))
    env.check_eq('K Voigt', a[0][0], kv)
    env.check_eq('G Voigt', a[0][2], gv)
    env.check_eq('K Reuss', a[1][0], kr)
    env.check_eq('G Reuss', a[1][2], gr)
    env.check_eq('K Hill', a[2][0], (a[0][0] + a[1][0]) / 2.)
    env.check_eq('G Hill', a[2][2], (a[0][2] + a[1][2]) / 2.)
    for n, row in zip(('Voigt', 'Reuss', 'Hill'), a):
        k, e, g, v = row
        env.check_eq('E ' + n, e * (3. * k + g), 9. * k * g)
        env.check_eq('nu ' + n, v * 2. * (3. * k + g), 3. * k - 2. * g)
        env.check_eq('E, G, nu ' + n, e, 2. * g * (1. + v))
    again = o.averages()
    for i in range(3):
        for j in range(4):
            env.check_eq('repeatable', again[i][j], a[i][j])


def cubic(env):
    """stable cubic crystal with the closed-form inverse of its tensor."""
    kind = env.choice('class', ['cubic', 'isotropic'])
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    d = env.real('c11-c12', pos=True, sample=(50., 300.))
    e = env.real('c11+2c12', pos=True, sample=(100., 900.))
    c = d / 2. if kind == 'isotropic' else \
        env.real('c44', pos=True, sample=(30., 200.))
    a, b = (e + 2. * d) / 3., (e - d) / 3.
    V = [[0.] * 6 for _ in range(6)]
    s = [[0.] * 6 for _ in range(6)]
    for i in range(3):
        for j in range(3):
            V[i][j] = a if i == j else b
            s[i][j] = (1. / e + 2. / d) / 3. if i == j else \
                (1. / e - 1. / d) / 3.
        V[i + 3][i + 3] = c
        s[i + 3][i + 3] = 1. / c
    m = env.load(sc.MOD)
    if env.sym:
        env.patch(m.np.linalg, 'inv', lambda x: env.mkarr(s))
    return kind, d, e, c, rho, m.SOEC(env.mkarr(V), rho)


def velocities(env):
    """Vp^2 rho = K + 4G/3, Vs^2 rho = G (Hill values), km/s and kg/m^3."""
    kind, d, e, c, rho, o = cubic(env)
    k, _, g, _ = o.averages()[2]
    v = o.isotropic_velocities()
    env.check_eq('Vs 1', v[0] * v[0] * rho, g * 1e3)
    env.check_eq('Vs 2', v[1] * v[1] * rho, g * 1e3)
    env.check_eq('Vp', v[2] * v[2] * rho, (k + 4. * g / 3.) * 1e3)
    env.check('positive', env.And(v[0] > 0., v[1] > 0., v[2] > 0.))
    env.check('Vp > Vs', v[2] * v[2] > v[0] * v[0])


def bounds(env):
    """Reuss <= Hill <= Voigt for every stable cubic crystal, equal for
    isotropic ones."""
    kind, d, e, c, rho, o = cubic(env)
    r = o.averages()
    for j, q in ((0, 'K'), (2, 'G')):
        if kind == 'cubic':
            env.check('Reuss <= Hill ' + q, r[1][j] <= r[2][j] + 1e-9)
            env.check('Hill <= Voigt ' + q, r[2][j] <= r[0][j] + 1e-9)
            env.check('positive ' + q, r[1][j] > 0.)
        else:
            env.check_eq('Reuss = Voigt ' + q, r[1][j], r[0][j])
            env.check_eq('Hill = Voigt ' + q, r[2][j], r[0][j])
    if kind == 'isotropic':
        env.check_eq('K', r[0][0], e / 3.)
        env.check_eq('G', r[0][2], c)


def harnesses(tier):
    return [('identities', identities, {'inv_defs': False, 'validate': 3}),
            ('velocities', velocities, {'validate': 2}),
            ('bounds', bounds, {'validate': 2})]
