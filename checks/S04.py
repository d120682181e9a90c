# -*- coding: utf-8 -*-
"""S04: direction-dependent elastic properties."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import itertools as it
import numpy as np
import scommon as sc

BOUNDS = ('any direction (symbolic angles); triclinic tensors (21 symbolic '
          'components) for the general formulae; orthorhombic tensors (9 '
          'symbolic components) for the specialised ones')
OUTSIDE = 'IEEE rounding'
ASSUMPTIONS = ['numpy.linalg.inv returns the inverse',
               'sin and cos are atoms with sin^2 + cos^2 = 1',
               'the eigenvalues of a symmetric matrix are a function of the '
               'matrix, homogeneous of degree one, in ascending order']


def setup(env, kind, ortho=False):
    C = env.mkarr(sc.voigt(env, kind=kind))
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    t, p, x = env.angle('theta'), env.angle('phi'), env.angle('chi')
    m = env.load(sc.MOD)
    o = m.SOEC(C, rho)
    if ortho:
        o = m.SOECOrtho(o)
    S = m.np.linalg.inv(C)
    return C, sc.s_tensor(S), rho, t, p, x, o


def axes(env):
    """the first axis is a unit vector, the second one a unit vector normal
    to it; together they reach every pair of orthogonal directions."""
    t, p, x = env.angle('theta'), env.angle('phi'), env.angle('chi')
    m = env.load(sc.MOD)
    a, b = m.vector(t, p), m.vector(t, p, x)
    n, u = sc.direction(env, t, p), sc.transverse(env, t, p, x)
    env.check_eq('|a|', sum(c * c for c in a), 1.)
    env.check_eq('|b|', sum(c * c for c in b), 1.)
    env.check_eq('a.b', sum(c * d for c, d in zip(a, b)), 0.)
    for k in range(3):
        env.check_eq('a%d' % k, a[k], n[k])
    # b runs over the whole circle around a: (theta-hat cos chi + phi-hat
    # sin chi)
    env.check_eq('b.phi', -env.sin(p) * b[0] + env.cos(p) * b[1], env.sin(x))
    env.check_eq('b.theta', env.cos(t) * env.cos(p) * b[0] + env.cos(t)
                 * env.sin(p) * b[1] - env.sin(t) * b[2], env.cos(x))


def one(kind, prop, ortho):
    def h(env):
        C, U, rho, t, p, x, o = setup(env, kind, ortho)
        a = sc.direction(env, t, p)
        b = sc.transverse(env, t, p, x)
        if prop == 'young':
            env.check_eq('E', 1. / o.young_modulus([t, p]),
                         sc.contract4(U, a, a, a, a), atol=1e-9)
        elif prop == 'compressibility':
            r = 0.
            for i, j, k in it.product(range(3), repeat=3):
                r = r + U[i, j, k, k] * a[i] * a[j]
            env.check_eq('beta', o.linear_compressibility([t, p]), 1e3 * r,
                         atol=1e-9)
        elif prop == 'shear':
            env.check_eq('G', 1. / o.shear_modulus([t, p, x]),
                         4. * sc.contract4(U, a, b, a, b), atol=1e-9)
        else:
            env.check_eq('nu', o.poisson_ratio([t, p, x])
                         * sc.contract4(U, a, a, a, a),
                         -1. * sc.contract4(U, a, a, b, b), atol=1e-9)
    return h


def waves(env):
    """rho v^2 are the eigenvalues of the Christoffel matrix, ascending;
    GPa, kg/m^3 and km/s."""
    kind = env.choice('class', ['triclinic', 'orthorhombic'])
    C = env.mkarr(sc.voigt(env, kind=kind))
    for i in range(6):
        env.assume(C[i, i] > 80.)
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    t, p = env.angle('theta'), env.angle('phi')
    m = env.load(sc.MOD)
    o = m.SOEC(C, rho)
    if kind == 'orthorhombic':
        o = m.SOECOrtho(o)
    n = sc.direction(env, t, p)
    G = sc.christoffel(sc.c_tensor(np.array(C)), n)
    w = m.np.linalg.eigvalsh(env.mkarr(G))
    env.assume(w[0] > 1.)
    v = o.phase_velocity([t, p])
    for k in range(3):
        env.check_eq('rho v^2 %d' % k, rho * v[k] * v[k], 1e3 * w[k])
        env.check('v%d > 0' % k, v[k] > 0.)
    env.check_eq('shear 1', o.shear_wave_1([t, p]), v[0])
    env.check_eq('shear 2', o.shear_wave_2([t, p]), v[1])
    env.check_eq('longitudinal', o.longitudinal_wave([t, p]), v[2])


def harnesses(tier):
    o = {'inv_defs': False, 'numpy_div': True}
    out = [('axes', axes, {}), ('waves', waves, dict(o, validate=2))]
    for prop in ('young', 'compressibility', 'shear', 'poisson'):
        out.append((prop + '-general', one('triclinic', prop, False), o))
        out.append((prop + '-ortho', one('orthorhombic', prop, True), o))
    return out
