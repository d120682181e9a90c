# -*- coding: utf-8 -*-
"""S02: Voigt matrices and elastic tensors."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import itertools as it
import numpy as np
import scommon as sc

BOUNDS = ('all 81 tensor components; triclinic (21 symbolic constants) and '
          'every other crystal class')
OUTSIDE = 'conditioning of the numerical inverse; IEEE rounding'
ASSUMPTIONS = ['numpy.linalg.inv returns the inverse (its components are '
               'symbolic functions of the matrix constrained by A.S = 1)']
KINDS = ['triclinic', 'orthorhombic', 'cubic', 'hexagonal', 'trigonal_low']


def tensors(env):
    kind = env.choice('class', KINDS)
    C = env.mkarr(sc.voigt(env, kind=kind))
    C0 = np.array(C, dtype=object)
    o = env.load(sc.MOD).SOEC(C, 3000.)
    S = env.load(sc.MOD).np.linalg.inv(C)
    for i in range(6):
        for j in range(6):
            env.check_eq('stiffness', o.stiffness[i][j], C0[i, j])
            env.check_eq('compliance', o.compliance[i][j], S[i, j])
    T, U = sc.c_tensor(C0), sc.s_tensor(S)
    for x in it.product(range(3), repeat=4):
        env.check_eq('C_ijkl %s' % (x,), o.Cmat[x], T[x])
        env.check_eq('S_ijkl %s' % (x,), o.Smat[x], U[x])


def inverse(env):
    """C : S is the symmetric identity."""
    kind = env.choice('class', ['orthorhombic', 'trigonal_low', 'triclinic'])
    C = env.mkarr(sc.voigt(env, kind=kind))
    o = env.load(sc.MOD).SOEC(C, 3000.)
    for i, j, k, l in it.product(range(3), repeat=4):
        if i > j or k > l:
            continue
        r = 0.
        for m in range(3):
            for n in range(3):
                r = r + o.Cmat[i, j, m, n] * o.Smat[m, n, k, l]
        e = .5 * ((i == k) * (j == l) + (i == l) * (j == k))
        env.check_eq('identity %d%d%d%d' % (i, j, k, l), r, e)


def two(env):
    """a second tensor does not change the first."""
    C = env.mkarr(sc.voigt(env, 'c', 'cubic'))
    D = env.mkarr(sc.voigt(env, 'd', 'orthorhombic'))
    m = env.load(sc.MOD)
    rho = env.real('rho', pos=True)
    a = m.SOEC(C, rho)
    b = m.SOECOrtho(m.SOEC(D, rho * 2.))
    T, U = sc.c_tensor(np.array(C)), sc.c_tensor(np.array(D))
    for x in it.product(range(3), repeat=4):
        env.check_eq('first %s' % (x,), a.Cmat[x], T[x])
        env.check_eq('second %s' % (x,), b.Cmat[x], U[x])
    env.check_eq('density 1', a.density, rho)
    env.check_eq('density 2', b.density, rho * 2.)


def singular(env):
    """a singular matrix is refused."""
    k = env.choice('row', list(range(6)))
    C = np.diag([300., 300., 200., 50., 60., 70.])
    C[k, k] = 0.
    try:
        env.load(sc.MOD).SOEC(env.mkarr(C), 3000.)
        ok = False
    except ValueError:
        ok = True
    env.check_true('refused', ok)


def harnesses(tier):
    return [('tensors', tensors, {'validate': 5}),
            ('inverse', inverse, {'validate': 3}), ('two', two, {}),
            ('singular', singular, {'validate': 6})]
