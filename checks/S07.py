# -*- coding: utf-8 -*-
"""S07: crystal classes."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import itertools as it
import numpy as np
import scommon as sc

BOUNDS = ('the 9 classes with symbolic independent constants; one broken '
          'relation of any class (symbolic amount > 0.01); rounding noise '
          'below 1e-4 on all 36 entries')
OUTSIDE = ('non-standard orientations of the crystal axes; deviations '
           'between 1e-4 and 1e-2 GPa, where the verdict depends on the '
           'tolerance')
ASSUMPTIONS = ['numpy.linalg.inv returns the inverse']
KINDS = ['cubic', 'hexagonal', 'trigonal_high', 'trigonal_low',
         'tetragonal_high', 'tetragonal_low', 'orthorhombic', 'monoclinic',
         'triclinic']


def reported(env, C):
    calc, err, text = sc.calculator(env, C)
    if err is not None and 'singular' in err:
        return None
    env.check_true('input read', err is None, detail=str(err))
    calc.report_input_data()
    L = [s for s in text().splitlines() if s.startswith('System is')]
    env.check_true('reported', len(L) == 1)
    return L[0].split()[-1]


def classes(env):
    """a matrix is reported as the class it belongs to."""
    kind = env.choice('class', KINDS)
    C = sc.voigt(env, kind=kind)
    sc.generic(env, C, kind)
    s = reported(env, C)
    if s is None:
        return
    env.check_true('class', s == kind, detail='%s for %s' % (s, kind))


def noisy(env):
    """printed digits do not change the class."""
    kind = env.choice('class', KINDS)
    C = sc.voigt(env, kind=kind)
    sc.generic(env, C, kind)
    D = [[None] * 6 for _ in range(6)]
    for i in range(6):
        for j in range(i, 6):
            e = env.real('e%d%d' % (i, j), lo=-1e-4, hi=1e-4,
                         sample=(-1e-4, 1e-4))
            D[i][j] = D[j][i] = C[i][j] + e
    s = reported(env, D)
    if s is None:
        return
    env.check_true('class', s == kind, detail='%s for %s' % (s, kind))


def broken(env, kind):
    """a matrix that breaks one relation is not reported as that class."""
    C = sc.voigt(env, kind=kind)
    d = env.real('d', sample=(-40., 40.))
    rel = env.choice('entry', relations(kind))
    env.assume(env.Or(d > .01, d < -.01))
    sc.generic(env, C, kind)
    i, j = rel
    C[i][j] = C[j][i] = C[i][j] + d
    s = reported(env, C)
    if s is None:
        return
    env.check_true('class', s != kind, detail=s)
    # nor as anything that class contains
    env.check_true('higher class', s not in ABOVE[kind], detail=s)


#: classes whose relations imply those of the class
ABOVE = {'cubic': [], 'hexagonal': ['cubic'],
         'trigonal_high': ['hexagonal', 'cubic'],
         'trigonal_low': ['trigonal_high', 'hexagonal', 'cubic'],
         'tetragonal_high': ['hexagonal', 'cubic'],
         'tetragonal_low': ['tetragonal_high', 'hexagonal', 'cubic'],
         'orthorhombic': ['tetragonal_high', 'hexagonal', 'cubic'],
         'monoclinic': ['orthorhombic', 'tetragonal_high', 'hexagonal',
                        'cubic']}


def relations(kind):
    """entries that are bound by a relation of the class."""
    free = {'orthorhombic': [(i, i) for i in range(6)]
            + [(0, 1), (0, 2), (1, 2)],
            'monoclinic': [(i, i) for i in range(6)]
            + [(0, 1), (0, 2), (1, 2), (0, 4), (1, 4), (2, 4), (3, 5)],
            'tetragonal_high': [(2, 2), (5, 5), (0, 1)],
            'tetragonal_low': [(2, 2), (5, 5), (0, 1)],
            'hexagonal': [(2, 2)], 'trigonal_high': [(2, 2)],
            'trigonal_low': [(2, 2)], 'cubic': []}[kind]
    return [(i, j) for i in range(6) for j in range(i, 6)
            if (i, j) not in free]


def harnesses(tier):
    o = {'inv_defs': False, 'validate': 9, 'max_paths': 400, 'loose': True,
         'abs_fork': False}
    out = [('classes', classes, o), ('noisy', noisy, o)]
    for k in KINDS[:-1]:
        out.append(('broken-' + k, lambda env, k=k: broken(env, k), o))
    return out
