# -*- coding: utf-8 -*-
"""I04: quasi-harmonic data read from CRYSTAL outputs."""
import os
import sys
import numpy as np
sys.path.insert(0, os.path.dirname(__file__))
import icommon as ic

BOUNDS = ('4-5 volumes, cells printed in several orders, 1-2 atoms per cell, '
          'with and without a supercell of two or four cells, right and '
          'left-handed; symbolic cell edges, volumes, energies and '
          'frequencies; one or two files in one session; too few volumes, '
          'restarted or incomplete outputs')
OUTSIDE = ('volumes closer to each other than 0.1%; layouts of other program '
           'versions')
ASSUMPTIONS = ['a numeric token stands for an arbitrary real',
               'the volumes of the energy table are those of the optimized '
               'cells within 1e-6']
ORDER = {4: {'sorted': [0, 1, 2, 3], 'reverse': [3, 2, 1, 0],
             'central': [2, 0, 3, 1], 'cycle': [1, 2, 3, 0]},
         5: {'central': [2, 0, 1, 3, 4], 'mixed': [4, 1, 3, 0, 2]}}
SHAPE = {'cubic': ([[0, 0, 1], [1, 0, 0], [0, 1, 0]], 1),
         'left': ([[0, 0, 1], [0, 1, 0], [1, 0, 0]], 1),
         'fcc': ([[0, 1, 1], [1, 0, 1], [1, 1, 0]], 2)}


def reader(env):
    return env.load('quantas.interfaces.crystal').CrystalQHAReader


def data(env, tag, n, nf):
    """volumes, edges, energies, frequencies."""
    V, E, A, F = [], [], [], []
    for j in range(n):
        t, a = env.num('%sa%d' % (tag, j), pos=True,
                       sample=(4. + .1 * j, 4.05 + .1 * j))
        A.append((t, a))
        E.append(env.num('%sE%d' % (tag, j), sample=(-300., -1.)))
        if j:
            env.assume(a - A[-2][1] > .005)
        else:
            env.assume(a > 3.)
    env.assume(A[-1][1] < 6.)
    for k in range(nf):
        F.append([env.num('%sf%d_%d' % (tag, k, j), sample=(-20., 900.))
                  for j in range(n)])
    return A, E, F


def text(env, tag, n, nat, shape, order, A, E, F, super3=None, head=True,
         restart=False, extra=False):
    M, d = SHAPE[shape]
    V = [d * A[j][1] * A[j][1] * A[j][1] for j in range(n)]
    eps = [env.real('%seps%d' % (tag, j), -1e-6, 1e-6) for j in range(n)]
    L = [' * QUASI-HARMONIC APPROXIMATION'] if head else []
    if restart:
        L += [' READING DATA FROM RESTART UNIT']
    if super3:
        L += ic.consistent(1) + ic.expansion(super3)
    if extra:
        # geometry optimized before the list of volumes
        lat = [[('6.500000' if x else '0.000000', 0) for x in r] for r in M]
        L += ic.cell('FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE '
                     'SYSTEM      3', nat, lat)
    for j in order:
        lat = [[(A[j][0] if x else '0.000000', 0) for x in r] for r in M]
        L += ic.cell('FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE '
                     'SYSTEM      3', nat, lat)
    # rows start four lines after the header
    L += ['', ' SORTING VOLUMES/ENERGIES', '', '     VOLUME    ENERGY', '']
    L += ['   %s   %s' % (env.token(V[j] * (1. + eps[j])), E[j][0])
          for j in range(n)]
    L += ['', ' LIST OF FREQUENCY # below', '']
    for k, f in enumerate(F):
        L += [' FREQUENCY #%5d' % (k + 1), '', '   VOLUME  FREQUENCY (CM-1)']
        L += ['   %.4f   %s' % (18. + j, f[j][0]) for j in range(n)]
        L += ['']
    return '\n'.join(L) + '\n', V


def same(env, r, n, nat, k, V, E, F):
    """k primitive cells of nat atoms in the supercell."""
    env.check_true('completed', bool(r.completed), detail=str(r.error))
    env.check_true('no error', r.error is None, detail=str(r.error))
    env.check_true('points', r.points == n)
    env.check_true('natom', r.natom == nat, detail=str(r.natom))
    env.check_true('cells', r.kpoints == k)
    env.check_true('q points', r.qpoints == k)
    env.check_true('modes', r.nphonon == 3 * nat)
    env.check_true('weights', len(r.weights) == k)
    env.check_true('bands', len(r.phonons) == k)
    env.check_true('volumes', len(r.volume) == n and len(r.energy) == n)
    for j in range(n):
        env.check_eq('volume %d' % j, r.volume[j], V[j] / k)
        env.check_eq('energy %d' % j, r.energy[j], E[j][1] / k)
    m = 0
    for q in range(k):
        env.check_eq('weight', r.weights[q], 1.)
        env.check_true('band', np.shape(r.phonons[q]) == (3 * nat, n))
        for a in range(3):
            env.check_eq('q', r.qcoords[q][a], 0.)
        for b in range(3 * nat):
            for j in range(n):
                env.check_eq('frequency %d %d %d' % (q, b, j),
                             r.phonons[q][b][j], F[m][j][1])
            m += 1


def unit(env):
    shape = env.choice('cell', sorted(SHAPE))
    n, o = env.choice('order', [(n, o) for n in sorted(ORDER)
                                for o in sorted(ORDER[n])])
    nat = env.choice('atoms', [1, 2])
    A, E, F = data(env, '', n, 3 * nat)
    extra = env.choice('other geometry', [False, True]) if n == 4 else False
    x, V = text(env, '', n, nat, shape, ORDER[n][o], A, E, F, extra=extra)
    r = reader(env)(env.file(x, 'a.out'))
    same(env, r, n, nat, 1, V, E, F)


def supercell(env):
    shape = env.choice('cell', sorted(SHAPE))
    kind = env.choice('expansion', ['two', 'fcc', 'left', 'hex'])
    k = abs(ic.det(ic.EXP[kind]))
    A, E, F = data(env, '', 4, 3 * k)
    x, V = text(env, '', 4, k, shape, ORDER[4]['central'], A, E, F,
                super3=ic.EXP[kind])
    r = reader(env)(env.file(x, 'a.out'))
    same(env, r, 4, 1, k, V, E, F)
    for i in range(3):
        for j in range(3):
            env.check_eq('expansion', r.dim[i][j], float(ic.EXP[kind][i][j]))


def two(env):
    second = env.choice('second', ['unit', 'supercell'])
    A, E, F = data(env, 'a', 4, 3)
    B, D, G = data(env, 'b', 5, 6)
    x, V = text(env, 'a', 4, 1, 'fcc', ORDER[4]['reverse'], A, E, F)
    s = second == 'supercell'
    y, W = text(env, 'b', 5, 2, 'cubic', ORDER[5]['mixed'], B, D, G,
                super3=ic.EXP['two'] if s else None)
    R = reader(env)
    a = R(env.file(x, 'a.out'))
    b = R(env.file(y, 'b.out'))
    same(env, a, 4, 1, 1, V, E, F)
    same(env, b, 5, 1 if s else 2, 2 if s else 1, W, D, G)
    same(env, a, 4, 1, 1, V, E, F)


def wrong(env):
    kind = env.choice('kind', ['empty', 'other', 'few', 'none', 'restart',
                               'no cells', 'missing cell', 'missing last',
                               'no frequencies',
                               'missing frequency', 'short frequency',
                               'other cells', 'cut'])
    few = kind in ('few', 'none')
    n = {'few': 3, 'none': 0}.get(kind, 4)
    A, E, F = data(env, '', 4, 3)
    order = {'few': [2, 0, 1], 'none': [0], 'no cells': [],
             'missing cell': [0, 1, 3],
             'missing last': [2, 0, 1]}.get(kind, [0, 1, 2, 3])
    x, V = text(env, '', n, 1, 'cubic', order, A, E,
                [] if kind == 'no frequencies' else
                F[:2] if kind == 'missing frequency' else F,
                head=kind != 'other', restart=kind == 'restart')
    if kind == 'empty':
        x = ''
    elif kind == 'short frequency':
        x = '\n'.join(x.split('\n')[:-4]) + '\n'
    elif kind == 'cut':
        i = x.index(' LIST OF')
        x = x[:i].rstrip('\n') + '\n'
    elif kind == 'other cells':
        x = x.replace(A[1][0], '9.900000')
    r = reader(env)(env.file(x, 'a.out'))
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def cut(env):
    """an output that ends at any line."""
    A, E, F = data(env, '', 4, 3)
    x, V = text(env, '', 4, 1, 'cubic', [0, 1, 2, 3], A, E, F)
    L = x.rstrip().split('\n')
    n = env.choice('lines', list(range(len(L))))
    r = reader(env)(env.file('\n'.join(L[:n]) + '\n', 'a.out'))
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def harnesses(tier):
    return [('unit', unit, {}), ('supercell', supercell, {}),
            ('two', two, {}), ('wrong', wrong, {}),
            ('cut', cut, {'max_paths': 300})]
