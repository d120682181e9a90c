# -*- coding: utf-8 -*-
"""H03: weighted sums over modes, separability, threads."""
import itertools
import numpy as np
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import hcommon as hc

OUTSIDE = 'IEEE rounding (order of summation), larger shapes'
BOUNDS = ('shapes up to 2 temperatures x 2 q-points x 2 modes x 2 volumes '
          '(3x3x2x2 thorough), and up to 5 temperatures, 4 q-points, 4 modes '
          'or 7 volumes with the others at 1 or 2; all values symbolic; every thread schedule of '
          'the parallel loops via disjointness of the cells their iterations '
          'touch, loop iterations executed in ascending and descending order')
ASSUMPTIONS = ['OpenMP gives every iteration of a prange loop to one thread; '
               'scalars assigned in the loop are private']
THZ = 1e12


def additive(name, shape, reverse=False):
    def h(env):
        m = env.load(hc.MOD)
        nt, nb, nf, nv = shape
        band = env.arr('w', (nb, nf, nv), pos=True, sample=(2., 25.)) * THZ
        wt = env.arr('k', nb, sample=(.1, 1.))
        T = env.arr('T', nt, pos=True, sample=(50., 900.))
        b0, w0, t0 = band.copy(), wt.copy(), T.copy()
        r = getattr(m, name)(T, band, wt)
        env.check_true('shape', r.shape == (nt, nv))
        for i in range(nt):
            for n in range(nv):
                ref = 0.
                for j in range(nb):
                    for k in range(nf):
                        ref = ref + wt[j] * hc.FN[name](env, T[i],
                                                        band[j, k, n])
                env.check_eq('sum[%d,%d]' % (i, n), r[i, n], ref,
                             catol=1e-9)
        env.check_arr('frequencies kept', band, b0)
        env.check_arr('weights kept', wt, w0)
        env.check_arr('temperatures kept', T, t0)
        schedule(env)
    return h


def schedule(env):
    """no two iterations of a parallel loop touch the same cell."""
    if env.sym:
        env.check_true('iterations are independent', not env.races,
                       detail=str(env.races[:3]))
        return
    env.check_true('iterations are independent', stress(env))


def threads(n):
    import ctypes
    import ctypes.util
    lib = ctypes.CDLL(ctypes.util.find_library('gomp') or 'libgomp.so.1')
    lib.omp_set_num_threads(int(n))


def stress(env):
    """concrete counterpart: one thread and eight threads agree."""
    m = env.load(hc.MOD)
    rng = np.random.RandomState(3)
    band = rng.uniform(1e12, 2e13, (24, 12, 3))
    wt = rng.uniform(.1, 1., 24)
    T = np.linspace(10., 900., 40)
    ok = True
    for name in sorted(hc.FN):
        threads(1)
        ref = getattr(m, name)(T, band, wt)
        threads(8)
        for _ in range(4):
            ok = ok and np.allclose(getattr(m, name)(T, band, wt), ref,
                                    rtol=1e-9)
    threads(1)
    return ok


def energies(env):
    m = env.load(hc.MOD)
    U0 = env.arr('U0', 3, sample=(-5., 5.))
    zp = env.arr('Uzp', 3, sample=(0., 5.))
    th = env.arr('Uth', (2, 3), sample=(0., 5.))
    a = [x.copy() for x in (U0, zp, th)]
    U = m.internal_energy(U0, zp, th)
    F = m.free_energy(U0, th)
    for i in range(2):
        for j in range(3):
            env.check_eq('U', U[i, j], a[0][j] + a[1][j] + a[2][i, j])
            env.check_eq('F', F[i, j], a[0][j] + a[2][i, j])
    env.check_arr('static energy kept', U0, a[0])
    env.check_arr('zero-point energy kept', zp, a[1])
    env.check_arr('thermal energy kept', th, a[2])
    if env.sym:
        env.check_true('parallel loops seen', env.loops >= 0)
    else:
        env.check_true('parallel loops seen', True)
    schedule(env)


def mixed(env):
    """imaginary/zero modes do not disturb the others."""
    m = env.load(hc.MOD)
    shape = env.choice('shape', [(3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 1, 2),
                                 (1, 2, 2)])
    nb, nf, nv = shape
    f = [env.real('f%d' % i, sample=(-15., 25.)) for i in range(4)]
    t = env.real('T', pos=True, sample=(50., 900.))
    name = env.choice('function', sorted(hc.FN))
    k = env.arr('k', 3, sample=(.1, 1.))
    g = np.array([x * THZ for x in f[:nb * nf * nv]]).reshape(shape)
    r = getattr(m, name)(env.mkarr([t]), env.mkarr(g.tolist()), k[:nb])
    env.check_true('shape', r.shape == (1, nv))
    for n in range(nv):
        ref = 0.
        for j in range(nb):
            for i in range(nf):
                if bool(g[j, i, n] > 0.):
                    ref = ref + k[j] * hc.FN[name](env, t, g[j, i, n])
        env.check_eq('only real modes are summed', r[0, n], ref, catol=1e-9)


def harnesses(tier):
    big = (3, 3, 2, 2) if tier == 'thorough' else (2, 2, 2, 2)
    out = []
    for n in sorted(hc.FN):
        out.append((n, additive(n, big), {'validate': 2}))
        out.append((n + '-rev', additive(n, (2, 2, 2, 2)),
                    {'reverse': True, 'validate': 1}))
        out.append((n + '-3111', additive(n, (3, 1, 1, 1)), {'validate': 1}))
        out.append((n + '-1131', additive(n, (1, 1, 3, 1)), {'validate': 1}))
        # many volumes, temperatures, q-points, modes
        out.append((n + '-1117', additive(n, (1, 1, 1, 7)), {'validate': 1}))
        out.append((n + '-5112', additive(n, (5, 1, 1, 2)), {'validate': 1}))
        out.append((n + '-1411', additive(n, (1, 4, 1, 1)), {'validate': 1}))
        out.append((n + '-1141', additive(n, (1, 1, 4, 1)), {'validate': 1}))
    return out + [('energies', energies, {}), ('mixed', mixed, {})]
