# -*- coding: utf-8 -*-
"""H01: F = U - T S."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import hcommon as hc

BOUNDS = ('one mode with any real frequency (negative, zero, positive) and '
          'any temperature >= 0 for the mode functions; 1-2 temperatures, 2 '
          'q-points, 3 modes, 2 volumes, all frequencies/weights/energies '
          'symbolic, for the totals')
OUTSIDE = 'IEEE rounding and overflow of exp at extreme ratios'
ASSUMPTIONS = ['exp and log are axiomatised (additivity, monotonicity)']
THZ = 1e12


def mode(env):
    t = env.real('T', lo=0., hi=3000., sample=(20., 1500.))
    f = env.real('THz', sample=(-5., 30.))
    w = f * THZ
    k = env.real('weight', lo=0., hi=64., sample=(.1, 4.))
    F, U0, U1, S, C = [hc.call(env, n, t, w, k) for n in (
        'vibrational_free_energy', 'zero_point_energy', 'thermal_energy',
        'entropy', 'isochoric_heat_capacity')]
    env.check_eq('F = Uzp + Uth - TS', F, U0 + U1 - t * S * 1e-3,
                 catol=1e-9)


def totals(env):
    """static + vibrational totals built by the library."""
    m = env.load(hc.MOD)
    U0 = env.arr('U0', 2, sample=(-5., 5.))
    zp = env.arr('Uzp', 2, sample=(0., 5.))
    th = env.arr('Uth', (2, 2), sample=(0., 5.))
    fv = env.arr('Fvib', (2, 2), sample=(-5., 5.))
    U = m.internal_energy(U0, zp, th)
    F = m.free_energy(U0, fv)
    env.check_true('shapes', U.shape == (2, 2) and F.shape == (2, 2))
    for i in range(2):
        for j in range(2):
            env.check_eq('U[%d,%d]' % (i, j), U[i, j],
                         U0[j] + zp[j] + th[i, j])
            env.check_eq('F[%d,%d]' % (i, j), F[i, j], U0[j] + fv[i, j])


def crystal(env):
    """the sum over a sampled Brillouin zone."""
    m = env.load(hc.MOD)
    band = env.arr('w', (2, 3, 2), pos=True, sample=(2., 25.)) * THZ
    wt = env.arr('k', 2, pos=True, sample=(.1, 1.))
    T = env.mkarr([env.real('T', pos=True, sample=(50., 900.))])
    U0 = env.arr('U0', 2, sample=(-5., 5.))
    zp = m.zero_point_energy(env.mkarr([0.]), band, wt)
    U = m.internal_energy(U0, zp[0], m.thermal_energy(T, band, wt))
    F = m.free_energy(U0, m.vibrational_free_energy(T, band, wt))
    S = m.entropy(T, band, wt)
    for n in range(2):
        env.check_eq('F = U - TS [%d]' % n, F[0, n],
                     U[0, n] - T[0] * S[0, n] * 1e-3, catol=1e-9)


def harnesses(tier):
    return [('mode', mode, {}), ('totals', totals, {}),
            ('crystal', crystal, {'max_paths': 20})]
