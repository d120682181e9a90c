# -*- coding: utf-8 -*-
"""U02: energy density <-> pressure."""
import numpy as np

BOUNDS = ('every combination of energy, volume and pressure unit; arbitrary '
          'real values as scalars, arrays of 2 values and integers')
OUTSIDE = 'IEEE rounding'
ASSUMPTIONS = ['unit anchors are compared with the SI/CODATA values to 1e-6']
eV, Ha, Ry = 1.602176634e-19, 4.3597447222071e-18, 2.1798723611035e-18
BOHR = 5.29177210903e-11
EN = {'Ha': Ha, 'hartree': Ha, 'eV': eV, 'electron volt': eV, 'Ry': Ry,
      'rydberg': Ry}
VO = {'A': 1e-30, 'angstrom': 1e-30, 'A^3': 1e-30, 'bohr': BOHR ** 3,
      'bohr^3': BOHR ** 3}
PR = {'GPa': 1e9, 'MPa': 1e6, 'kPa': 1e3, 'Pa': 1., 'Gbar': 1e14,
      'Mbar': 1e11, 'kbar': 1e8, 'bar': 1e5}


def pair(env):
    m = env.load('quantas.utils.physics.units')
    x = env.real('x', sample=(-5., 5.))
    y = env.real('y', sample=(-5., 5.))
    e = env.choice('energy', sorted(EN))
    v = env.choice('volume', sorted(VO))
    p = env.choice('pressure', sorted(PR))
    F = EN[e] / VO[v] / PR[p]
    r = m.energy_to_pressure(x, e, v, p)
    env.check_eq('anchor', r, x * F, rtol=1e-6, ctol=1e-6)
    env.check_eq('inverse', m.pressure_to_energy(r, e, v, p), x)
    env.check_eq('inverse anchor', m.pressure_to_energy(x, e, v, p), x / F,
                 rtol=1e-6, ctol=1e-6)
    a = env.mkarr([x, y])
    w = m.energy_to_pressure(a, e, v, p)
    env.check_eq('array[0]', w[0], r)
    env.check_eq('array[1]', w[1], m.energy_to_pressure(y, e, v, p))
    env.check_arr('argument kept', a, env.mkarr([x, y]))
    b = env.mkarr([x, y])
    u = m.pressure_to_energy(b, e, v, p)
    env.check_eq('inverse array[0]', u[0], m.pressure_to_energy(x, e, v, p))
    env.check_eq('inverse array[1]', u[1], m.pressure_to_energy(y, e, v, p))
    env.check_arr('argument kept (inverse)', b, env.mkarr([x, y]))


def ints(env):
    m = env.load('quantas.utils.physics.units')
    x = env.real('x', sample=(-5., 5.))
    k = env.choice('n', [1, 3, -2])
    a = m.energy_to_pressure(np.array([k, 2 * k]), 'Ha', 'A', 'GPa')
    b = m.energy_to_pressure(float(k), 'Ha', 'A', 'GPa')
    env.check_eq('integers', a[0], b + 0. * x)
    a = m.pressure_to_energy(np.array([k, 2 * k]), 'Ha', 'A', 'GPa')
    b = m.pressure_to_energy(float(k), 'Ha', 'A', 'GPa')
    env.check_eq('integers (inverse)', a[0], b + 0. * x)


def unknown(env):
    m = env.load('quantas.utils.physics.units')
    f = env.choice('f', ['energy_to_pressure', 'pressure_to_energy'])
    pos = env.choice('position', [0, 1, 2])
    args = ['Ha', 'A', 'GPa']
    args[pos] = env.choice('unit', ['parsec', ''])
    x = env.real('x')
    try:
        getattr(m, f)(x, *args)
        ok = False
    except NotImplementedError:
        ok = True
    env.check_true('refused', ok)


def harnesses(tier):
    return [('pair', pair, {'validate': 20}), ('integers', ints, {}),
            ('unknown', unknown, {})]
