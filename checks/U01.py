# -*- coding: utf-8 -*-
"""U01: conversions between measurement units."""
from fractions import Fraction
import numpy as np

BOUNDS = ('every ordered pair of supported units of temperature, energy, '
          'pressure, frequency, length and volume; arbitrary real values, as '
          'scalars and as arrays of 2 values')
OUTSIDE = 'IEEE rounding'
ASSUMPTIONS = ['unit anchors are compared with the SI/CODATA values to 1e-6 '
               'relative (energy) and 1e-9 (others)']

# amount of the base unit in one unit (scale), offset
eV, Ha, Ry, NA, C = (1.602176634e-19, 4.3597447222071e-18,
                     2.1798723611035e-18, 6.02214076e23, 299792458.)
BOHR = 5.29177210903e-11
KINDS = {
    'temperature': ('convert_temperature', {
        'K': (1., 0.), 'kelvin': (1., 0.), 'C': (1., 273.15),
        'celsius': (1., 273.15), 'F': (5. / 9., 273.15 - 160. / 9.),
        'fahrenheit': (5. / 9., 273.15 - 160. / 9.),
        'rankine': (5. / 9., 0.), 'R': (5. / 9., 0.)}),
    'energy': ('convert_energy', {
        'Ha': (Ha, 0.), 'ha': (Ha, 0.), 'Hartree': (Ha, 0.),
        'hartree': (Ha, 0.), 'eV': (eV, 0.), 'ev': (eV, 0.),
        'electron volt': (eV, 0.), 'Ry': (Ry, 0.), 'Rydberg': (Ry, 0.),
        'kJ/mol': (1000. / NA, 0.), 'kjmol': (1000. / NA, 0.)}),
    'pressure': ('convert_pressure', {
        'GPa': (1e9, 0.), 'gpa': (1e9, 0.), 'MPa': (1e6, 0.),
        'kPa': (1e3, 0.), 'Pa': (1., 0.), 'Gbar': (1e14, 0.),
        'Mbar': (1e11, 0.), 'kbar': (1e8, 0.), 'bar': (1e5, 0.)}),
    'frequency': ('convert_frequency', {
        'cm^-1': (100. * C, 0.), 'Hz': (1., 0.), 'hz': (1., 0.),
        'THz': (1e12, 0.)}),
    'length': ('convert_lenght', {
        'm': (1., 0.), 'metre': (1., 0.), 'A': (1e-10, 0.),
        'angstrom': (1e-10, 0.), 'bohr': (BOHR, 0.), 'Bohr': (BOHR, 0.)}),
    'volume': ('convert_volume', {
        'm': (1., 0.), 'metre': (1., 0.), 'A': (1e-30, 0.),
        'angstrom': (1e-30, 0.), 'bohr': (BOHR ** 3, 0.)}),
}


def kind(k):
    fn, units = KINDS[k]

    def h(env):
        f = getattr(env.load('quantas.utils.physics.units'), fn)
        x = env.real('x', sample=(-500., 500.))
        y = env.real('y', sample=(-500., 500.))
        a = env.choice('from', sorted(units))
        b = env.choice('to', sorted(units))
        (sa, oa), (sb, ob) = units[a], units[b]
        r = f(x, a, b)
        env.check_eq('anchor', r, (x * sa + (oa - ob)) / sb, rtol=1e-6,
                     ctol=1e-6, scale=abs(oa / sb), atol=1e-9 if oa or ob
                     else 0.)
        env.check_eq('round trip', f(r, b, a), x, catol=1e-9)
        v = env.mkarr([x, y])
        w = f(v, a, b)
        env.check_eq('array[0]', w[0], r, catol=1e-9)
        env.check_eq('array[1]', w[1], f(y, a, b), catol=1e-9)
        env.check_arr('argument kept', v, env.mkarr([x, y]))
        # composition through a third unit
        for c in sorted(units)[::3]:
            env.check_eq('via ' + c, f(f(x, a, c), c, b), r, catol=1e-9)
    return h


def unknown(env):
    m = env.load('quantas.utils.physics.units')
    k = env.choice('kind', sorted(KINDS))
    side = env.choice('side', ['from', 'to'])
    bad = env.choice('unit', ['parsec', '', 'GPa ', 'xyz'])
    fn, units = KINDS[k]
    good = sorted(units)[0]
    args = (bad, good) if side == 'from' else (good, bad)
    x = env.real('x')
    try:
        getattr(m, fn)(x, *args)
        ok = False
    except NotImplementedError:
        ok = True
    env.check_true('refused', ok)


def harnesses(tier):
    return [(k, kind(k), {'validate': 12}) for k in sorted(KINDS)] + \
        [('unknown', unknown, {})]
