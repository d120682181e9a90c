# -*- coding: utf-8 -*-
"""H05: temperature and pressure grids."""

BOUNDS = ('symbolic minimum and step, maximum = minimum + n*step + remainder '
          'with n = 0..5 (0..12 thorough) and remainder anywhere in '
          '[0, 0.99 step); literal ranges typical of the command line')
OUTSIDE = 'IEEE rounding, except for the literal ranges (executed as floats)'
ASSUMPTIONS = ['step > 0']

LIT = [((298.15, 298.15, 1.), 1), ((0., 1., .1), 11), ((0., 10., 4.), 3),
       ((0., 1000., 10.), 101), ((10., 300., 7.), 42), ((0., 5., .5), 11),
       ((0.1, 0.7, .1), 7), ((0., 3., .3), 11), ((5., 5., 10.), 1),
       ((300., 301.1, .1), 12), ((0., 12., 1.2), 11), ((.3, .9, .3), 3)]


def settings():
    return {'trange': (300., 300., 1.), 'prange': (0., 0., 1.),
            'energy_unit': 'Ha', 'lenght_unit': 'A',
            'frequency_unit': 'cm^-1', 'temperature_unit': 'K',
            'pressure_unit': 'GPa', 'debug': False, 'silent': True,
            'logfile': None, 'eos': 'BM', 'volume_conversion': 'A',
            'scheme': 'freq', 'minimization': 'poly', 'fitting_order': 3,
            'energy_degree': 3, 'frequency_degree': 3,
            'acoustic_kieffer': False}


GRIDS = [('quantas.harmonic.harmonic', 'HACalculator', 'temperature'),
         ('quantas.qha.qha', 'QHACalculator', 'temperature'),
         ('quantas.qha.qha', 'QHACalculator', 'pressure')]


def set_grid(env, which, rng):
    mod, cls, attr = which
    C = getattr(env.load(mod), cls)
    c = C.__new__(C)
    setattr(c, attr, rng)
    return getattr(c, attr)


def symbolic(nmax):
    def h(env):
        which = env.choice('grid', GRIDS)
        lo = env.real('min', sample=(0., 400.))
        st = env.real('step', pos=True, sample=(.5, 50.))
        n = env.choice('n', list(range(nmax + 1)))
        r = env.real('rem', lo=0., hi=.99, sample=(0.02, .98)) \
            if env.choice('remainder', [False, True]) else 0.
        rng = (lo, lo + st * (n + r), st)
        g = set_grid(env, which, rng)
        env.check_true('number of points', len(g) == n + 1,
                       detail='%d != %d' % (len(g), n + 1))
        if len(g) == n + 1:
            for i in range(n + 1):
                env.check_eq('point %d' % i, g[i], lo + st * i, catol=1e-9)
    return h


def literal(env):
    which = env.choice('grid', GRIDS)
    rng, n = env.choice('range', LIT)
    x = env.real('x')
    g = set_grid(env, which, rng)
    env.check_true('number of points', len(g) == n,
                   detail='%d != %d' % (len(g), n))
    env.check_eq('first', g[0], rng[0], catol=1e-9)
    env.check_true('none above the maximum',
                   float(g[-1]) <= rng[1] + 1e-6 * rng[2])
    if n > 1:
        env.check_eq('spacing', g[1] - g[0], rng[2], catol=1e-9)


def harnesses(tier):
    return [('symbolic', symbolic(12 if tier == 'thorough' else 5),
             {'int_fork': 4, 'validate': 10}),
            ('literal', literal, {'validate': 40})]
