# -*- coding: utf-8 -*-
"""E01: P-V equations of state reproduce their own parameters."""

BOUNDS = ('one volume at a time; K0, V0 > 0, K\', K\'\' arbitrary reals; '
          'orders 2-4, volume and axis (linear) data, fitting and evaluation '
          'mode')
OUTSIDE = 'IEEE rounding; volumes where the formulation is not defined'
ASSUMPTIONS = ['floats are treated as reals; constants equal up to 1e-8 '
               'relative are identified',
               'K0 > 0, V0 > 0, V > 0 and the base of every power positive']

# K' of the second order (volume, axis) and K0 K'' of the third
SECOND = {'BirchMurnaghan': (4., 12.), 'NaturalStrain': (2., 6.),
          'Vinet': (1., 3.), 'Tait': (4., 12.)}
IMPLIED = {'Murnaghan': lambda k: 0. * k,
           'BirchMurnaghan': lambda k: -(3. - k) * (4. - k) - 35. / 9.,
           'NaturalStrain': lambda k: -1. - (k - 2.) - (k - 2.) ** 2,
           'Vinet': lambda k: -k * k / 4. - k / 2. + 19. / 36.,
           'Tait': lambda k: -k}
FORMS = ['Murnaghan', 'BirchMurnaghan', 'NaturalStrain', 'Vinet', 'Tait']


def params(env):
    k0 = env.real('K0', pos=True, sample=(40., 250.))
    kp = env.real('Kp', sample=(2.5, 7.))
    kpp = env.real('Kpp', sample=(-0.08, 0.01))
    v0 = env.real('V0', pos=True, sample=(60., 140.))
    return [k0, kp, kpp, v0]


def curve(env, name):
    def h(env):
        mod = env.load('quantas.eosfit.utils.pv_eos')
        eos = getattr(mod, name)()
        pars = params(env)
        dofit = env.choice('dofit', [False, True])
        order = env.choice('order', [4, 3, 2]) if dofit else 4
        linear = env.choice('linear', [False, True])
        box = {}

        def P(v):
            p = env.mkarr(list(pars))
            r = eos.eos(p, v, order, linear, dofit)
            box['p'] = p
            return r
        d = env.derivs_at(P, pars[3], 3)
        k0, kp, kpp, v0 = [box['p'][i] for i in range(4)]
        env.check_eq('P(V0)', d[0], 0., ctol=1e-6, catol=1e-9)
        K = -v0 * d[1]
        env.check_eq('K(V0)', K, k0, ctol=1e-5)
        K1 = -(1. + v0 * d[2] / d[1])
        env.check_eq("K'(V0)", K1, kp, ctol=1e-4)
        K2 = -(d[2] / d[1] + v0 * d[3] / d[1]
                   - v0 * (d[2] / d[1]) ** 2) / d[1]
        env.check_eq("K''(V0)", K2, kpp, ctol=2e-3, catol=2e-4)
        env.check_eq('K0 untouched', k0, pars[0])
        # parameters implied by the order, the others as supplied
        if name in SECOND and dofit and order == 2:
            env.check_eq("implied K'", kp, SECOND[name][1 if linear else 0])
        else:
            env.check_eq("K' untouched", kp, pars[1])
        if name in ('Murnaghan', 'Vinet') or dofit and order < 4:
            env.check_eq("implied K''", kpp * k0, IMPLIED[name](kp),
                         ctol=1e-6, catol=1e-6)
        else:
            env.check_eq("K'' untouched", kpp, pars[2])
        env.check_eq('V0 untouched', v0, pars[3])
    return h


def harnesses(tier):
    return [(n, curve(None, n), {'noise': 1e-2}) for n in FORMS]
