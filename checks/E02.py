# -*- coding: utf-8 -*-
"""E02: fitted curves are the documented closed forms and truncations."""

BOUNDS = ('one volume; all K0, V0, V > 0 and all real K\', K\'\' with the '
          'strain expression defined; orders 2, 3, 4; volume data, and axis '
          'data for orders 3 and 4')
OUTSIDE = 'IEEE rounding; implied values for second-order axis fits'
ASSUMPTIONS = ['floats are treated as reals; constants equal up to 1e-8 '
               'relative are identified', 'K0, V0, V > 0']

from E01 import params


def ref(env, name, k0, kp, kpp, v0, v, order):
    if name == 'Murnaghan':
        return k0 / kp * ((v0 / v) ** kp - 1.)
    if name == 'BirchMurnaghan':
        f = 0.5 * ((v0 / v) ** (2. / 3.) - 1.)
        kp = 4. if order == 2 else kp
        r = 1. + 1.5 * (kp - 4.) * f
        if order == 4:
            r = r + 1.5 * (k0 * kpp + (kp - 4.) * (kp - 3.) + 35. / 9.) * f * f
        return 3. * k0 * f * (1. + 2. * f) ** 2.5 * r
    if name == 'NaturalStrain':
        f = env.log(v0 / v) / 3.
        kp = 2. if order == 2 else kp
        r = 1. + 1.5 * (kp - 2.) * f
        if order == 4:
            r = r + 1.5 * (1. + k0 * kpp + (kp - 2.) + (kp - 2.) ** 2) * f * f
        return 3. * k0 * (v0 / v) * f * r
    if name == 'Vinet':
        f = 1. - (v / v0) ** (1. / 3.)
        kp = 1. if order == 2 else kp
        return 3. * k0 * f / (1. - f) ** 2 * env.exp(1.5 * (kp - 1.) * f)
    if name == 'Tait':
        if order == 2:
            kp = 4.
        if order < 4:
            kpp = -kp / k0
        a = (1. + kp) / (1. + kp + k0 * kpp)
        b = kp / k0 - kpp / (1. + kp)
        c = (1. + kp + k0 * kpp) / (kp * kp + kp - k0 * kpp)
        return 1. / b * (((v / v0 + a - 1.) / a) ** (-1. / c) - 1.)


def form(name):
    def h(env):
        mod = env.load('quantas.eosfit.utils.pv_eos')
        eos = getattr(mod, name)()
        k0, kp, kpp, v0 = params(env)
        v = env.real('V', pos=True, sample=(55., 150.))
        if name == 'Tait' and not env.sym:
            # the bracket must be positive
            env.assume(v / v0 > 0.7)
        elif name == 'Tait':
            env.assume(v / v0 > 0.7)
        dofit = env.choice('dofit', [True, False])
        order = env.choice('order', [4, 3, 2]) if dofit else 4
        linear = env.choice('linear', [False, True]) if order > 2 else False
        n = env.choice('n', [0, 1])
        p = env.mkarr([k0, kp, kpp, v0])
        if n:
            got = eos.eos(p, env.mkarr([v, v0]), order, linear, dofit)
            env.check_eq('P(V0) in array', got[1], 0., catol=1e-9)
            got = got[0]
        else:
            got = eos.eos(p, v, order, linear, dofit)
        o = order
        if not dofit:
            o = 4
        env.check_eq('P', got, ref(env, name, k0, kp, kpp, v0, v, o),
                     catol=1e-8)
    return h


def tait_murnaghan(env):
    mod = env.load('quantas.eosfit.utils.pv_eos')
    k0, kp, kpp, v0 = params(env)
    v = env.real('V', pos=True, sample=(55., 150.))
    p1 = env.mkarr([k0, kp, 0., v0])
    p2 = env.mkarr([k0, kp, 0., v0])
    a = mod.Tait().eos(p1, v, 4, False, False)
    b = mod.Murnaghan().eos(p2, v, 4, False, False)
    env.check_eq('Tait(K\'\'=0) = Murnaghan', a, b, catol=1e-8)


def harnesses(tier):
    out = [(n, form(n), {}) for n in
           ['Murnaghan', 'BirchMurnaghan', 'NaturalStrain', 'Vinet', 'Tait']]
    return out + [('tait-murnaghan', tait_murnaghan, {})]
