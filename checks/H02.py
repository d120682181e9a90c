# -*- coding: utf-8 -*-
"""H02: the thermodynamic functions of a vibrational mode."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import hcommon as hc

BOUNDS = ('one mode, any frequency in (-40, 40) THz, any temperature in '
          '[0, 3000] K, any weight')
OUTSIDE = 'IEEE rounding and overflow of exp at extreme ratios'
ASSUMPTIONS = ['exp and log are axiomatised (functional equations, '
               'derivative, monotonicity and first-order bounds)']
THZ = 1e12


def closed(name):
    def h(env):
        t = env.real('T', lo=0., hi=3000., sample=(20., 1500.))
        f = env.real('THz', lo=-40., hi=40., sample=(-5., 30.))
        k = env.real('weight', sample=(-2., 4.))
        w = f * THZ
        r = hc.call(env, name, t, w, k)
        if bool(f <= 0.):
            env.check_eq('imaginary and zero modes do not contribute', r, 0.)
        elif bool(t == 0.):
            ref = hc.zpe(env, t, w) if name in (
                'zero_point_energy', 'vibrational_free_energy') else 0.
            env.check_eq('limit T = 0', r, ref * k)
        else:
            env.check_eq('closed form', r, hc.FN[name](env, t, w) * k,
                         catol=1e-9)
        env.reach()
    return h


def cold(env):
    """T = 0 exactly."""
    f = env.real('THz', lo=-40., hi=40., sample=(-5., 30.))
    w = f * THZ
    pos = bool(f > 0.)
    for n in sorted(hc.FN):
        r = hc.call(env, n, 0., w)
        z = pos and n in ('zero_point_energy', 'vibrational_free_energy')
        env.check_eq(n, r, hc.zpe(env, 0., w) if z else 0., catol=1e-12)


def derivatives(env):
    t = env.real('T', pos=True, sample=(150., 900.))
    f = env.real('THz', pos=True, sample=(4., 25.))
    w = f * THZ
    u = env.deriv(lambda x: hc.call(env, 'thermal_energy', x, w), t)
    env.check_eq('Cv = dU/dT', hc.call(env, 'isochoric_heat_capacity', t, w),
                 1e3 * u, ctol=1e-4)
    d = env.deriv(lambda x: hc.call(env, 'vibrational_free_energy', x, w), t)
    env.check_eq('S = -dF/dT', hc.call(env, 'entropy', t, w), -1e3 * d,
                 ctol=1e-4)
    s = env.deriv(lambda x: hc.call(env, 'entropy', x, w), t)
    env.check_eq('Cv = T dS/dT',
                 hc.call(env, 'isochoric_heat_capacity', t, w), t * s,
                 ctol=1e-4)
    g = env.deriv(lambda x: hc.call(env, 'vibrational_free_energy', t,
                                    x * THZ), f)
    env.check_eq('w dF/dw = Uzp + Uth', g * f,
                 hc.call(env, 'zero_point_energy', t, w)
                 + hc.call(env, 'thermal_energy', t, w), ctol=1e-4)
    z = env.deriv(lambda x: hc.call(env, 'zero_point_energy', x, w), t)
    env.check_eq('Uzp does not depend on T', z, 0., catol=1e-7)


def signs(env):
    t = env.real('T', lo=1., hi=3000., sample=(20., 1500.))
    f = env.real('THz', lo=.01, hi=40., sample=(1., 30.))
    w = f * THZ
    U = hc.call(env, 'thermal_energy', t, w)
    env.check('Uth >= 0', U >= 0.)
    env.check('Uth <= RT', U <= 1e-3 * hc.R * t * (1. + 1e-9))
    env.check('Uzp > 0', hc.call(env, 'zero_point_energy', t, w) > 0.)
    env.check('S >= 0', hc.call(env, 'entropy', t, w) >= 0.)
    env.check('Cv >= 0', hc.call(env, 'isochoric_heat_capacity', t, w) >= 0.)
    env.check('F <= Uzp', hc.call(env, 'vibrational_free_energy', t, w) <=
              hc.call(env, 'zero_point_energy', t, w) * (1. + 1e-9))


def harnesses(tier):
    return [(n, closed(n), {}) for n in sorted(hc.FN)] + [
        ('cold', cold, {}), ('derivatives', derivatives, {}),
        ('signs', signs, {'timeout': 30})]
