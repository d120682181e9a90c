# -*- coding: utf-8 -*-
"""Q06: acoustic contributions of Kieffer's model."""
import os
import sys
import math
from types import SimpleNamespace
sys.path.insert(0, os.path.dirname(__file__))
import hcommon as hc
import qcommon as qc

BOUNDS = ('1-3 acoustic branches of any cutoff frequency, any temperature '
          '(T = 0 included) with 1e-2 < h nu / k T; the integrands and the '
          'limits of the integrals, at every point of the integration '
          'interval')
OUTSIDE = ('the quadrature itself (scipy): the integral is replaced by the '
           'value of the integrand at an arbitrary point of the interval, a '
           'linear functional that separates the integrands; rounding')
ASSUMPTIONS = ['x = u h nu / (k T) or x = u, with 0 < u < 1 the integration '
               'variable']
NAMES = ['helmholtz', 'heat_capacity', 'entropy']


def arcsin(env, u):
    return u.arcsin() if env.sym else math.asin(u)


def density(env, name, T, nu, u):
    """closed form of the density in u of a branch."""
    x = u * hc.H * nu / (hc.KB * T)
    k = 3. * (2. / math.pi) ** 3 * arcsin(env, u) ** 2 / env.cosine
    ln = env.log(1. - env.exp(-x))
    e = env.exp(x)
    if name == 'helmholtz':
        return k * hc.R * T * ln
    if name == 'entropy':
        return k * hc.R * (x / (e - 1.) - ln)
    return k * hc.R * x * x * e / ((e - 1.) * (e - 1.))


def setup(env, n):
    # every point of (0, 1), with a rational square root of 1 - u^2
    s = env.real('s', pos=True, sample=(.1, .9))
    env.assume(s < 1.)
    u = (1. - s * s) / (1. + s * s)
    env.cosine = 2. * s / (1. + s * s)
    T = env.real('T', pos=True, sample=(30., 900.))
    nu = [env.real('THz%d' % i, pos=True, sample=(1., 8.)) * 1e12
          for i in range(n)]
    for f in nu:
        env.assume(hc.H * f > .01 * hc.KB * T)
    low = []

    def quad(func, a, b, args=(), *r, **k):
        args = tuple(args) if isinstance(args, (tuple, list)) else (args,)
        low.append((a, b))
        ans = b * func(b * u, *args), 0.
        return ans + ({'neval': 21},) if k.get('full_output') else ans
    import scipy.integrate
    env.patch(scipy.integrate, 'quad', quad)
    K = env.load('quantas.qha.utils.kieffer').Kieffer
    return K, u, T, nu, low


def closed(name):
    def h(env):
        n = env.choice('branches', [1, 3])
        K, u, T, nu, low = setup(env, n)
        r = getattr(K(env.mkarr(nu)), name)(T)
        env.check_true('integrals', len(low) == n)
        for a, b in low:
            env.check('lower limit', env.And(a >= 0., a <= 1e-3 * b))
        ref = 0.
        for f in nu:
            ref = ref + density(env, name, T, f, u)
        env.check_eq('closed form', r, ref, ctol=1e-6)
    return h


def identities(env):
    K, u, T, nu, low = setup(env, 1)
    k = K(env.mkarr(nu))
    d = env.deriv(lambda t: k.helmholtz(t), T)
    env.check_eq('S = -dF/dT', k.entropy(T), -d, ctol=1e-4)
    s = env.deriv(lambda t: k.entropy(t), T)
    env.check_eq('Cv = T dS/dT', k.heat_capacity(T), T * s, ctol=1e-4)


def cold(env):
    K, u, T, nu, low = setup(env, 2)
    k = K(env.mkarr(nu))
    for n in NAMES:
        env.check_eq(n, getattr(k, n)(0.), 0.)


def other(env):
    """instances, and new frequencies of the same instance."""
    K, u, T, nu, low = setup(env, 3)
    name = env.choice('function', NAMES)
    a, b = K(env.mkarr(nu[:1])), K(env.mkarr(nu[1:]))
    ref = [density(env, name, T, f, u) for f in nu]
    env.check_eq('first', getattr(a, name)(T), ref[0], ctol=1e-6)
    env.check_eq('second', getattr(b, name)(T), ref[1] + ref[2], ctol=1e-6)
    a.acofreq = env.mkarr(nu[2:])
    env.check_eq('new', getattr(a, name)(T), ref[2], ctol=1e-6)


def missing(env):
    """acoustic contributions without acoustic frequencies."""
    qc.quiet(env)
    V, U, W = qc.crystal(env, 4)
    has = env.choice('attribute', [False, True])
    C = env.load(qc.MOD).QHACalculator
    c = C(qc.settings(e='eV', kieffer=True))
    d = qc.data(env, V, U, [W])
    if has:
        d.acoustic_kieffer = None
    c.input = d
    c.run()
    env.check_true('not completed', not c.completed)
    env.check_true('explained', isinstance(c.error, str) and len(c.error) > 9)


def harnesses(tier):
    return [(n, closed(n), {'numpy_div': True}) for n in NAMES] + [
        ('identities', identities, {}), ('cold', cold, {}),
        ('other', other, {}), ('missing', missing, {})]
