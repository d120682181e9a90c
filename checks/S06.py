# -*- coding: utf-8 -*-
"""S06: mechanical stability and what the SOEC analysis reports."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
import scommon as sc

BOUNDS = ('cubic, orthorhombic and triclinic matrices with symbolic '
          'components (stable and unstable), density given or not')
OUTSIDE = 'the directional extremes (see S05)'
ASSUMPTIONS = ['the eigenvalues of a symmetric matrix are a function of the '
               'matrix, in ascending order, adding up to its trace',
               'numpy.linalg.inv returns the inverse']


def number(text, mark, k=0, row=0):
    """k-th number of the line with ``mark``."""
    L = [s for s in text.splitlines() if mark in s]
    if len(L) <= row:
        return None
    w = L[row].split(mark, 1)[1].replace(':', ' ').split()
    return w[k] if len(w) > k else None


def stability(env, kind):
    C = sc.voigt(env, kind=kind, off_=(-150., 200.))
    dens = env.choice('density', [True, False])
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    sc.generic(env, C, kind)
    calc, err, text = sc.calculator(env, C, rho if dens else None)
    m = env.load(sc.CALC)
    e = m.np.linalg.eigvalsh(env.mkarr(C))
    if err is not None:
        env.check('refused only if singular', env.Or(
            *[env.And(x < 1e-6, x > -1e-6) for x in e]))
        return
    o = env.load(sc.MOD).SOEC(env.mkarr(C), rho)
    calc.report_input_data()
    calc.run()
    t = text()
    stable = bool(e[0] > 0.)
    env.check_true('completed iff stable', bool(calc.completed) == stable)
    env.check_true('error iff unstable',
                   isinstance(calc.error, str) == (not stable))
    env.check_true('directional analysis iff stable',
                   ('E_min' in t) == stable and ('G_min' in t) == stable)
    env.check_true('wave analysis iff stable and density',
                   ('V_s1' in t) == (stable and dens))
    env.check_true('the user is told', ('unstable' in t) == (not stable))
    ev = calc.results['eigv']
    for k in range(6):
        env.check_eq('eigenvalue %d' % k, ev[k], e[k])
        env.check_eq('reported eigenvalue %d' % k, env.printed(
            number(t, 'lambda_%d:' % (k + 1))), e[k], catol=1e-4)
    a = o.averages()
    for i, n in enumerate(('Voigt', 'Reuss', 'Hill')):
        for j in range(4):
            env.check_eq('%s %d' % (n, j), calc.results['avgs'][i][j],
                         a[i][j])
            env.check_eq('reported %s %d' % (n, j),
                         env.printed(number(t, n, j)), a[i][j], catol=1e-4)
    for n, k in (('Density', 0),):
        s = number(t, n)
        if dens:
            env.check_eq('density', env.printed(s), rho)
        else:
            env.check_true('density', s == 'not')
    L = t.splitlines()
    for mark, M, f in (('Stiffness', C, 1.), ('Compliance', o.compliance,
                                              1e3)):
        r = [i for i, s in enumerate(L) if s.startswith(mark)][0]
        for i in range(6):
            w = L[r + 1 + i].split()
            env.check_true(mark + ' columns', len(w) == 6)
            for j in range(6):
                env.check_eq('%s %d%d' % (mark, i, j), env.printed(w[j]),
                             M[i][j] * f, catol=1e-4)


def velocities(env):
    """isotropic velocities: reported only when there is a density."""
    dens = env.choice('density', [True, False])
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    C = sc.voigt(env, kind='cubic')
    env.assume(C[3][3] > 1.)
    env.assume(C[0][0] - C[0][1] > 1.)
    env.assume(C[0][0] + 2. * C[0][1] > 1.)
    e = env.load(sc.CALC).np.linalg.eigvalsh(env.mkarr(C))
    o = env.load(sc.MOD).SOEC(env.mkarr(C), rho)
    h = o.averages()[2]
    env.assume(h[0] > 1.)
    env.assume(h[2] > 1.)
    calc, err, text = sc.calculator(env, C, rho if dens else None)
    calc.run()
    t = text()
    env.check_true('velocities iff density', ('Vs)' in t) == dens)
    v = calc.results['avg_wave_velocities']
    if dens:
        s, p = (env.printed(number(t, x)) for x in ('(Vs):', '(Vp):'))
        env.check_eq('Vs', s, env.sqrt(1e3 * h[2] / rho), ctol=1e-4)
        env.check_eq('Vp', p, env.sqrt(1e3 * (h[0] + 4. * h[2] / 3.) / rho),
                     ctol=1e-4)
    else:
        for k in range(3):
            env.check_true('no number', not bool(v[k] == v[k]))


def harnesses(tier):
    o = {'inv_defs': False, 'numpy_div': True,
         'stubs': {'scipy.optimize.brute': sc.some_point}}
    out = [('velocities', velocities, o)]
    for k in ('cubic', 'orthorhombic', 'triclinic'):
        out.append(('stability-' + k, lambda env, k=k: stability(env, k),
                    dict(o, validate=4, loose=True)))
    return out
