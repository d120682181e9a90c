# -*- coding: utf-8 -*-
"""Q02: equilibrium volume and bulk modulus at temperature and pressure."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import qcommon as qc
import hcommon as hc

BOUNDS = ('4-5 fixed volumes, symbolic energies and frequencies of one mode, '
          'polynomials of degree 2-4 for the energy and 2 for the '
          'frequencies, 1-2 temperatures x 1-2 pressures; both schemes; the '
          'four equations of state (in eV and A, in hartree and bohr); every '
          'energy, volume, pressure and temperature unit; the start of the fit '
          'on quartics with two minima')
OUTSIDE = ('free-energy curves without a minimum, degree 5; convergence of '
           'the EoS optimiser; rounding of the least-squares solver')
ASSUMPTIONS = ['numpy polynomial roots: real simple roots in ascending order '
               'with alternating slopes (contract); least squares are exact',
               'scipy.optimize.curve_fit is replaced by a function of the '
               'data it receives; the interpolated frequencies stay real']


def start(env, n, modes=1, **kw):
    qc.quiet(env)
    C = env.load(qc.MOD).QHACalculator
    V, U, W = qc.crystal(env, n, kw.get('e', 'eV'), modes)
    c = C(qc.settings(**dict({'e': 'eV'}, **kw)))
    c.input = qc.data(env, V, U, [W])
    return c, V, U, W


def helmholtz(env, T, U, W, e='eV', fu='cm^-1'):
    """F(V,T) at the sampled volumes."""
    out = []
    for i in range(len(U)):
        f = U[i]
        for w in W:
            f = f + hc.fvib(env, T, w[i] * qc.FU[fu]) * 1e3 / \
                hc.NA / qc.EU[e]
        out.append(f)
    return out


def poly(n, deg, scheme, nt=1, npr=1):
    def h(env):
        c, V, U, W = start(env, n, scheme=scheme, edeg=deg, fdeg=2,
                           trange=(300., 300. + 200. * (nt - 1), 200.),
                           prange=(0., 4. * (npr - 1), 4.))
        c.run()
        r = c.results
        fit = qc.Lsq(env, V, deg)
        pv = 1e9 * 1e-30 / qc.EV
        for i in range(nt):
            F = helmholtz(env, 300. + 200. * i, U, W)
            for j in range(npr):
                lab = '[%d,%d]' % (i, j)
                x = r['VT'][i, j]
                qc.sane(env, fit, F, 4. * j * pv, pv)
                env.check_eq('-dF/dV = P' + lab, -fit.value(F, x, 1),
                             4. * j * pv, ctol=1e-5, catol=1e-6)
                k = fit.value(F, x, 2)
                env.check_true('minimum' + lab,
                               bool(r['KT'][i, j] / x > 0.))
                if scheme == 'td':
                    env.check_eq('KT' + lab, r['KT'][i, j], k * x / pv,
                                 ctol=1e-3)
    return h


def units(env):
    """every unit, pressures of both signs."""
    e, v, p, t = env.choice('units', qc.UNITS)
    f = env.choice('frequency', ['cm^-1', 'THz']) \
        if (e, v) == ('eV', 'A') else 'cm^-1'
    lo, hi = {'GPa': (-1., 2.), 'kbar': (-10., 20.)}[p]
    t0 = 300. if t == 'K' else 20.
    c, V, U, W = start(env, 4, scheme='td', edeg=2, e=e, v=v, p=p, t=t, f=f,
                       trange=(t0, t0, 1.), prange=(lo, hi, hi - lo))
    c.run()
    r = c.results
    F = helmholtz(env, qc.kelvin(t0, t), U, W, e, f)
    fit = qc.Lsq(env, V, 2)
    pv = qc.PU[p] * qc.VU[v] / qc.EU[e]
    for j, P in enumerate((lo, hi)):
        x = r['VT'][0, j]
        qc.sane(env, fit, F, P * pv, pv)
        env.check_eq('-dF/dV = P [%d]' % j, -fit.value(F, x, 1), P * pv,
                     ctol=1e-5, catol=1e-6 * K0[e])
        env.check_eq('KT [%d]' % j, r['KT'][0, j],
                     fit.value(F, x, 2) * x / pv, rtol=1e-6, ctol=1e-3)
        env.check_eq("K' [%d]" % j, r['Kp'][0, j], -1., ctol=1e-2)


K0 = qc.K0


def positive(deg, which, grid=(-1e-3, -5e-4, 0., 5e-4, 1e-3)):
    """roots contract that also keeps the interpolated frequencies real."""
    def hook(env, coefs):
        from vx.nump import roots_contract
        r = roots_contract(env, coefs)
        fit, W = env.out['modes']
        for w in W:
            for g in grid:
                x = r[which] * (1. + g) if g else r[which]
                env.sign_fact(fit.value(w, x), True)
        return r
    return hook


def freq(n, deg, fdeg):
    """bulk modulus along the free energy of the interpolated modes."""
    def h(env):
        c, V, U, W = start(env, n, scheme='freq', edeg=deg, fdeg=fdeg)
        ffit, ufit = qc.Lsq(env, V, fdeg), qc.Lsq(env, V, deg)
        if env.sym:
            hz = env.load('quantas.utils.physics.units').convert_frequency(
                1., 'cm^-1', 'Hz')
            env.out['modes'] = (ffit, [[w * hz for w in m] for m in W])
        c.run()
        r = c.results
        x = r['VT'][0, 0]
        F = helmholtz(env, 300., U, W)
        qc.sane(env, ufit, F, 0., 1e-21 / qc.EV)
        env.check_eq('-dF/dV = P', -ufit.value(F, x, 1), 0., ctol=1e-5,
                     catol=1e-6)
        grid = [-1e-3, -5e-4, 0., 5e-4, 1e-3]
        Y = []
        for g in grid:
            v = x * (1. + g)
            f = ufit.value(U, v)
            for w in W:
                f = f + hc.fvib(env, 300., ffit.value(w, v)
                                * qc.FU['cm^-1']) * 1e3 / hc.NA / qc.EV
            Y.append(f)
        loc = qc.Lsq(env, [1. + g for g in grid], deg)
        pv = 1e9 * 1e-30 / qc.EV
        k = loc.value(Y, 1., 2)
        env.check_eq('KT', r['KT'][0, 0] * x, k / pv, rtol=1e-6, ctol=1e-3)
    return h


def derivative(env):
    """K' is the pressure derivative of the bulk modulus."""
    v0 = env.choice('V', [40., 70., 800.])
    k = env.real('K', lo=.1, hi=5., sample=(.3, 2.))
    q = env.real('q', lo=-12., hi=4., sample=(-9., -3.))
    c = env.real('c', lo=-.2, hi=.2, sample=(-.1, .1))
    C = env.load(qc.MOD).QHACalculator
    u = env.choice('units', [('eV', 'A', 'GPa'), ('Ha', 'bohr', 'kbar')])
    o = C(qc.settings(edeg=3, e=u[0], v=u[1], p=u[2]))
    grid, idx = o.fine_grid()
    V, F = [], []
    for g in grid:
        V.append(v0 * (1. + g))
        F.append(k * v0 * (g * g / 2. + q * g ** 3 / 6. + c * g))
    kt, kp = o.numerical_bulk_modulus(env.mkarr(V), env.mkarr(F), idx)
    pv = qc.PU[u[2]] * qc.VU[u[1]] / qc.EU[u[0]]
    env.check_eq('grid centre', grid[idx], 0., catol=1e-12)
    env.check_eq('KT', kt, k / pv, rtol=1e-6, ctol=1e-4)
    e = kp + 1. + q
    env.check("K' from above", e <= .05)
    env.check("K' from below", e >= -.05)


def middle(env, coefs):
    """the minimum next to the middle of the data (starting guess)."""
    import numpy as np
    from vx import expr as X
    from vx.sym import lift
    from vx.nump import arr, polyval_asc, polyder_asc
    nodes = [lift(v) for v in coefs]

    def defn(val):
        memo = {}
        p = np.polynomial.polynomial.Polynomial(
            [X.evalf(q, val, memo) for q in nodes])
        z = p.roots()
        z = z[z.imag == 0].real
        z = z[p.deriv()(z) > 0]
        return float(z[np.argmin(abs(z - 69.))]) if len(z) else float('nan')
    env.fresh += 1
    r = env.derived('guess#%d' % env.fresh, defn)
    env.sign_fact(polyval_asc(r, polyder_asc(arr(coefs))), True)
    return arr([r])


def optimum(y):
    """the stand-in for the optimiser: parameters from the data."""
    e, k, kp, v = 0., .6, 4., 68.
    for n, x in enumerate(y):
        e = e + x * (.25 + .01 * n)
        k = k + x * (.01 - .002 * n)
        kp = kp + x * (.02 * n - .05)
        v = v + x * (.4 - .13 * n)
    return [e, k, kp, v]


def eos(scheme, e='eV', vu='A'):
    """volume, K and K' are those of the curve fitted to F + PV."""
    def h(env):
        import scipy.optimize
        fun = env.choice('eos', ['murnaghan', 'birchmurnaghan', 'vinet',
                                 'pouriertarantola'])
        seen = []

        def fake(f, xdata, ydata, p0=None, *a, **k):
            seen.append((f, xdata, ydata, p0))
            return env.mkarr(optimum(ydata)), env.mkarr(
                [[1. if a == b else 0. for a in range(4)] for b in range(4)])
        env.patch(scipy.optimize, 'curve_fit', fake)
        c, V, U, W = start(env, 5, scheme=scheme, mini='eos', edeg=3, fdeg=2,
                           eos=fun, e=e, v=vu, trange=(300., 500., 200.),
                           prange=(0., 4., 4.))
        if env.sym:
            # (the interpolation itself is checked in Q03)
            for row in W:
                for w in row:
                    env.assume(w > 0.)
        c.run()
        r = c.results
        pv = 1e9 * qc.VU[vu] / qc.EU[e]
        kw = dict(rtol=1e-6, ctol=1e-6)
        for i in range(2):
            F = helmholtz(env, 300. + 200. * i, U, W, e)
            for j in range(2):
                lab = '[%d,%d]' % (i, j)
                y = [F[n] + 4. * j * pv * V[n] for n in range(5)]
                o = optimum(y)
                env.check_eq('V' + lab, r['VT'][i, j], o[3], **kw)
                env.check_eq('KT' + lab, r['KT'][i, j] * pv, o[1], **kw)
                env.check_eq("K'" + lab, r['Kp'][i, j], o[2], **kw)
        E = env.load('quantas.qha.utils.ev_eos').EnergyEOS()
        v = env.real('v', pos=True, sample=(55., 80.))
        q = env.arr('q', 4, pos=True, sample=(1.5, 3.))
        env.check_eq('formulation', seen[-1][0](v, *q),
                     getattr(E, fun)(v, *q), catol=1e-9)
        env.check_arr('volumes', seen[-1][1], env.mkarr(V))
    return h


def several(env):
    """a quartic with two minima: the one among the data is taken."""
    c, V, U, W = start(env, 5, edeg=4, scheme='td')
    # (samples: minima at 40 and 69, or at 69 and 95)
    a = env.choice('other minimum', [40., 95.])
    U = []
    for i, v in enumerate(V):
        z = v - 69.
        m, s = (a - 69.) / 2., a - 69.
        x = 1e-5 * (z ** 4 / 4. - (m + s) * z ** 3 / 3.
                    + m * s * z * z / 2.) - 2.
        U.append(env.real('E%d' % i, sample=(x - 1e-5, x + 1e-5)))
    c.input.energy = env.mkarr(U)
    c.input.frequencies[:] = -1.        # ignored by the thermodynamics
    c.run()
    x = c.results['VT'][0, 0]
    fit = qc.Lsq(env, V, 4)
    qc.sane(env, fit, U, 0., 1e-21 / qc.EV)
    env.check_eq('-dF/dV = P', -fit.value(U, x, 1), 0., ctol=1e-5,
                 catol=1e-6)
    env.check_true('minimum', bool(c.results['KT'][0, 0] / x > 0.))
    lo, hi = V[0], V[-1]
    if env.sym:
        r = env.out['roots'][0][1]
        other = [q for q in (r[0], r[2]) if q is not x]
    else:
        from numpy.polynomial import Polynomial as P
        p = P.fit(V, U, 4).convert().deriv()
        z = p.roots()
        z = z[z.imag == 0].real
        z = z[p.deriv()(z) > 0.]
        other = [q for q in z if abs(q - x) > 1e-4]
    for q in other:
        env.check('no other minimum among the data', env.Or(
            q < lo, q > hi, env.And(x >= lo, x <= hi)))


def guess(n):
    """starting point of the EoS fit: a minimum of the data."""
    def h(env):
        E = env.load('quantas.qha.utils.ev_eos').EnergyEOS()
        V, U, W = qc.crystal(env, n)
        g = E.guess(env.mkarr(V), env.mkarr(U))
        deg = min(4, n - 1)
        fit = qc.Lsq(env, V, deg)
        qc.sane(env, fit, U, 0., 1e-21 / qc.EV)
        env.check_eq('E0', g[0], fit.value(U, g[3]), ctol=1e-5)
        env.check_eq('slope', fit.value(U, g[3], 1), 0., catol=1e-6)
        env.check_eq('K0', g[1], g[3] * fit.value(U, g[3], 2), ctol=1e-3)
        env.check_true('minimum', bool(g[1] / g[3] > 0.))
    return h


def wells(env):
    """a curve with two minima, one of them among the data: the fit starts
    there."""
    E = env.load('quantas.qha.utils.ev_eos').EnergyEOS()
    V = qc.VOLS[5]
    side = env.choice('minimum', ['left', 'right'])
    a = env.real('a', sample=(63., 76.))
    m = env.real('m', pos=True, sample=(4., 12.))
    n = env.real('n', pos=True, sample=(9., 25.))
    k = env.real('k', pos=True, sample=(1e-4, 1e-3))
    # slope k (v - a) (v - b) (v - c): the other minimum outside the data
    if side == 'left':
        b, c = a + m, a + m + n
        env.assume(c > 78.)
        r = [a, b, c]
    else:
        b, c = a - m, a - m - n
        env.assume(c < 60.)
        r = [c, b, a]
    env.assume(a > 61.)
    env.assume(a < 76.)
    s1, s2, s3 = a + b + c, a * b + b * c + c * a, a * b * c
    if env.sym:
        env.out['wells'] = r
    U = [k * (v ** 4 / 4. - s1 * v ** 3 / 3. + s2 * v * v / 2. - s3 * v)
         - 300. for v in V]
    g = E.guess(env.mkarr(V), env.mkarr(U))
    env.check_eq('starts at the minimum of the data', g[3], a, ctol=1e-4)


def two_wells(env, coefs):
    """the roots of the slope are the chosen ones (verified exactly)."""
    from vx import expr as X
    from vx.sym import lift
    from vx.nump import arr, polyval_asc
    r = env.out['wells']
    if len(coefs) != 4 or any(X.to_nf(lift(polyval_asc(
            v, arr(coefs)))).num for v in r):
        raise X.Unsupported('another curve than the one with these minima')
    return arr(list(r))


def harnesses(tier):
    one = {'nroots': [2], 'root_sign': [-1]}
    out = [('derivative', derivative, {}),
            ('poly-td', poly(4, 3, 'td'), {'nroots': [2]}),
            ('poly-td-22', poly(4, 3, 'td', 2, 2), one),
            ('poly-td-2', poly(4, 2, 'td'),
             {'root_sign': [1], 'root_opaque': True}),
            ('units', units, {'root_sign': [1], 'root_opaque': True,
                              'validate': 10}),
            ('poly-freq', freq(4, 3, 2), dict(one, roots=positive(2, 0))),
            ('several', several, {'nroots': [3], 'root_sign': [1]}),
            ('guess-4', guess(4), {'nroots': [2]}),
            ('guess-5', guess(5), {'nroots': [3], 'root_sign': [1]}),
            ('guess-5-1', guess(5), {'nroots': [1], 'root_sign': [1]}),
            ('guess-wells', wells, {'roots': two_wells}),
            ('eos-td', eos('td'), {'roots': middle}),
            ('eos-bohr', eos('td', 'Ha', 'bohr'), {'roots': middle}),
            ]
    return [(n, f, dict({'abs_fork': False}, **o)) for n, f, o in out]
