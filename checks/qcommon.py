# -*- coding: utf-8 -*-
"""helpers of the quasi-harmonic checks."""
from types import SimpleNamespace
EH, EV, RY = 4.3597447222071e-18, 1.602176634e-19, 2.1798723611035e-18
EU = {'Ha': EH, 'eV': EV, 'Ry': RY}
VU = {'A': 1e-30, 'bohr': 5.29177210903e-11 ** 3}
PU = {'GPa': 1e9, 'kbar': 1e8}
FU = {'cm^-1': 2.99792458e10, 'THz': 1e12, 'Hz': 1.}
NA = 6.02214076e23
MOD = 'quantas.qha.qha'
UNITS = [('Ha', 'A', 'GPa', 'K'), ('eV', 'A', 'GPa', 'K'),
         ('Ry', 'bohr', 'GPa', 'K'), ('Ha', 'bohr', 'kbar', 'C'),
         ('eV', 'A', 'kbar', 'C'), ('Ry', 'A', 'GPa', 'C'),
         ('eV', 'bohr', 'GPa', 'K'), ('Ha', 'A', 'kbar', 'K')]


def settings(trange=(300., 300., 1.), prange=(0., 0., 1.), scheme='td',
             mini='poly', edeg=3, fdeg=3, eos='birchmurnaghan', e='Ha',
             v='A', p='GPa', t='K', f='cm^-1', kieffer=False):
    return {'trange': trange, 'prange': prange, 'qha_scheme': scheme,
            'minimization': mini, 'eos_function': eos, 'eos': 'BM',
            'kieffer': kieffer, 'edeg': edeg, 'fdeg': fdeg,
            'energy_unit': e, 'frequency_unit': f, 'lenght_unit': v,
            'temperature_unit': t, 'pressure_unit': p, 'debug': False,
            'silent': True, 'logfile': None}


def kelvin(t, unit):
    return t + 273.15 if unit == 'C' else t


def data(env, volume, energy, freqs, weights=None):
    w = env.mkarr([1.] if weights is None else weights)
    tot = 0.
    for x in w:
        tot = tot + x
    return SimpleNamespace(
        volume=env.mkarr(volume), energy=env.mkarr(energy),
        frequencies=env.mkarr(freqs), weights=w, total_q_points=tot,
        jobname='A job', nvol=len(volume), natoms=1, kpoints=len(w),
        qpoints=len(w), completed=True, error=None)


def quiet(env):
    """no progress bars."""
    class Bar(object):
        def __init__(self, it, *a, **k):
            self.it = it

        def __enter__(self):
            return self.it

        def __exit__(self, *a):
            return False
    import click
    env.patch(click, 'progressbar', Bar)


class Lsq(object):
    """exact least-squares polynomial through concrete abscissae."""

    def __init__(self, env, xs, deg):
        from fractions import Fraction as Fr
        self.env, self.deg = env, deg
        xs = [Fr(str(x)) for x in xs]
        n = deg + 1
        A = [[sum(x ** (i + j) for x in xs) for j in range(n)]
             + [Fr(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = next(r for r in range(c, n) if A[r][c] != 0)
            A[c], A[p] = A[p], A[c]
            d = A[c][c]
            A[c] = [v / d for v in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    f = A[r][c]
                    A[r] = [u - f * v for u, v in zip(A[r], A[c])]
        # rows: coefficient of x^i; columns: observations
        self.M = [[sum(A[i][n + j] * x ** j for j in range(n)) for x in xs]
                  for i in range(n)]

    def num(self, f):
        if self.env.sym:
            from vx.sym import S
            from vx import expr as X
            return S(X.C(f))
        return float(f)

    def coefs(self, ys):
        out = []
        for row in self.M:
            c = 0.
            for f, y in zip(row, ys):
                c = c + self.num(f) * y
            out.append(c)
        return out

    def value(self, ys, x, der=0):
        """value (or derivative) at x of the fit of ys."""
        tot = 0.
        for k, c in enumerate(self.coefs(ys)):
            f = 1
            for q in range(der):
                f *= k - q
            if f:
                tot = tot + c * float(f) * x ** (k - der)
        return tot


VOLS = {4: [60., 65., 70., 75.], 5: [60., 64., 68., 73., 78.],
        6: [60., 64., 68., 73., 78., 82.]}
K0 = {'Ha': .0089 / 27.2, 'eV': .0089, 'Ry': .0089 / 13.6}


def crystal(env, n, e='eV', modes=1, edge=69.):
    """a solid whose free energy has a minimum inside the sampled volumes."""
    V = VOLS[n]
    U, W = [], []
    for i, v in enumerate(V):
        x = .5 * K0[e] * (v - edge) ** 2 * (1. - .02 * (v - edge)) \
            - K0[e] * 300.
        U.append(env.real('U%d' % i, sample=(x - abs(x) * 1e-4,
                                             x + abs(x) * 1e-4)))
    for k in range(modes):
        W.append([env.real('w%d%d' % (k, i), pos=True, sample=(
            290. + 40. * k - 4. * (v - 60.), 291. + 40. * k - 4. * (v - 60.)))
            for i, v in enumerate(V)])
    return V, U, W


def sane(env, fit, F, P=0., pv=1.):
    """replays: the curve has a well conditioned minimum near the data."""
    if env.sym:
        return
    from numpy.polynomial import Polynomial
    p = Polynomial(fit.coefs(F))
    d = p.deriv() + P
    z = d.roots()
    z = z[abs(z.imag) < 1e-9].real
    z = z[(z > 45.) & (z < 110.)]
    k = p.deriv(2)(z) * z / pv
    env.assume(bool((k > 5.).any()) and not bool((abs(k) < 1.).any()))
