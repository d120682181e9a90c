# -*- coding: utf-8 -*-
"""S05: extreme values and their axes; properties on the crystal planes."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import math
import itertools as it
import numpy as np
import scommon as sc
from vx.expr import Unsupported
from vx.sym import lift

BOUNDS = ('triclinic and orthorhombic tensors with symbolic components, '
          'symbolic density; the optimiser may return any direction (7 '
          'properties x 2 extremes); planes: 4 angles each')
OUTSIDE = ('that the optimiser of SciPy finds the global extreme; the '
           'drawing of figures')
ASSUMPTIONS = ['scipy.optimize.brute returns some point of the range and the '
               'value of the function there',
               'scipy.optimize.minimize returns some value of the function',
               'numpy.linalg.inv returns the inverse; eigenvalues as in S04']


class V(object):
    """reference values of a property in a direction."""

    def __init__(self, env, C, rho):
        m = env.load(sc.MOD)
        self.env, self.rho, self.np = env, rho, m.np
        self.T = sc.c_tensor(np.array(C, dtype=object))
        self.U = sc.s_tensor(m.np.linalg.inv(env.mkarr(C)))

    def __call__(self, name, a, b=None):
        U = self.U
        if name == 'E':
            return 1. / sc.contract4(U, a, a, a, a)
        if name == 'LC':
            r = 0.
            for i, j, k in it.product(range(3), repeat=3):
                r = r + U[i, j, k, k] * a[i] * a[j]
            return 1e3 * r
        if name == 'G':
            return 1. / (4. * sc.contract4(U, a, b, a, b))
        if name == 'Nu':
            return -1. * sc.contract4(U, a, a, b, b) / \
                sc.contract4(U, a, a, a, a)
        w = self.np.linalg.eigvalsh(self.env.mkarr(sc.christoffel(self.T, a)))
        k = {'Vs1': 0, 'Vs2': 1, 'Vp': 2}[name]
        return self.env.sqrt(1e3 * w[k] / self.rho)


def brute(env, func, ranges, *args, **kw):
    """scipy.optimize.brute: some point of the range and the value there."""
    c = env.captured.setdefault('brute', [])
    k = len(c)
    extra, ns, full = sc.brute_call(*args, **kw)
    if k >= len(env.captured['angles']):
        raise Unsupported('unexpected use of the optimiser')
    x = env.mkarr(np.array(env.captured['angles'][k][:len(ranges)],
                           dtype=object))
    f = func(x, *extra)
    f = f.item() if isinstance(f, np.ndarray) else f
    from vx import expr as X
    n = f.n
    v = env.freshvar('opt', defn=lambda w: X.evalf(n, w))
    c.append((v, f, x, ranges, ns))
    return (x, v, None, None) if full else x


def covers(ranges):
    r = []
    for q in ranges:
        if isinstance(q, slice):
            q = (q.start, q.stop)
        r.append((float(q[0]), float(q[1])))
    e = 1e-6
    (a, b), (c, d) = r[0], r[1]
    ok = a <= e and b >= math.pi - e and d - c >= math.pi - e or \
        a <= e and b >= math.pi / 2 - e and d - c >= 2 * math.pi - e
    if len(r) > 2:
        ok = ok and r[2][1] - r[2][0] >= math.pi - e
    return ok


def rows(text, mark, env):
    """numbers of the table that follows the line with ``mark``."""
    L = text.splitlines()
    k = [i for i, s in enumerate(L) if mark in s]
    if not k:
        return None
    out = []
    for s in L[k[0] + 1:]:
        if '|' in s and '---' not in s and '-|-' not in s:
            out.append([c for q in s.split('|')[1:] for c in q.split()])
        elif s.strip().startswith('-') and '|' not in s and out:
            break
    return out


def record(env):
    """keep the ranges of the searches of a concrete run."""
    import scipy.optimize as so
    real, c = so.brute, []

    def f(func, ranges, *a, **k):
        c.append(covers(ranges) and sc.brute_call(*a, **k)[1] >= 8)
        return real(func, ranges, *a, **k)
    env.patch(so, 'brute', f)
    return c


def extremes(env, kind, group):
    C = sc.voigt(env, kind=kind, off_=(-5., 25.))
    if not env.sym:
        env.assume(sc.stable(C))
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    n = 6 if group == 'seismic' else 4
    A = [[env.angle('t%d' % k), env.angle('p%d' % k), env.angle('x%d' % k)]
         for k in range(n)]
    sc.generic(env, C, kind)
    if env.sym:
        env.captured['angles'] = A
        searched = None
    else:
        searched = record(env)
    calc, err, text = sc.calculator(env, C, rho)
    env.check_true('input read', err is None, detail=str(err))
    if group == 'single':
        E, LC = calc.single_vector_variation()
        calc.report_variation_single(E, LC)
    elif group == 'dual':
        G, Nu = calc.dual_vector_variation()
        calc.report_variation_dual(G, Nu)
    else:
        Vp, V1, V2 = calc.phase_velocity_variation()
        calc.report_variation_seismic(Vp, V1, V2)
    t = text()
    ref = V(env, C, rho)
    mark, names, two = {
        'single': ('E_min', ['E', 'LC'], False),
        'dual': ('G_min', ['G', 'Nu'], True),
        'seismic': ('V_s1', ['Vs1', 'Vs2', 'Vp'], False)}[group]
    for tab in [rows(t, mark, env)]:
        if tab is None:
            env.check_true('table of %s' % names, False)
            continue
        vals = [r for r in tab if len(r) == 2 * len(names)]
        vals = vals[1:] if names[0].startswith('V') else vals
        an = [r for r in tab if len(r) == len(names)]
        env.check_true('rows of %s' % names,
                       len(vals) == (7 if two else 4) and len(an) == 1)
        for q, n in enumerate(names):
            lo, hi = (env.printed(vals[0][2 * q + s]) for s in (0, 1))
            a = [[env.printed(vals[1 + i][2 * q + s]) for i in range(3)]
                 for s in (0, 1)]
            b = [[env.printed(vals[4 + i][2 * q + s]) for i in range(3)]
                 for s in (0, 1)] if two else [None, None]
            ratio = env.printed(an[0][q])
            if env.sym:
                one_sym(env, ref, n, (lo, hi), a, b)
            else:
                one_conc(env, ref, n, (lo, hi), a, b, searched)
            if n == 'LC':
                continue
            if env.sym:
                pos = bool(lo > 0.)
            else:
                pos = lo > 0.
            if pos:
                env.check_eq('anisotropy ' + n, ratio, hi / lo, ctol=2e-2,
                             catol=1e-2)
            else:
                env.check_true('anisotropy ' + n, ratio == float('inf'))


def one_sym(env, ref, n, ext, a, b):
    for s, (v, ax, bx) in enumerate(zip(ext, a, b)):
        lab = '%s %s' % (n, ('min', 'max')[s])
        sign = (1., -1.)[s]
        rec = [r for r in env.captured.get('brute', [])
               if r[0].n is v.n or (-r[0]).n is v.n]
        if len(rec) != 1:
            raise Unsupported('origin of the reported extreme')
        w, f, x, ranges, ns = rec[0]
        env.check_eq(lab + ' reported', v, sign * w)
        A = sc.direction(env, x[0], x[1])
        B = sc.transverse(env, x[0], x[1], x[2]) if len(x) > 2 else None
        for i in range(3):
            env.check_eq(lab + ' axis', ax[i], A[i])
            if bx is not None:
                env.check_eq(lab + ' 2nd axis', bx[i], B[i])
        r = ref(n, A, B)
        g = sign * f
        if n in ('E', 'G'):
            env.check_eq(lab + ' value', 1. / g, 1. / r, atol=1e-12)
        elif n == 'Nu':
            d = sc.contract4(ref.U, A, A, A, A)
            env.check_eq(lab + ' value', g * d, r * d, atol=1e-12)
        elif n.startswith('V'):
            env.check_eq(lab + ' value', g * g, r * r)
        else:
            env.check_eq(lab + ' value', g, r, atol=1e-9)
        env.check_true(lab + ' directions', covers(ranges) and ns >= 8)


def one_conc(env, ref, n, ext, a, b, searched):
    for s, (v, ax, bx) in enumerate(zip(ext, a, b)):
        lab = '%s %s' % (n, ('min', 'max')[s])
        k = math.sqrt(sum(c * c for c in ax))
        ok = abs(k - 1.) < 1e-3
        if bx is not None:
            ok = ok and abs(sum(p * q for p, q in zip(ax, bx))) < 1e-3 \
                and abs(math.sqrt(sum(c * c for c in bx)) - 1.) < 1e-3
        env.check_true(lab + ' axis', ok)
        r = ref(n, ax, bx)
        env.check_eq(lab + ' value', v, r, ctol=2e-3, catol=2e-3)
        # the crystal axes are never better (up to the search in 3D)
        o = [ref(n, *q) for q in it.permutations(np.eye(3).tolist(), 2)] \
            if bx is None else [ext[1 - s]]
        env.check_true(lab + ' extreme', v <= min(o) + 1e-3 if s == 0 else
                       v >= max(o) - 1e-3)
        env.check_true(lab + ' directions', all(searched))


class Found(object):
    success, status, message, nfev, nit = True, 0, '', 1, 1


def powell(env, fun, x0, args=(), *rest, **kw):
    """scipy.optimize.minimize: the function at some angle."""
    from vx import expr as X
    c = env.captured.setdefault('powell', [])
    z = env.captured['chi']
    args = tuple(args) if isinstance(args, (tuple, list)) else (args,)
    f = fun(env.mkarr(np.array([z], dtype=object)), *args)
    f = f.item() if isinstance(f, np.ndarray) else f
    n = f.n
    v = env.freshvar('opt', defn=lambda w: X.evalf(n, w))
    r = Found()
    r.x, r.fun = z, v
    c.append((v, f))
    return r


def point(env, ref, n, row, t, p, chi, lab):
    """values of a property for a direction of a plane."""
    A = sc.direction(env, t, p)
    if n == 'E':
        env.check_eq(lab, 1. / row[0], 1. / ref('E', A), atol=1e-12)
    elif n == 'LC':
        r = ref('LC', A)
        env.check_eq(lab, row[0] - row[1], r, atol=1e-9)
        env.check_true(lab + ' positive', row[0] >= 0.)
        env.check_true(lab + ' negative', row[1] >= 0.)
        env.check_eq(lab + ' split', row[0] * row[1], 0.)
    elif n == 'waves':
        for k, q in enumerate(('Vs1', 'Vs2', 'Vp')):
            v = ref(q, A)
            env.check_eq(lab + ' ' + q, row[k] * row[k], v * v)
    else:
        lo = row[0] if n == 'G' else row[0] + row[1]
        hi = row[1] if n == 'G' else row[2]
        if not env.sym:
            F = [ref(n, A, sc.transverse(env, t, p, x))
                 for x in np.linspace(0., np.pi, 361)]
            env.check_eq(lab + ' min', lo, min(F), ctol=5e-3, catol=5e-3)
            env.check_eq(lab + ' max', hi, max(F), ctol=5e-3, catol=5e-3)
        B = sc.transverse(env, t, p, chi)
        if env.sym and lift(lo).op == 'c':
            env.check_eq(lab + ' zero', lo, 0.)
            return              # zero on this path: nothing to report
        for s, v in ((1., lo), (-1., hi)) if env.sym else ():
            v = v.item() if isinstance(v, np.ndarray) else v
            rec = [r for r in env.captured['powell']
                   if r[0].n is v.n or (-r[0]).n is v.n]
            if len(rec) != 1:
                raise Unsupported('origin of the reported extreme')
            w, f = rec[0]
            l2 = lab + (' min' if s > 0 else ' max')
            env.check_eq(l2, v, s * w)
            r, g = ref(n, A, B), s * f
            if n == 'G':
                env.check_eq(l2 + ' value', 1. / g, 1. / r, atol=1e-12)
            else:
                d = sc.contract4(ref.U, A, A, A, A)
                env.check_eq(l2 + ' value', g * d, r * d, atol=1e-12)
        if n == 'Nu':
            env.check_true(lab + ' negative part', row[0] <= 0.)
            env.check_true(lab + ' positive part', row[1] >= 0.)
            env.check_eq(lab + ' split', row[0] * row[1], 0.)


def begin(env, kind):
    C = sc.voigt(env, kind=kind, off_=(-5., 25.))
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    chi = env.angle('chi')
    if env.sym:
        env.captured['chi'] = chi
    else:
        env.assume(sc.stable(C))
    return C, rho, chi


WIDTH = {'E': 1, 'LC': 2, 'G': 2, 'Nu': 3, 'waves': 3}


def planes(env, kind):
    """each curve is that of its plane: z = 0, y = 0, x = 0 (the values along
    a direction are those checked in ``curves``)."""
    N = 4
    dens = env.choice('density', [True, False])
    D = [2. * math.pi * k / (N - 1) for k in range(N)]
    P = {'xy': [(math.pi / 2., d) for d in D],
         'xz': [(d, 0.) for d in D],
         'yz': [(d, math.pi / 2.) for d in D]}
    keys = {}

    def key(t, p):
        v = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p),
             math.cos(t)]
        s = next(1. if c > 0 else -1. for c in v if abs(c) > 1e-6)
        return tuple(round(s * c, 5) + 0. for c in v)
    for d in P.values():
        for q in d:
            keys.setdefault(key(*q), len(keys))
    R = {(n, k, c): env.real('%s_%d_%d' % (n, k, c))
         for n, w in WIDTH.items() for k in range(len(keys))
         for c in range(w)}
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    C = sc.voigt(env, kind=kind, off_=(-5., 25.))
    sc.generic(env, C, kind)
    calc, err, text = sc.calculator(env, C, rho if dens else None, polar=True)
    env.check_true('input read', err is None, detail=str(err))
    o = calc.soec

    def values(n, t, p):
        k = keys.get(key(float(t), float(p)))
        return [env.real('other')] * WIDTH[n] if k is None else \
            [R[n, k, c] for c in range(WIDTH[n])]
    env.real('other')

    def curve(n):
        def f(theta, phi):
            T = [values(n, t, p) for t, p in zip(theta, phi)]
            return env.mkarr([r[0] for r in T] if n == 'E' else T)
        return f
    for n, f in (('E', 'polar_young'), ('LC', 'polar_compressibility'),
                 ('G', 'polar_shear'), ('Nu', 'polar_poisson'),
                 ('waves', 'polar_waves')):
        if not hasattr(o, f):
            raise Unsupported('polar functions')
        setattr(o, f, curve(n))
    calc.calculate_polar_properties(nrad=N)
    res = calc.results['polar']
    for k, d in P.items():
        for n, w in WIDTH.items():
            if n == 'waves' and not dens:
                env.check_true('no waves without density', n not in res[k])
                continue
            T = res[k][n]
            env.check_true('%s %s shape' % (n, k), T.shape == (N, w + 1))
            for i, q in enumerate(d):
                lab = '%s %s %d' % (n, k, i)
                env.check_eq(lab + ' angle', T[i, 0], math.degrees(D[i]))
                for c in range(w):
                    env.check_eq(lab, T[i, c + 1], R[n, keys[key(*q)], c])


def curves(env, kind, prop):
    """the polar functions, along any two directions."""
    C, rho, chi = begin(env, kind)
    t = [env.angle('t%d' % k) for k in range(1 if prop == 'LC' else 2)]
    p = [env.angle('p%d' % k) for k in range(1 if prop == 'LC' else 2)]
    m = env.load(sc.MOD)
    o = m.SOEC(env.mkarr(C), rho)
    if kind == 'orthorhombic':
        o = m.SOECOrtho(o)
    ref = V(env, C, rho)
    f = {'LC': o.polar_compressibility, 'Nu': o.polar_poisson,
         'G': o.polar_shear, 'E': o.polar_young, 'waves': o.polar_waves}[prop]
    r = f(env.mkarr(t), env.mkarr(p))
    for k in range(len(t)):
        row = r[k] if prop != 'E' else r[k:k + 1]
        point(env, ref, prop, row, t[k], p[k], chi, '%s %d' % (prop, k))


def harnesses(tier):
    o = {'inv_defs': False, 'numpy_div': True, 'timeout': 30.,
         'stubs': {'scipy.optimize.brute': brute,
                   'scipy.optimize.minimize': powell}}
    out = []
    for kind in ('triclinic', 'orthorhombic'):
        for g in ('single', 'dual', 'seismic'):
            out.append(('%s-%s' % (g, kind),
                        lambda env, k=kind, g=g: extremes(env, k, g),
                        dict(o, validate=2, max_paths=120, conc_time=90,
                             loose=True)))
        out.append(('planes-' + kind, lambda env, k=kind: planes(env, k), o))
        for g in ('E', 'LC', 'G', 'Nu', 'waves'):
            out.append(('curves-%s-%s' % (g, kind),
                        lambda env, k=kind, g=g: curves(env, k, g),
                        dict(o, validate=2, loose=True)))
    return out
