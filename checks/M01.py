# -*- coding: utf-8 -*-
"""M01: polynomial and numerical helpers."""
import numpy as np

MOD = 'quantas.utils.math.polynomials'
BOUNDS = ('symbolic coefficients, ordinates and points of evaluation; 4-6 '
          'abscissae, degrees 0-4, tables of 1-4 rows (square ones '
          'included); 1-4 evaluation points; grids of 2-5 symbolic points; '
          '3 x 3 symbolic matrices; every angle')
OUTSIDE = 'IEEE rounding, ill-conditioned fits, multiple critical points'
ASSUMPTIONS = ['numpy polyfit is an exact least-squares solution and the '
               'roots of a derivative are real, simple and ordered, or '
               'complex (contracts of numpy)']

XS = [[1., 2., 3.5, 4., 6.], [-2., 0., 1., 3.], [10., 9., 7., 8., 11., 6.]]


def value(c, x, order=0):
    """sum of c_k x^k, or its derivative."""
    r = 0.
    for k in range(order, len(c)):
        f = 1.
        for j in range(order):
            f = f * (k - j)
        t = f * c[k]
        for _ in range(k - order):
            t = t * x
        r = r + t
    return r


def series(env, name, n, lo=-5., hi=5.):
    return [env.real('%s%d' % (name, i), lo, hi) for i in range(n)]


def normal_equations(env, lab, xs, y, c, degree):
    env.check_true('coefficients ' + lab, len(c) == degree + 1,
                   'length %d' % len(c))
    for k in range(degree + 1):
        s = 0.
        for x, v in zip(xs, y):
            s = s + (value(c, x) - v) * x ** k
        env.check_eq('normal equation %s %d' % (lab, k), s, 0., rtol=0.,
                     atol=1e-7, catol=1e-3 * max(abs(x) for x in xs) ** k)


def fit(env):
    """polyfit of one series and of tables, rows independent."""
    xs = XS[env.choice('grid', [0, 1, 2])]
    degree = env.choice('degree', [0, 1, 2, 3])
    rows = env.choice('rows', [0, 1, 2, 'square'])
    rows = len(xs) if rows == 'square' else rows
    ys = series(env, 'y', 3 * 2)
    fixed = [[float((3 * i + 5 * j) % 7) - 2. for j in range(6)]
             for i in range(6)]
    n = len(xs)
    first = (ys[:3] + fixed[0])[:n]
    last = (fixed[1][:n - 3] + ys[3:])[-n:]
    P = env.load(MOD)
    X = np.array(xs)
    if rows == 0:
        c = P.polyfit(X, env.mkarr(first), degree)
        normal_equations(env, '', xs, first, list(c), degree)
        return
    data = [first] + fixed[2:rows] + [last] if rows > 1 else [first]
    data = [list(r)[:n] for r in data]
    c = P.polyfit(X, env.mkarr(data), degree)
    env.check_true('one row per series', np.shape(c) == (rows, degree + 1),
                   '%r' % (np.shape(c),))
    for i in range(rows):
        normal_equations(env, 'row %d' % i, xs, data[i], list(c[i]), degree)


def evaluate(env):
    """interpolate: scalars, arrays; one, two and three-dimensional
    coefficients."""
    kind = env.choice('kind', ['1-scalar', '1-array', '2-scalar', '2-array',
                               '3-array'])
    nc = env.choice('terms', [1, 2, 4])
    nx = env.choice('points', [1, 2, 3])
    a = series(env, 'a', 4)
    x = series(env, 'x', 3, -3., 3.)
    origin = env.choice('origin', [False, True])
    P = env.load(MOD)
    if origin:
        x[0] = 0.
    c = [a[:nc], [a[3 - j] * (j + 1.) for j in range(nc)],
         [a[j] - 2. * j for j in range(nc)]]
    if kind == '1-scalar':
        env.check_eq('value', P.interpolate(x[0], env.mkarr(c[1])),
                     value(c[1], x[0]))
    elif kind == '1-array':
        r = P.interpolate(env.mkarr(x[:nx]), env.mkarr(c[1]))
        env.check_true('shape', np.shape(r) == (nx,))
        for k in range(nx):
            env.check_eq('value %d' % k, r[k], value(c[1], x[k]))
    elif kind == '2-scalar':
        r = P.interpolate(x[0], env.mkarr(c))
        env.check_true('shape', np.shape(r) == (3,))
        for i in range(3):
            env.check_eq('value %d' % i, r[i], value(c[i], x[0]))
    elif kind == '2-array':
        r = P.interpolate(env.mkarr(x[:nx]), env.mkarr(c))
        env.check_true('shape', np.shape(r) == (3, nx))
        for i in range(3):
            for k in range(nx):
                env.check_eq('value %d %d' % (i, k), r[i, k],
                             value(c[i], x[k]))
    else:
        g = [[c[0], c[1]], [c[2], c[0]], [c[1], c[2]]]
        r = P.interpolate(env.mkarr(x[:nx]), env.mkarr(g))
        env.check_true('shape', np.shape(r) == (3, 2, nx))
        for i in range(3):
            for j in range(2):
                for k in range(nx):
                    env.check_eq('value %d %d %d' % (i, j, k), r[i, j, k],
                                 value(g[i][j], x[k]))


def rsquared(env):
    """explained over total variance, row by row; one for exact fits and
    zero for a model that predicts the mean."""
    xs = XS[env.choice('grid', [0, 1])]
    rows = env.choice('rows', [0, 1, 2])
    mode = env.choice('case', ['exact', 'mean', 'any'])
    a = series(env, 'a', 3)
    y = series(env, 'y', 2)
    slope = env.real('slope', .5, 4.)
    P = env.load(MOD)
    n = len(xs)
    par = [a[0], slope]
    exact = [value(par, x) for x in xs]
    other = [2. + 3. * x for x in xs]
    base = [1., -2., 3., 4., 6.][:n]
    if mode == 'exact':
        Y, pars = exact, par
    elif mode == 'mean':
        Y, pars = exact, [a[0] + slope * sum(xs) / n, 0.]
    else:
        Y = [base[0] + 10.] + base[1:-2] + [y[0], y[1]]
        pars = [a[1], a[2]]
    if rows == 0:
        r = [P.R_squared(np.array(xs), env.mkarr(Y), env.mkarr(pars))]
        Ys, ps = [Y], [pars]
    elif rows == 1:
        r = P.R_squared(np.array(xs), env.mkarr([Y]), env.mkarr([pars]))
        Ys, ps = [Y], [pars]
    else:
        r = P.R_squared(np.array(xs), env.mkarr([other, Y]),
                        env.mkarr([[2., 3.], pars]))
        Ys, ps = [other, Y], [[2., 3.], pars]
    env.check_true('one value per row', len(r) == len(Ys))
    for i in range(len(Ys)):
        lab = 'R2 row %d' % i
        if i < len(Ys) - 1 or mode == 'exact':
            env.check_eq(lab, r[i], 1., ctol=1e-9)
        elif mode == 'mean':
            env.check_eq(lab, r[i], 0., atol=1e-12)
        else:
            m = sum(Ys[i], 0.) / n
            reg = sum(((value(ps[i], x) - m) ** 2 for x in xs), 0.)
            tot = sum(((v - m) ** 2 for v in Ys[i]), 0.)
            env.check_eq(lab, r[i] * tot, reg, rtol=1e-9, atol=1e-9)


def minimum(degree, nroots, sign, shift):
    """every critical point with positive curvature, and nothing else."""
    def h(env):
        c = series(env, 'c', degree)
        lead = env.real('lead', .5, 3.) if sign > 0 else \
            env.real('lead', -3., -.5)
        add = env.real('add', -5., 5.)
        add = add if shift else 0.
        P = env.load(MOD)
        pars = env.mkarr(c + [lead])
        r = P.find_polynomial_minimum(pars, add) if shift else \
            P.find_polynomial_minimum(pars)
        p = c + [lead]
        if env.sym:
            want = (nroots + (1 if sign > 0 else 0)) // 2
        else:
            d = [k * v for k, v in enumerate(p)][1:]
            d[0] = d[0] + add
            z = np.polynomial.polynomial.Polynomial(d).roots()
            z = z[z.imag == 0].real
            env.assume(len(z) == nroots)
            if len(z) > 1:
                env.assume(bool(np.min(np.diff(np.sort(z))) > 1e-3))
            want = int(sum(1 for v in z if value(p, v, 2) > 0.))
        env.check_true('number of minima', len(r) == want,
                       '%d instead of %d' % (len(r), want))
        for i in range(len(r)):
            env.check_eq('stationary %d' % i, value(p, r[i], 1) + add, 0.,
                         rtol=0., atol=1e-6, catol=1e-4)
            env.check('minimum %d' % i, value(p, r[i], 2) > 0.)
        for i in range(len(r) - 1):
            env.check('distinct %d' % i, env.Or(r[i] < r[i + 1],
                                                r[i] > r[i + 1]))
    return h


def constant(env):
    """straight lines have no minimum."""
    c = series(env, 'c', 2)
    P = env.load(MOD)
    env.assume(env.Or(c[1] > .1, c[1] < -.1))
    r = P.find_polynomial_minimum(env.mkarr(c))
    env.check_true('no minimum', len(r) == 0)


def derivative(env):
    n = env.choice('points', [2, 3, 5])
    y = series(env, 'y', 5)
    x0 = env.real('x0', -3., 3.)
    h = [env.real('h%d' % i, .5, 2.) for i in range(4)]
    D = env.load('quantas.utils.math.derivative')
    x = [x0]
    for v in h:
        x.append(x[-1] + v)
    x, y = x[:n], y[:n]
    r = D.derivative(env.mkarr(x), env.mkarr(y))
    env.check_true('shape', np.shape(r) == (n,))
    for i in range(n):
        lo, hi = max(i - 1, 0), min(i + 1, n - 1)
        env.check_eq('slope %d' % i, r[i] * (x[hi] - x[lo]), y[hi] - y[lo],
                     atol=1e-9)


def single(env):
    v = env.real('v', -3., 3.)
    D = env.load('quantas.utils.math.derivative')
    try:
        D.derivative(env.mkarr([v]), env.mkarr([v + 1.]))
        bad = True
    except D.LenError:
        bad = False
    env.check_true('a single point is refused', not bad)


def direction(env):
    th, ph = env.angle('theta'), env.angle('phi')
    F = env.load('quantas.utils.math.fast_math')
    r = F.vector(th, ph)
    for lab, a, b in zip('xyz', r, [
            env.sin(th) * env.cos(ph), env.sin(th) * env.sin(ph),
            env.cos(th)]):
        env.check_eq(lab, a, b, atol=1e-12)


def cofactor(env):
    m = [series(env, 'm%d' % i, 3, -3., 3.) for i in range(3)]
    F = env.load('quantas.utils.math.fast_math')
    r = F.cofactor(env.mkarr(m))
    env.check_true('a matrix is returned', np.shape(r) == (3, 3),
                   '%r' % (r,))
    if np.shape(r) != (3, 3):
        return
    for i in range(3):
        for j in range(3):
            a, b = [k for k in range(3) if k != i]
            c, d = [k for k in range(3) if k != j]
            v = m[a][c] * m[b][d] - m[a][d] * m[b][c]
            env.check_eq('cofactor %d%d' % (i, j), r[i][j],
                         v if (i + j) % 2 == 0 else -v, atol=1e-12)


def harnesses(tier):
    out = [('fit', fit, {}), ('evaluate', evaluate, {}),
           ('r-squared', rsquared, {'numpy_div': True}),
           ('straight', constant, {}), ('derivative', derivative, {}),
           ('single', single, {}), ('vector', direction, {}),
           ('cofactor', cofactor, {})]
    cases = [(2, 1, 1), (2, 1, -1), (3, 2, 1), (3, 2, -1), (3, 0, 1),
             (4, 1, 1), (4, 3, 1), (4, 3, -1)]
    if tier == 'thorough':
        cases += [(4, 1, -1), (5, 4, 1), (5, 2, 1), (5, 2, -1), (5, 4, -1)]
    for d, n, s in cases:
        for sh in (False, True):
            out.append(('minimum-%d-%d%s%s' % (d, n, '+' if s > 0 else '-',
                                               '-add' if sh else ''),
                        minimum(d, n, s, sh),
                        {'nroots': [n], 'root_sign': [s]}))
    return out
