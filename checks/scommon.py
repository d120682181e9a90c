# -*- coding: utf-8 -*-
"""independent definitions for elastic tensors."""
import itertools as it
import numpy as np

VM = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (2, 1): 3, (0, 2): 4,
      (2, 0): 4, (0, 1): 5, (1, 0): 5}
MOD = 'quantas.soec.utils.soec_obj'


def voigt(env, tag='c', kind='triclinic', off_=(-15., 40.)):
    """6x6 list of lists of symbols with the pattern of a crystal system."""
    def r(n, d=False, off=0.):
        return env.real(tag + n, sample=(100. + off, 300.) if d
                        else off_)
    z = 0.
    C = [[z] * 6 for _ in range(6)]

    def put(i, j, v):
        C[i - 1][j - 1] = C[j - 1][i - 1] = v
    if kind == 'triclinic':
        for i in range(1, 7):
            for j in range(i, 7):
                put(i, j, r('%d%d' % (i, j), i == j))
        return C
    if kind == 'isotropic':
        a, b = r('11', True, 60.), r('12')
        for i in (1, 2, 3):
            put(i, i, a)
            put(i + 3, i + 3, (a - b) / 2.)
        for i, j in ((1, 2), (1, 3), (2, 3)):
            put(i, j, b)
        return C
    if kind == 'cubic':
        a, b, c = r('11', True, 60.), r('12'), r('44', True)
        for i in (1, 2, 3):
            put(i, i, a)
            put(i + 3, i + 3, c)
        for i, j in ((1, 2), (1, 3), (2, 3)):
            put(i, j, b)
        return C
    if kind in ('hexagonal', 'trigonal_high', 'trigonal_low'):
        a, b, c, d, e = (r('11', True), r('12'), r('13'), r('33', True),
                         r('44', True))
        put(1, 1, a), put(2, 2, a), put(3, 3, d)
        put(1, 2, b), put(1, 3, c), put(2, 3, c)
        put(4, 4, e), put(5, 5, e), put(6, 6, (a - b) / 2.)
        if kind != 'hexagonal':
            f = r('14')
            put(1, 4, f), put(2, 4, -f), put(5, 6, f)
        if kind == 'trigonal_low':
            g = r('15')
            put(1, 5, g), put(2, 5, -g), put(4, 6, -g)
        return C
    if kind in ('tetragonal_high', 'tetragonal_low'):
        a, b, c, d, e, f = (r('11', True), r('12'), r('13'), r('33', True),
                            r('44', True), r('66', True))
        put(1, 1, a), put(2, 2, a), put(3, 3, d)
        put(1, 2, b), put(1, 3, c), put(2, 3, c)
        put(4, 4, e), put(5, 5, e), put(6, 6, f)
        if kind == 'tetragonal_low':
            g = r('16')
            put(1, 6, g), put(2, 6, -g)
        return C
    if kind in ('orthorhombic', 'monoclinic'):
        for i in range(1, 7):
            put(i, i, r('%d%d' % (i, i), True))
        for i, j in ((1, 2), (1, 3), (2, 3)):
            put(i, j, r('%d%d' % (i, j)))
        if kind == 'monoclinic':
            for i, j in ((1, 5), (2, 5), (3, 5), (4, 6)):
                put(i, j, r('%d%d' % (i, j)))
        return C
    raise ValueError(kind)


def compliance(env, C):
    """inverse of the stiffness matrix."""
    return env.load('quantas.soec.utils.soec_obj').np.linalg.inv(C)


def s_tensor(S):
    """3x3x3x3 compliance tensor from the Voigt matrix."""
    T = np.empty((3, 3, 3, 3), dtype=object)
    for i, j, k, l in it.product(range(3), repeat=4):
        p, q = VM[i, j], VM[k, l]
        f = (1. if p < 3 else .5) * (1. if q < 3 else .5)
        T[i, j, k, l] = S[p][q] * f
    return T


def c_tensor(C):
    T = np.empty((3, 3, 3, 3), dtype=object)
    for i, j, k, l in it.product(range(3), repeat=4):
        T[i, j, k, l] = C[VM[i, j]][VM[k, l]]
    return T


def direction(env, t, p):
    return [env.sin(t) * env.cos(p), env.sin(t) * env.sin(p), env.cos(t)]


def transverse(env, t, p, x):
    ct, st, cp, sp, cx, sx = (env.cos(t), env.sin(t), env.cos(p), env.sin(p),
                              env.cos(x), env.sin(x))
    return [ct * cp * cx - sp * sx, ct * sp * cx + cp * sx, -st * cx]


def contract4(T, a, b, c, d):
    """sum_ijkl T_ijkl a_i b_j c_k d_l"""
    r = 0.
    for i, j, k, l in it.product(range(3), repeat=4):
        r = r + T[i, j, k, l] * a[i] * b[j] * c[k] * d[l]
    return r


def christoffel(T, n):
    """Gamma_ik = C_ijkl n_j n_l"""
    G = np.empty((3, 3), dtype=object)
    for i in range(3):
        for k in range(3):
            r = 0.
            for j in range(3):
                for l in range(3):
                    r = r + T[i, j, k, l] * n[j] * n[l]
            G[i, k] = r
    return G


CALC = 'quantas.soec.soec'


def write_soec(env, C, rho=None, title='A solid', name='s.dat'):
    """elastic-constants input file."""
    L = [title]
    memo = {}
    for i in range(6):
        row = []
        for j in range(6):
            k = (min(i, j), max(i, j))
            if k not in memo:
                v = C[k[0]][k[1]]
                memo[k] = '%.1f' % v if env.sym and isinstance(v, float) \
                    else env.token(v)
            row.append(memo[k])
        L.append(' '.join(row))
    if rho is not None:
        L.append(env.token(rho))
    return env.file('\n'.join(L) + '\n', name)


def calculator(env, C, rho=None, polar=False, title='A solid', read=True):
    """SOECCalculator that has read its input; text of the log."""
    import os
    log = os.path.join(env.tmpdir(), 'log.txt')
    m = env.load(CALC)
    calc = m.SOECCalculator({
        'polar': polar, 'silent': True, 'debug': False, 'logfile': log,
        'pressure_unit': 'GPa', 'plotting': False, 'outfig': '', 'dpi': 80})
    err = calc.read_input(write_soec(env, C, rho, title))

    def text():
        with open(log) as f:
            return f.read()
    return calc, err, text


def generic(env, C, kind):
    """the constants satisfy the relations of no other class."""
    g = []
    if kind == 'triclinic':
        g = [C[0][3], C[0][4], C[0][5]]
    elif kind == 'monoclinic':
        g = [C[0][4], C[0][0] - C[1][1]]
    elif kind == 'orthorhombic':
        g = [C[0][0] - C[1][1]]
    elif kind in ('tetragonal_high', 'tetragonal_low'):
        g = [C[0][0] - C[2][2], C[5][5] - (C[0][0] - C[0][1]) / 2.]
        if kind == 'tetragonal_low':
            g.append(C[0][5])
    elif kind in ('hexagonal', 'trigonal_high', 'trigonal_low'):
        g = [C[0][0] - C[2][2]]
        if kind != 'hexagonal':
            g.append(C[0][3])
        if kind == 'trigonal_low':
            g.append(C[0][4])
    for e in g:
        env.assume(env.Or(e > .01, e < -.01))


def stable(C):
    """positive definite matrix of numbers."""
    return np.linalg.eigvalsh(np.array(C, dtype=float)).min() > 1.


def brute_call(args=(), Ns=20, full_output=0, finish=None, disp=False,
               workers=1):
    """arguments of scipy.optimize.brute: (extra arguments, points, full)."""
    args = tuple(args) if isinstance(args, (tuple, list)) else (args,)
    return args, Ns, full_output


def some_point(env, func, ranges, *args, **kw):
    """scipy.optimize.brute, where the extremes do not matter."""
    import numpy as np
    x = np.zeros(len(ranges))
    return (x, 1., None, None) if brute_call(*args, **kw)[2] else x
