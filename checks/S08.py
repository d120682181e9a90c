# -*- coding: utf-8 -*-
"""S08: Christoffel equation, phase and group velocities."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import itertools as it
import numpy as np
import scommon as sc
from vx.expr import Unsupported

BOUNDS = ('triclinic tensors (21 symbolic components; cubic for second '
          'derivatives), symbolic density, any direction given by angles '
          'or by a vector of any length')
OUTSIDE = ('the pseudo-inverse itself; plots and file output of the '
           'seismic module, which is not importable at this commit')
ASSUMPTIONS = ['the eigenvalues and eigenvectors of a symmetric matrix are '
               'functions of the matrix, eigenvalues ascending',
               'sin and cos are atoms with sin^2 + cos^2 = 1',
               'numpy.linalg.inv returns the inverse']
MOD = 'quantas.seismic.utils.seismic_obj'


def make(env, kind='triclinic'):
    C = sc.voigt(env, kind=kind, off_=(-5., 25.))
    rho = env.real('rho', pos=True, sample=(1000., 6000.))
    m = env.load(MOD)
    return C, rho, m, m.Seismic(env.mkarr(C), rho)


def direction(env):
    how = env.choice('given as', ['angles', 'vector'])
    t, p = env.angle('theta'), env.angle('phi')
    x = [env.real('x%d' % k, sample=(.2, 3.)) for k in range(3)]
    if how == 'angles':
        return how, (t, p), sc.direction(env, t, p)
    env.assume(env.Or(x[0] > .1, x[0] < -.1))
    env.assume(env.Or(x[2] > .1, x[2] < -.1))
    r = env.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
    return how, x, [c / r for c in x]


def set_direction(env, o, how, arg):
    if how == 'angles':
        o.spherical_direction(*arg)
    else:
        o.cartesian_direction(env.mkarr(arg))


def christoffel(env):
    how, arg, n = direction(env)
    C, rho, m, o = make(env)
    set_direction(env, o, how, arg)
    T = sc.c_tensor(np.array(C, dtype=object))
    G = sc.christoffel(T, n)
    for i in range(3):
        env.check_eq('direction', o.q[i], n[i])
        for j in range(3):
            env.check_eq('Christoffel', o.christoffel[i, j] * rho,
                         1e3 * G[i, j], atol=1e-6)
    # derivative with respect to the direction
    for k in range(3):
        for i in range(3):
            for j in range(3):
                r = sum((T[i, k, j, l] + T[i, l, j, k]) * n[l]
                        for l in range(3))
                env.check_eq('gradient', o.grad_M[k, i, j] * rho, 1e3 * r,
                             atol=1e-6)


def waves(env, kind):
    """phase velocities, and group velocities: the gradient of the phase
    velocity with respect to the wave vector."""
    t, p = env.angle('theta'), env.angle('phi')
    n = sc.direction(env, t, p)
    C, rho, m, o = make(env, kind)
    o.spherical_direction(t, p)
    T = sc.c_tensor(np.array(C, dtype=object))
    w, v = m.np.linalg.eigh(o.christoffel)
    for k in range(3):
        env.assume(w[k] > 0.)
    env.assume(w[0] < w[1])
    env.assume(w[1] < w[2])
    p = o.phase_velocity
    for k in range(3):
        env.check_eq('phase velocity', p[k], env.sqrt(w[k]))
        env.check_true('positive', p[k] > 0.)
    g, a, d = o.group_velocity, o.group_abs, o.group_dir
    for k in range(3):
        for j in range(3):
            r = 0.
            for x, y, l in it.product(range(3), repeat=3):
                r = r + (T[x, j, y, l] + T[x, l, y, j]) * n[l] \
                    * v[x, k] * v[y, k]
            env.check_eq('group velocity', g[k, j] * p[k] * 2. * rho,
                         1e3 * r, atol=1e-6)
            env.check_eq('group direction', d[k, j] * a[k], g[k, j])
        env.check_eq('group speed', a[k], env.sqrt(
            g[k, 0] * g[k, 0] + g[k, 1] * g[k, 1] + g[k, 2] * g[k, 2]))


def group(env):
    """angles of the group velocity and of the power flow."""
    C, rho, m, o = make(env, 'cubic')
    t, p = env.angle('theta'), env.angle('phi')
    n = sc.direction(env, t, p)
    k = env.choice('wave', [0, 2])
    s = env.real('s', pos=True)
    a = (2, 1, 2)
    h = env.choice('octant', list(it.product((1., -1.), repeat=3)))
    g = [s * float(x) * y for x, y in zip(a, h)]
    M = np.zeros((3, 3, 3), dtype=object)
    for j in range(3):
        M[j] = g[j] * np.eye(3)
    env.patch(m.Seismic, 'phase_velocity', env.mkarr([1.5, 2., 2.5]))
    env.patch(m.Seismic, 'eigenvec', np.eye(3))
    env.patch(m.Seismic, 'grad_M', M if env.sym else M.astype(float))
    o.spherical_direction(t, p)
    r = s * float(sum(x * x for x in a)) ** .5
    u = sc.direction(env, o.group_theta[k], o.group_phi[k])
    for j in range(3):
        env.check_eq('group direction', o.group_dir[k, j] * r, g[j])
        env.check_eq('angles of the group velocity', u[j] * r, g[j])
    if h not in ((1., 1., 1.), (1., -1., -1.)):
        return
    env.check_eq('power flow angle', env.cos(o.powerflow_angle[k]),
                 sum(g[j] * n[j] for j in range(3)) / r, atol=1e-9)


def cofactor(env):
    """cofactor(A) A^T = det(A), singular matrices included."""
    A = env.mkarr([[env.real('a%d%d' % (i, j), sample=(-3., 3.))
                    for j in range(3)] for i in range(3)])
    zero = env.choice('zero row', [None, 0, 1, 2])
    if zero is not None:
        A[zero] = 0. * A[zero]
    m = env.load(MOD)
    c = m.cofactor(A)
    for i in range(3):
        for j in range(3):
            i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            env.check_eq('cofactor', c[i, j], A[i1, j1] * A[i2, j2]
                         - A[i1, j2] * A[i2, j1], catol=1e-6)


def enhancement(env):
    """1 / |cof(grad of the group direction) . q|."""
    C, rho, m, o = make(env, 'cubic')
    t, p = env.angle('theta'), env.angle('phi')
    n = sc.direction(env, t, p)
    H = env.arr('H', (3, 3, 3), sample=(-3., 3.))
    V = env.arr('V', (3,), pos=True, sample=(1., 3.))
    U = env.arr('U', (3, 3), sample=(.2, 3.))
    for i in range(3):
        env.assume(U[i, 0] > .1)
    o.spherical_direction(t, p)
    env.patch(m.Seismic, 'hessian_eigenval', H)
    env.patch(m.Seismic, 'phase_velocity', V)
    env.patch(m.Seismic, 'group_velocity', U)
    a = env.mkarr([env.sqrt(sum(U[i, j] * U[i, j] for j in range(3)))
                   for i in range(3)])
    env.patch(m.Seismic, 'group_abs', a)
    seen = []

    def cof(A):
        seen.append(A)
        c = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                c[i, j] = k = env.real('cof%d%d%d' % (len(seen), i, j),
                                       sample=(.5, 2.))
        return c if env.sym else c.astype(float)
    env.patch(m, 'cofactor', cof)
    e = o.enhancement
    env.check_true('cofactors', len(seen) == 3)
    for w in range(3):
        for i in range(3):
            for j in range(3):
                # d(U_i/|U|)/dx_j, with U = grad(lambda) / (2 V)
                r = H[w, i, j] / a[w] - U[w, i] * sum(
                    H[w, j, k] * U[w, k] for k in range(3)) / (
                        a[w] * a[w] * a[w])
                env.check_eq('gradient of the direction',
                             seen[w][i, j] * 2. * V[w], r)
        s = 0.
        for i in range(3):
            x = sum(env.real('cof%d%d%d' % (w + 1, i, k), sample=(.5, 2.))
                    * n[k] for k in range(3))
            s = s + x * x
        env.check_eq('enhancement', e[w] * e[w] * s, 1.)


def hessian(env):
    """second derivatives of the eigenvalues (perturbation theory)."""
    C, rho, m, o = make(env, 'cubic')
    t, p = env.angle('theta'), env.angle('phi')
    n = sc.direction(env, t, p)
    W = env.arr('W', (3,), sample=(1., 3.))
    V = env.arr('V', (3, 3), sample=(-1., 1.))
    P = [[[env.real('P%d%d%d' % (w, i, j), sample=(-1., 1.))
           for j in range(3)] for i in range(3)] for w in range(3)]
    o.spherical_direction(t, p)
    env.patch(m.Seismic, 'eigenval', W)
    env.patch(m.Seismic, 'eigenvec', V)
    seen = []

    def pinv(a, rcond=1e-15, *k, **kw):
        a = np.asarray(a, dtype=object if env.sym else None)
        env.check_true('resolution of the pseudo-inverse',
                       kw.get('rtol', rcond) <= 1e-5)
        if a.ndim == 3:
            return np.asarray([pinv(x) for x in a])
        seen.append(a)
        w = len(seen) - 1
        return env.mkarr([[P[w][min(i, j)][max(i, j)] for j in range(3)]
                          for i in range(3)])
    env.patch(m.np.linalg, 'pinv', pinv)
    h = o.hessian_eigenval
    if len(seen) != 3:
        raise Unsupported('another way to the resolvents')
    T = sc.c_tensor(np.array(C, dtype=object))
    G = sc.christoffel(T, n)
    k = 1e3 / rho
    for w in range(3):
        for i in range(3):
            for j in range(3):
                env.check_eq('resolvent', seen[w][i, j],
                             (W[w] if i == j else 0.) - k * G[i, j],
                             atol=1e-6)
    w = env.choice('wave', [0, 1, 2])
    D = [[sum(k * (T[a, i, b, l] + T[a, l, b, i]) * n[l] * V[w, a]
              for l in range(3) for a in range(3)) for b in range(3)]
         for i in range(3)]
    for i in range(3):
        for j in range(3):
            r = sum(k * (T[a, i, b, j] + T[a, j, b, i]) * V[w, a] * V[w, b]
                    for a in range(3) for b in range(3))
            r = r + 2. * sum(D[i][a] * P[w][min(a, b)][max(a, b)] * D[j][b]
                             for a in range(3) for b in range(3))
            env.check_eq('hessian', h[w, i, j], r, atol=1e-6)


TRIPLES = [(2, 1, 2), (2, 3, 6), (1, 4, 8), (4, 4, 7)]


def angles(env):
    """spherical angles of a vector give the vector back."""
    s = env.real('s', pos=True)
    t = env.choice('vector', TRIPLES)
    g = env.choice('octant', list(it.product((1., -1.), repeat=3)))
    C, rho, m, o = make(env, 'cubic')
    x = [s * float(a) * b for a, b in zip(t, g)]
    o.cartesian_direction(env.mkarr(x))
    r = s * float(sum(a * a for a in t)) ** .5
    q = sc.direction(env, o.theta, o.phi)
    for k in range(3):
        env.check_eq('angles %d' % k, q[k] * r, x[k])


def positive(env, m, o):
    w = m.np.linalg.eigh(o.christoffel)[0]
    for k in range(3):
        env.assume(w[k] > 0.)
    env.assume(w[0] < w[1])
    env.assume(w[1] < w[2])


def two(env):
    """a new direction leaves nothing of the previous one behind."""
    t, p, t2, p2 = (env.angle(k) for k in ('t', 'p', 't2', 'p2'))
    C, rho, m, o = make(env, 'cubic')
    o.spherical_direction(t, p)
    positive(env, m, o)
    a = o.phase_velocity
    o.grad_M
    o.spherical_direction(t2, p2)
    positive(env, m, o)
    b = o.phase_velocity
    x = m.Seismic(env.mkarr(C), rho)
    x.spherical_direction(t2, p2)
    for k in range(3):
        env.check_eq('velocity %d' % k, b[k], x.phase_velocity[k])
        for i in range(3):
            for j in range(3):
                env.check_eq('gradient', o.grad_M[k, i, j],
                             x.grad_M[k, i, j])


def isotropic(env):
    """averages agree with those of the elastic analysis."""
    C, rho, m, o = make(env)
    k, _, g, _ = env.load(sc.MOD).SOEC(env.mkarr(C), rho).averages()[2]
    env.assume(env.And(g > 1., k > 1.))
    env.check_eq('K', o.bulk_modulus, k)
    env.check_eq('G', o.shear_modulus, g)
    v = o.isotropic_velocity
    env.check_eq('Vs', v[0], env.sqrt(1e3 * g / rho))
    env.check_eq('Vs', v[1], env.sqrt(1e3 * g / rho))
    env.check_eq('Vp', v[2], env.sqrt(1e3 * (k + 4. * g / 3) / rho))


def relative(env):
    """velocities referred to those of the isotropic aggregate."""
    C, rho, m, o = make(env, 'cubic')
    t, p = env.angle('theta'), env.angle('phi')
    v = [env.real('iso%d' % i, lo=.5, sample=(1., 9.)) for i in range(3)]
    w = [env.real('v%d' % i, lo=.5, sample=(1., 9.)) for i in range(3)]
    s = env.real('s', lo=.5, sample=(1., 9.))
    g = [s * x for x in (2., -1., 2.)]
    M = np.zeros((3, 3, 3), dtype=object)
    for j in range(3):
        M[j] = g[j] * np.eye(3)
    env.patch(m.Seismic, 'isotropic_velocity', env.mkarr(v))
    env.patch(m.Seismic, 'phase_velocity', env.mkarr(w))
    env.patch(m.Seismic, 'eigenvec', np.eye(3))
    env.patch(m.Seismic, 'grad_M', M if env.sym else M.astype(float))
    o.spherical_direction(t, p)
    env.check_eq('isotropic S', o.iso_S, v[0])
    env.check_eq('isotropic P', o.iso_P, v[2])
    a, b, c = o.rel_phase_velocity, o.rel_group_velocity, o.grad_eigenval
    for k in range(3):
        env.check_eq('phase velocity %d' % k, a[k] * v[k], w[k])
        env.check_eq('group velocity %d' % k, b[k] * v[k] * 2. * w[k], 3. * s)
        for j in range(3):
            env.check_eq('gradient', c[k, j], g[j])


def harnesses(tier):
    o = {'inv_defs': False, 'numpy_div': True}
    out = [('christoffel', christoffel, o), ('waves-cubic', lambda e: waves(e, 'cubic'), o),
            ('group', group, o), ('hessian', hessian, o), ('cofactor', cofactor, {'inv_explicit': True,
                                       'numpy_div': True}), ('enhancement', enhancement, o),
            ('angles', angles, o), ('two', two, o),
            ('isotropic', isotropic, o), ('relative', relative, o)]
    if tier == 'thorough':
        for k in ('hexagonal', 'orthorhombic'):
            out.append(('waves-' + k, lambda e, k=k: waves(e, k), o))
    return out
