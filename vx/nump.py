# -*- coding: utf-8 -*-
"""numpy / math stand-ins used by the symbolically executed modules.

Arrays are real ndarrays of dtype object (subclass SArr) that hold python
floats and symbolic reals, so slicing, broadcasting, dot, einsum, reshape...
are numpy's own."""
import math
import types
from fractions import Fraction
import numpy as np

from . import expr as X
from .sym import (S, SB, CUR, lift, and_, or_, not_, has_sym)
from .expr import Unsupported


class SArr(np.ndarray):
    """object ndarray; comparisons stay symbolic until a truth value is
    needed."""
    __array_priority__ = 2000.

    def __new__(cls, *a, **k):
        return np.ndarray.__new__(cls, *a, **k)

    def _c(self, o, f):
        o = o if not isinstance(o, (list, tuple)) else arr(o)
        if o is None or isinstance(o, str):
            return np.ndarray.__eq__(self, o)
        a, b = np.broadcast_arrays(np.asarray(self), np.asarray(o))
        out = np.empty(a.shape, dtype=object)
        sym = False
        for idx in np.ndindex(*a.shape):
            r = f(a[idx], b[idx])
            out[idx] = r
            sym = sym or isinstance(r, SB)
        if not sym:
            out = out.astype(bool)
            return out if out.ndim else bool(out)
        return out.view(BArr)

    def __lt__(self, o):
        return self._c(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._c(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._c(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._c(o, lambda x, y: x >= y)

    def __eq__(self, o):
        return self._c(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._c(o, lambda x, y: x != y)

    __hash__ = None

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _idx(k))

    def __setitem__(self, k, v):
        if isinstance(v, str):
            v = tofloat(v)
        elif isinstance(v, (list, tuple)) and any(
                isinstance(x, str) for x in v):
            v = [tofloat(x) for x in v]
        elif isinstance(v, np.ndarray) and v.dtype.kind in 'SU':
            v = cast(v, float)
        np.ndarray.__setitem__(self, _idx(k), v)

    def astype(self, t, *a, **kw):
        return cast(self, t)

    def min(self, axis=None, **k):
        return NP.min(self, axis)

    def max(self, axis=None, **k):
        return NP.max(self, axis)

    def argmin(self, axis=None):
        return NP.argmin(self, axis)

    def argmax(self, axis=None):
        return NP.argmax(self, axis)

    def mean(self, axis=None, **k):
        return NP.mean(self, axis)

    def std(self, axis=None, **k):
        return NP.std(self, axis)

    def round(self, n=0, **k):
        return NP.round(self, n)

    def sum(self, *a, **k):
        k.pop('dtype', None)
        return np.ndarray.sum(self, *a, **k)

    def any(self, *a, **k):
        return NP.any(self, *a, **k)

    def all(self, *a, **k):
        return NP.all(self, *a, **k)

    @property
    def real(self):
        return _el(lambda x: x.real, self)

    @property
    def imag(self):
        return _el(lambda x: x.imag if not isinstance(x, S) else 0., self)

    def conj(self):
        return self

    conjugate = conj

    def dot(self, o):
        return NP.dot(self, o)

    def item(self, *a):
        return np.ndarray.item(self, *a)


class BArr(SArr):
    """object array of symbolic truth values."""

    def all(self, axis=None, **k):
        if axis is None:
            return and_(list(np.asarray(self).flat))
        return np.apply_along_axis(lambda v: and_(list(v)), axis,
                                   np.asarray(self)).view(BArr)

    def any(self, axis=None, **k):
        if axis is None:
            return or_(list(np.asarray(self).flat))
        return np.apply_along_axis(lambda v: or_(list(v)), axis,
                                   np.asarray(self)).view(BArr)

    def __and__(self, o):
        return _bmap(lambda x, y: and_([x, y]), self, o)

    __rand__ = __and__

    def __or__(self, o):
        return _bmap(lambda x, y: or_([x, y]), self, o)

    __ror__ = __or__

    def __invert__(self):
        return _bmap1(not_, self)

    def __bool__(self):
        if self.size == 1:
            return bool(np.asarray(self).flat[0])
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def sum(self, *a, **k):
        return forced(self).sum(*a, **k)


def _bmap(f, a, b):
    a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i], b[i])
    return out.view(BArr)


def _bmap1(f, a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out.view(BArr)


def forced(b):
    b = np.asarray(b)
    out = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(*b.shape):
        out[i] = bool(b[i])
    return out


def _idx(k):
    if isinstance(k, BArr):
        return forced(k)
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, SArr):
        a = np.asarray(k)
        if a.size == 0:
            return a.astype(int)
        if all(isinstance(x, (bool, np.bool_)) for x in a.flat):
            return a.astype(bool)
        if all(isinstance(x, (int, np.integer)) for x in a.flat):
            return a.astype(int)
        return k
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if isinstance(k, S):
        return int(k)
    return k


def is_floatlike(t):
    if t is None:
        return True
    if t in (float, np.float64, np.float32, np.double, object, np.float_,
             complex, np.complex128):
        return True
    if getattr(t, '_vx_float', False):
        return True
    if isinstance(t, str):
        return t.startswith('f') or t in ('d', 'double', 'object', 'complex',
                                          '<f8')
    if isinstance(t, np.dtype):
        return t.kind in 'fcO'
    return False


def real_dtype(t):
    if getattr(t, '_vx_int', False):
        return int
    return t


def tofloat(x):
    if isinstance(x, (S, SB)):
        return x
    if isinstance(x, str):
        return CUR.env.loader.float_(x)
    if isinstance(x, (np.complexfloating, complex)):
        return complex(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return tofloat(x.item())
    if x is None:
        return None
    return float(x)


def cast(a, t):
    if is_floatlike(t):
        if isinstance(t, type) and t is object:
            return np.array(a, dtype=object).view(SArr)
        out = np.empty(np.shape(a), dtype=object)
        aa = np.asarray(a)
        for i in np.ndindex(*out.shape):
            out[i] = tofloat(aa[i])
        return out.view(SArr)
    t = real_dtype(t)
    if t is str or t is np.str_ or (isinstance(t, str) and t[0] in 'SU'):
        return np.array(np.asarray(a), dtype=t)
    if t in (bool, np.bool_):
        return forced(a)
    if t in (int, np.int64, np.int32, 'int', 'i', 'i8', np.intp):
        aa = np.asarray(a)
        out = np.empty(aa.shape, dtype=int)
        for i in np.ndindex(*aa.shape):
            out[i] = int(aa[i])
        return out
    return np.asarray(a).astype(t)


def arr(x, dtype=None, copy=True, ndmin=0, **k):
    """np.array"""
    if dtype is not None and not is_floatlike(dtype):
        if isinstance(x, np.ndarray) and x.dtype != object and \
                not has_sym(x):
            return np.array(x, dtype=real_dtype(dtype))
        if not has_sym(x) and not isinstance(x, np.ndarray):
            try:
                return np.array(x, dtype=real_dtype(dtype))
            except Unsupported:
                pass
        return cast(np.array(x, dtype=object), dtype)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biUSM' and dtype is None:
            return x.copy() if copy else x
        return cast(x, float) if x.dtype != object or dtype is not None \
            else (np.array(x, dtype=object).view(SArr) if copy else
                  x.view(SArr) if not isinstance(x, SArr) else x)
    if isinstance(x, (types.GeneratorType, map, range, zip)):
        if isinstance(x, range):
            return np.array(x)
        return np.array(x, dtype=object)
    if not has_sym(x):
        r = np.array(x)
        if r.dtype.kind in 'biUSM' and dtype is None:
            return r
        if r.dtype == object and dtype is None:
            return r.view(SArr)
        out = cast(r, float)
        return out
    shape = _shape(x)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        y = x
        for j in i:
            y = y[j]
        out[i] = tofloat(y) if not isinstance(y, (str,)) or dtype else y
    return out.view(SArr)


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        ss = [_shape(y) for y in x]
        if any(s != ss[0] for s in ss):
            raise ValueError('inhomogeneous shape')
        return (len(x),) + ss[0]
    return ()


def filled(shape, v):
    out = np.empty(shape, dtype=object)
    out.fill(v)
    return out.view(SArr)


def _el(f, *xs):
    """elementwise python function over broadcast args."""
    if not any(isinstance(x, (np.ndarray, list, tuple)) for x in xs):
        return f(*xs)
    xs = [np.asarray(x, dtype=object) if not isinstance(x, np.ndarray)
          else np.asarray(x) for x in xs]
    bs = np.broadcast_arrays(*xs)
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[b[i] for b in bs])
    return out.view(SArr)


def scalar_fn(name, real):
    def g(x):
        if isinstance(x, S):
            if x.n.op == 'c':
                v = float(x.n.args[0])
                r = real(v)
                return r
            return getattr(x, name)()
        if isinstance(x, SB):
            x = int(x)
        if isinstance(x, complex):
            return getattr(np, name)(x)
        try:
            return real(float(x))
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    return g


def _log(x):
    if x == 0:
        return -math.inf
    return math.log(x)


SCALAR = {
    'exp': scalar_fn('exp', math.exp), 'log': scalar_fn('log', _log),
    'sqrt': scalar_fn('sqrt', math.sqrt), 'sin': scalar_fn('sin', math.sin),
    'cos': scalar_fn('cos', math.cos), 'tan': scalar_fn('tan', math.tan),
    'arcsin': scalar_fn('arcsin', math.asin),
    'arccos': scalar_fn('arccos', math.acos),
    'arctan': scalar_fn('arctan', math.atan),
    'sinh': scalar_fn('sinh', math.sinh), 'cosh': scalar_fn('cosh', math.cosh),
    'tanh': scalar_fn('tanh', math.tanh),
    'log10': scalar_fn(
        'log10', lambda v: math.log10(v) if v else -math.inf),
    'cbrt': scalar_fn('cbrt', lambda v: math.copysign(abs(v) ** (1 / 3), v)),
}


def pow_(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return a ** b
    return float(a) ** float(b)


def atan2_(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return S(X.fn('atan2', lift(a), lift(b)))
    return math.atan2(a, b)


def hypot_(a, b):
    return SCALAR['sqrt'](a * a + b * b)


def div_(a, b):
    if isinstance(b, S) or isinstance(a, S):
        return a / b
    if b == 0:
        return math.nan if a == 0 else math.copysign(math.inf, a)
    return a / b


def _restack(parts, shape):
    x = np.asarray(arr(parts))
    return arr(x.reshape(shape + x.shape[1:]))


def _stacked(f, a):
    """f applied to every matrix of a stack."""
    return _restack([f(x.view(SArr)) for x in
                     np.asarray(a).reshape((-1,) + a.shape[-2:])],
                    a.shape[:-2])


def det3(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if n == 3:
        return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
                - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
    raise Unsupported('det of order %d' % n)


class LinAlg(object):
    LinAlgError = np.linalg.LinAlgError

    def inv(self, a):
        a = NP.asarray(a)
        env = CUR.env
        if a.ndim > 2:
            return _stacked(self.inv, a)
        if not has_sym(a):
            return cast(np.linalg.inv(np.asarray(a).astype(float)), float)
        n = a.shape[0]
        if n <= 3 and not env.opts.get('inv_contract'):
            d = det3(a)
            if n == 1:
                return arr([[1. / d]])
            out = filled((n, n), 0.)
            if n == 2:
                out[0, 0], out[1, 1] = a[1, 1] / d, a[0, 0] / d
                out[0, 1], out[1, 0] = -a[0, 1] / d, -a[1, 0] / d
                return out
            for i in range(3):
                for j in range(3):
                    r = [k for k in range(3) if k != j]
                    c = [k for k in range(3) if k != i]
                    m = (a[r[0], c[0]] * a[r[1], c[1]] -
                         a[r[0], c[1]] * a[r[1], c[0]])
                    out[i, j] = m * (1 if (i + j) % 2 == 0 else -1) / d
            return out
        if env.opts.get('inv_explicit') and n == 3:
            # exact 3x3 inverse: adjugate / determinant
            d = det3(a)
            out = filled((3, 3), 0.)
            for i in range(3):
                for j in range(3):
                    p, q, r, s = (j + 1) % 3, (j + 2) % 3, (i + 1) % 3, \
                        (i + 2) % 3
                    out[i, j] = (a[p, r] * a[q, s] - a[p, s] * a[q, r]) / d
            return out
        # contract: fresh matrix S with A.S = 1
        key = ('inv',) + tuple(lift(x).id for x in np.asarray(a).flat)
        hit = env.out.get(key)
        if hit is not None:
            return hit.copy()
        nodes = [[lift(a[i, j]) for j in range(n)] for i in range(n)]
        sym = all(nodes[i][j] is nodes[j][i] for i in range(n)
                  for j in range(n))
        cache = {}

        def num(val):
            k = id(val)
            memo = {}
            m = np.array([[X.evalf(nodes[i][j], val, memo) for j in range(n)]
                          for i in range(n)])
            return np.linalg.inv(m)
        # blocks of the pattern of structural zeros
        blk = list(range(n))
        for _ in range(n):
            for i in range(n):
                for j in range(n):
                    x = nodes[i][j]
                    if not (x.op == 'c' and x.args[0] == 0):
                        blk[i] = blk[j] = min(blk[i], blk[j])
        env.fresh += 1
        tag = 'inv#%d' % env.fresh
        out = filled((n, n), 0.)
        for i in range(n):
            for j in range(n):
                if blk[i] != blk[j]:
                    continue
                if sym and j < i:
                    out[i, j] = out[j, i]
                    continue
                if blk.count(blk[i]) == 1:
                    out[i, i] = 1. / a[i, i]
                    continue
                out[i, j] = env.derived(
                    '%s_%d_%d' % (tag, i, j),
                    (lambda i, j: lambda v: num(v)[i, j])(i, j))
        prod = np.dot(np.asarray(a), np.asarray(out))
        if env.opts.get('inv_defs', True):
            for i in range(n):
                for j in range(n):
                    e = prod[i, j] == (1 if i == j else 0)
                    if isinstance(e, SB):
                        env.define(e)
        env.out[key] = out
        return out.copy()

    def det(self, a):
        a = NP.asarray(a)
        if not has_sym(a):
            d = np.linalg.det(np.asarray(a).astype(float))
            return arr(d) if a.ndim > 2 else float(d)
        if a.ndim > 2:
            return _stacked(self.det, a)
        return det3(a)

    def norm(self, a, ord=None, axis=None, keepdims=False):
        if not has_sym(a):
            return relift(np.linalg.norm(np.asarray(a).astype(float), ord,
                                         axis, keepdims))
        if keepdims:
            if axis is None or ord not in (None, 2):
                raise Unsupported('norm')
            a = np.asarray(NP.asarray(a))
            return NP.sqrt(relift((a ** 2).sum(axis, keepdims=True)))
        if axis is None and ord in (None, 2):
            a = NP.asarray(a)
            return SCALAR['sqrt']((np.asarray(a) ** 2).sum())
        if axis is not None and ord in (None, 2):
            return NP.sqrt((NP.asarray(a) ** 2).sum(axis))
        raise Unsupported('norm')

    def eigvalsh(self, a, *k):
        if NP.asarray(a).ndim > 2:
            return _stacked(lambda x: self.eigh(x)[0], NP.asarray(a))
        return self.eigh(a)[0]

    def eigvals(self, a):
        return self.eig(a)[0]

    def eig(self, a):
        a = NP.asarray(a)
        if not has_sym(a):
            w, v = np.linalg.eig(np.asarray(a).astype(float))
            return arr(w), arr(v)
        f = CUR.env.opts.get('eig')
        if f is not None:
            return f(CUR.env, a)
        n = a.shape[0]
        for i in range(n):
            for j in range(i):
                d = X.nf_sub(X.to_nf(lift(a[i, j])), X.to_nf(lift(a[j, i])))
                if d.num:
                    raise Unsupported('eig of an unsymmetric matrix')
        # the order of the eigenvalues is arbitrary
        w, v = self.eigh(a)
        return w[::-1].copy(), v[:, ::-1].copy()

    def eigh(self, a, *k):
        a = NP.asarray(a)
        if a.ndim > 2:
            p = [self.eigh(x) for x in
                 np.asarray(a).reshape((-1,) + a.shape[-2:])]
            return (_restack([x[0] for x in p], a.shape[:-2]),
                    _restack([x[1] for x in p], a.shape[:-2]))
        if not has_sym(a):
            w, v = np.linalg.eigh(np.asarray(a).astype(float))
            return arr(w), arr(v)
        f = CUR.env.opts.get('eigh')
        if f is not None:
            return f(CUR.env, a)
        return eig_contract(CUR.env, a)

    def solve(self, a, b):
        if not has_sym(a) and not has_sym(b):
            return arr(np.linalg.solve(np.asarray(a).astype(float),
                                       np.asarray(b).astype(float)))
        return NP.dot(self.inv(a), b)

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if has_sym(a):
                raise Unsupported('linalg.' + n)
            return f(*[np.asarray(x).astype(float)
                       if isinstance(x, np.ndarray) else x for x in a], **k)
        return g


def eig_contract(env, a):
    """eigenvalues/eigenvectors of a symmetric matrix (lower triangle) as
    functions of the matrix: s*A has the eigenvalues s*w(A) and the
    eigenvectors of A (s > 0)."""
    n = a.shape[0]
    nodes = [lift(a[i, j]) for i in range(n) for j in range(i + 1)]
    nfs = [X.to_nf(x) for x in nodes]
    store = env.out.setdefault('eig', [])
    for bnodes, B, w, v in store:
        if len(B) != len(nfs) or any(bool(x.num) != bool(y.num)
                                     for x, y in zip(nfs, B)):
            continue
        k = next((i for i, x in enumerate(nfs) if x.num), None)
        if k is None:
            continue
        q = X.nf_ratio(nfs[k], B[k])
        s = X.nf_const(q) if q is not None else \
            X.nf_mul(nfs[k], X.nf_inv(B[k]))
        if any(x.num and abs((X.nf_ratio(x, X.nf_mul(s, y)) or 0) - 1)
               > Fraction(1, 10 ** 9) for x, y in zip(nfs, B)):
            continue
        sn = S(X.C(q)) if q is not None else S(nodes[k]) / S(bnodes[k])
        if bool(sn > 0):
            return arr([x * sn for x in w]), v.copy()
    env.fresh += 1
    tag = 'eig#%d' % env.fresh
    cache = {}

    def num(val):
        k = id(val)
        if k not in cache:
            cache.clear()
            memo = {}
            m = np.zeros((n, n))
            p = 0
            for i in range(n):
                for j in range(i + 1):
                    m[i, j] = m[j, i] = X.evalf(nodes[p], val, memo)
                    p += 1
            cache[k] = (np.linalg.eigh(m), val)
        return cache[k][0]
    w = filled((n,), 0.)
    v = filled((n, n), 0.)
    for i in range(n):
        w[i] = env.derived('%s_w%d' % (tag, i),
                           (lambda i: lambda u: num(u)[0][i])(i))
        for j in range(n):
            v[j, i] = env.derived('%s_v%d%d' % (tag, j, i), (
                lambda i, j: lambda u: num(u)[1][j, i])(i, j))
    for i in range(n - 1):
        env.define(w[i] <= w[i + 1])
    if env.opts.get('eig_trace', True):
        t = 0.
        for i in range(n):
            t = t + a[i, i]
        e = np.asarray(w).sum() == t
        if isinstance(e, SB):
            env.define(e)
    store.append((nodes, nfs, w, v))
    return w.copy(), v.copy()


def lsq_matrix(xs, degree):
    """exact (V^T V)^-1 V^T for rational abscissae; rows = coefficients in
    ascending order."""
    xs = [Fraction(x) if isinstance(x, Fraction)
          else Fraction(X.rat(float(x))) for x in xs]
    n = degree + 1
    # centre/scale are irrelevant in exact arithmetic
    A = [[sum(x ** (i + j) for x in xs) for j in range(n)] for i in range(n)]
    m = [row[:] + [Fraction(int(i == j)) for j in range(n)]
         for i, row in enumerate(A)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            raise Unsupported('rank deficient polyfit')
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [v / d for v in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [u - f * v for u, v in zip(m[r], m[c])]
    inv = [row[n:] for row in m]
    return [[sum(inv[i][j] * x ** j for j in range(n)) for x in xs]
            for i in range(n)]


def polyfit_asc(x, y, deg, *a, **k):
    x, y = np.asarray(x), np.asarray(y)
    if a or {kk: v for kk, v in k.items() if v is not None and v is not
             False}:
        raise Unsupported('weighted polyfit')
    if has_sym(x):
        # abscissae that are constant multiples of one symbolic scale
        ref = next(v for v in x if isinstance(v, S) and v.n.op != 'c')
        r = []
        for v in x:
            nf = X.to_nf(lift(v / ref))
            if nf.den or any(m for m in nf.num):
                return polyfit_general(x, y, deg)
            r.append(Fraction(nf.num.get((), 0)))
        q = np.empty(len(r), dtype=object)
        q[:] = r
        c = polyfit_asc(q, y, deg)
        for i in range(1, deg + 1):
            c[i] = c[i] / ref ** i
        return c
    M = lsq_matrix(x, deg)
    Y = y if y.ndim == 2 else y.reshape(-1, 1)
    out = np.empty((deg + 1, Y.shape[1]), dtype=object)
    for i in range(deg + 1):
        for j in range(Y.shape[1]):
            acc = 0.
            for t in range(len(x)):
                v = Y[t, j]
                if isinstance(v, S):
                    acc = acc + S(X.mul(X.C(M[i][t]), v.n))
                else:
                    acc = acc + float(M[i][t]) * float(v) \
                        if not isinstance(acc, S) else \
                        acc + S(X.mul(X.C(M[i][t]), lift(float(v))))
            out[i, j] = acc
    if y.ndim == 1:
        out = out[:, 0]
    return out.view(SArr)


def polyfit_general(x, y, deg):
    """least squares with symbolic abscissae: exact when the ordinates are
    an affine function of the abscissae, or when the data are small
    expressions; functions of the data otherwise."""
    if y.ndim != 1 or len(x) <= deg:
        raise Unsupported('polyfit with symbolic abscissae')
    X0, Y0 = x[0], y[0]
    u = [v - X0 for v in x]
    w = [v - Y0 for v in y]
    un = [X.to_nf(lift(v)) for v in u]
    wn = [X.to_nf(lift(v)) for v in w]
    k = next((i for i in range(len(x)) if un[i].num), None)
    if k is None:
        raise Unsupported('polyfit with equal abscissae')
    if deg >= 1:
        q = [X.nf_ratio(wn[i], un[i]) for i in range(len(x))
             if un[i].num]
        same = [i for i in range(len(x)) if not un[i].num and wn[i].num]
        if not same and all(v is not None and abs(v - q[0]) <= abs(q[0])
                            * Fraction(1, 10 ** 12) for v in q):
            s = S(X.C(q[0]))
            return arr([Y0 - s * X0, s] + [0.] * (deg - 1))
    size = max(len(v.num) for v in un + wn)
    if deg >= 1 and size <= 12:
        prod = [X.nf_sub(X.nf_mul(wn[i], un[k]), X.nf_mul(wn[k], un[i]))
                for i in range(len(x))]
        if all(not d.num for d in prod):
            s = w[k] / u[k]
            return arr([Y0 - s * X0, s] + [0.] * (deg - 1))
    if size <= 4 and deg <= 2:
        n = deg + 1
        m = [sum((v ** p for v in u[1:]), 0.) for p in range(1, 2 * n - 1)]
        m = [float(len(x))] + m
        t = [sum((w[i] * u[i] ** p for i in range(1, len(x))), 0.)
             for p in range(n)]

        def det(r):
            if len(r) == 1:
                return r[0][0]
            if len(r) == 2:
                return r[0][0] * r[1][1] - r[0][1] * r[1][0]
            return sum((-1.) ** j * r[0][j] * det(
                [q[:j] + q[j + 1:] for q in r[1:]]) for j in range(len(r)))
        M = [[m[i + j] for j in range(n)] for i in range(n)]
        D = det(M)
        c = [det([[t[i] if j == q else M[i][j] for j in range(n)]
                  for i in range(n)]) / D for q in range(n)]
        # back to the original origin
        if deg == 0:
            return arr([c[0] + Y0])
        if deg == 1:
            return arr([Y0 + c[0] - c[1] * X0, c[1]])
        return arr([Y0 + c[0] - c[1] * X0 + c[2] * X0 * X0,
                    c[1] - 2. * c[2] * X0, c[2]])
    env = CUR.env
    env.fresh += 1
    xn, yn = [lift(v) for v in x], [lift(v) for v in y]

    def defn(i):
        def f(val):
            memo = {}
            a = [X.evalf(v, val, memo) for v in xn]
            b = [X.evalf(v, val, memo) for v in yn]
            if any(v != v for v in a + b):
                return float('nan')
            return float(np.polynomial.polynomial.polyfit(a, b, deg)[i])
        return f
    return arr([env.derived('fit#%d_%d' % (env.fresh, i), defn(i))
                for i in range(deg + 1)])


def roots_contract(env, coefs):
    """real roots, ascending, of a polynomial with symbolic coefficients
    (complex roots are left out)."""
    c = list(coefs)
    while len(c) > 1 and not isinstance(c[-1], S) and c[-1] == 0:
        c.pop()
    d = len(c) - 1
    if d == 0:
        return arr([])
    if d == 1 and not env.opts.get('root_opaque'):
        opt = env.opts.get('root_sign')
        if opt:
            env.fresh += 1
            sg = opt[env._decide('rootsign:%d' % env.fresh, len(opt))] \
                if len(opt) > 1 else opt[0]
            env.sign_fact(c[1], sg > 0)
        return arr([-c[0] / c[1]])
    nodes = [lift(v) for v in c]
    nfs = [X.to_nf(v) for v in nodes]
    store = env.out.setdefault('roots', [])
    for B, r in store:
        if len(B) == len(nfs) and all(
                not X.nf_sub(a, b).num for a, b in zip(nfs, B)):
            return r.copy()
    allowed = env.opts.get('nroots') or list(range(d, -1, -2))
    env.fresh += 1
    tag = 'root#%d' % env.fresh
    n = allowed[env._decide('nroots:' + tag, len(allowed))] \
        if len(allowed) > 1 else allowed[0]

    def defn(i):
        def f(val):
            memo = {}
            v = [X.evalf(q, val, memo) for q in nodes]
            if any(q != q for q in v):
                return float('nan')
            z = np.polynomial.polynomial.Polynomial(v).roots()
            z = np.sort(z[z.imag == 0].real)
            return float(z[i]) if len(z) == n else float('nan')
        return f
    r = [env.derived('%s_%d' % (tag, i), defn(i)) for i in range(n)]
    for i, v in enumerate(r):
        e = polyval_asc(v, arr(c)) == 0.
        if isinstance(e, SB):
            env.define(e)
        if i:
            env.define(r[i - 1] < v)
    # simple roots: the slope alternates, the last one has the sign of the
    # leading coefficient
    if n:
        opt = env.opts.get('root_sign') or [1, -1]
        sg = opt[env._decide('rootsign:' + tag, len(opt))] \
            if len(opt) > 1 else opt[0]
        env.sign_fact(c[-1], sg > 0)
        for v in r[::-1]:
            env.sign_fact(polyval_asc(v, polyder_asc(arr(c))), sg > 0)
            sg = -sg
    out = arr(r)
    store.append((nfs, out))
    return out.copy()


class Poly(object):
    """numpy.polynomial.polynomial.Polynomial stand-in."""

    def __init__(self, c, *a):
        self.coef = NP.asarray(c)

    def __call__(self, x):
        return polyval_asc(x, self.coef)

    def deriv(self, m=1):
        c = list(self.coef)
        for _ in range(m):
            c = [k * v for k, v in enumerate(c)][1:] or [0.]
        return Poly(c)

    def integ(self, m=1, k=0):
        c = list(self.coef)
        return Poly([k] + [v / (i + 1.) for i, v in enumerate(c)])

    def roots(self):
        if not has_sym(self.coef):
            r = np.polynomial.polynomial.Polynomial(
                np.asarray(self.coef).astype(float)).roots()
            return r
        f = CUR.env.opts.get('roots')
        if f is None:
            return roots_contract(CUR.env, list(self.coef))
        return f(CUR.env, list(self.coef))

    def _co(self, o):
        if isinstance(o, Poly):
            return list(o.coef)
        return [o]

    def __add__(self, o):
        a, b = list(self.coef), self._co(o)
        n = max(len(a), len(b))
        a += [0.] * (n - len(a))
        b += [0.] * (n - len(b))
        return Poly([u + v for u, v in zip(a, b)])

    __radd__ = __add__
    __iadd__ = __add__

    def __neg__(self):
        return Poly([-u for u in self.coef])

    def __sub__(self, o):
        return self + (-o if isinstance(o, Poly) else -o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if isinstance(o, Poly):
            out = [0.] * (len(self.coef) + len(o.coef) - 1)
            for i, u in enumerate(self.coef):
                for j, v in enumerate(o.coef):
                    out[i + j] = out[i + j] + u * v
            return Poly(out)
        return Poly([u * o for u in self.coef])

    __rmul__ = __mul__

    def degree(self):
        return len(self.coef) - 1


def polyval_asc(x, c, tensor=True):
    """numpy.polynomial.polynomial.polyval (ascending)."""
    c = np.asarray(c)
    if c.ndim == 2:
        x = np.asarray(x)
        if tensor:
            c = c.reshape(c.shape + (1,) * x.ndim)
    if isinstance(x, np.ndarray):
        x = arr(x)
    if c.dtype == object:
        c = c.view(SArr)
    r = c[-1] + (np.asarray(x) * 0 if isinstance(x, np.ndarray) else 0)
    for k in range(len(c) - 2, -1, -1):
        r = r * x + c[k]
    return r.view(SArr) if isinstance(r, np.ndarray) else r


def polyder_asc(c, m=1):
    c = np.asarray(c)
    for _ in range(m):
        if len(c) == 1:
            return (c * 0).view(SArr)
        c = np.array([k * c[k] for k in range(1, len(c))], dtype=object)
    return c.view(SArr)


class PolyMod(object):
    polyfit = staticmethod(polyfit_asc)
    polyval = staticmethod(polyval_asc)
    polyder = staticmethod(polyder_asc)
    Polynomial = Poly

    @staticmethod
    def polyroots(c):
        return Poly(c).roots()

    def __getattr__(self, n):
        return getattr(np.polynomial.polynomial, n)


class PolyPkg(object):
    polynomial = PolyMod()
    Polynomial = Poly

    def __getattr__(self, n):
        return getattr(np.polynomial, n)


def _minmax(a, axis, cmp):
    a = np.asarray(a)
    if axis is not None and a.ndim > 1:
        return np.apply_along_axis(lambda v: _minmax(v, None, cmp), axis,
                                   a).view(SArr)
    it = list(a.flat)
    if not it:
        raise ValueError('zero-size array to reduction operation')
    r = it[0]
    for v in it[1:]:
        if bool(cmp(v, r)):
            r = v
    return r


def _argm(a, axis, cmp):
    a = np.asarray(a)
    if axis is not None and a.ndim > 1:
        return np.apply_along_axis(lambda v: _argm(v, None, cmp), axis,
                                   a).astype(int)
    it = list(a.flat)
    k = 0
    for i in range(1, len(it)):
        if bool(cmp(it[i], it[k])):
            k = i
    return k


class UFunc(object):
    """a ufunc of arithmetic on symbolic arrays."""

    def __init__(self, call, f):
        self.call, self.f = call, f
        self.__name__ = f.__name__

    def __call__(self, *a, out=None, where=True, dtype=None,
                 casting=None, **k):
        if len(a) == self.f.nin + 1 and out is None:
            a, out = a[:-1], a[-1]
        if isinstance(out, tuple):
            out, = out
        if where is True:
            r = self.call(*a, **k)
            if out is None:
                return r
            out[...] = r
            return out
        # only the selected elements are evaluated
        m, *xs = np.broadcast_arrays(np.asarray(where), *[
            np.asarray(NP.asarray(x)) for x in a])
        if out is None:
            out = filled(m.shape, math.nan)
        if out.shape != m.shape:
            raise Unsupported('ufunc with out and where')
        for i in np.ndindex(m.shape):
            if bool(m[i]):
                out[i] = self.call(*[x[i] for x in xs], **k)
        return out

    def reduce(self, a, axis=0, dtype=None, **k):
        a = np.asarray(NP.asarray(a))
        if not has_sym(a) and a.dtype == object:
            a = np.asarray(defl(a))
        return relift(self.f.reduce(a, axis=axis, **k))

    def accumulate(self, a, axis=0, dtype=None):
        return relift(self.f.accumulate(np.asarray(NP.asarray(a)),
                                        axis=axis))

    def outer(self, a, b, **k):
        if k:
            raise Unsupported('ufunc.outer')
        return relift(self.f.outer(np.asarray(NP.asarray(a)),
                                   np.asarray(NP.asarray(b))))

    def __getattr__(self, n):
        raise Unsupported('ufunc.' + n)


class Numpy(object):
    """the ``np`` seen by symbolically executed code."""
    linalg = LinAlg()
    polynomial = PolyPkg()
    ndarray = SArr
    pi = math.pi
    e = math.e
    nan = math.nan
    inf = math.inf
    newaxis = None
    generic = np.generic
    testing = np.testing

    class float64(object):
        _vx_float = True

        def __new__(cls, x=0.):
            if isinstance(x, (list, tuple)):
                return cast(np.asarray(arr(x)), float)
            if x is None:
                return math.nan
            return tofloat(x) if not isinstance(x, np.ndarray) else \
                cast(x, float)

    float_ = double = float32 = float64

    def __getattr__(self, n):
        if n in ('int', 'float', 'bool', 'object', 'str', 'complex'):
            raise AttributeError("module 'numpy' has no attribute %r" % n)
        r = getattr(np, n)
        if callable(r) and not isinstance(r, type):
            def g(*a, **k):
                if k.get('dtype') is not None and is_floatlike(k['dtype']):
                    k.pop('dtype')
                a = tuple(arr(x) if isinstance(x, (list,)) and has_sym(x)
                          else x for x in a)
                if not has_sym(a) and not has_sym(k):
                    a = tuple(defl(x) for x in a)
                o = r(*a, **k)
                return relift(o)
            return UFunc(g, r) if isinstance(r, np.ufunc) else g
        return r

    # creation
    def array(self, x, dtype=None, copy=True, **k):
        return arr(x, dtype, copy)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SArr) and (dtype is None or is_floatlike(dtype)):
            return x
        if isinstance(x, (S, SB)):
            out = np.empty((), dtype=object)
            out[()] = x
            return out.view(SArr)
        return arr(x, dtype, False)

    ascontiguousarray = asanyarray = asfarray = asarray

    def copy(self, a, **k):
        return arr(a)

    def zeros(self, shape, dtype=None, **k):
        return filled(shape, 0.) if is_floatlike(dtype) else \
            np.zeros(shape, real_dtype(dtype))

    empty = zeros

    def ones(self, shape, dtype=None, **k):
        return filled(shape, 1.) if is_floatlike(dtype) else \
            np.ones(shape, real_dtype(dtype))

    def full(self, shape, v, dtype=None, **k):
        return filled(shape, v)

    def zeros_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        if a.dtype.kind in 'bi' and dtype is None:
            return np.zeros_like(a)
        return self.zeros(a.shape, dtype)

    empty_like = zeros_like

    def ones_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        if a.dtype.kind in 'bi' and dtype is None:
            return np.ones_like(a)
        return self.ones(a.shape, dtype)

    def full_like(self, a, v, **k):
        return filled(np.shape(a), v)

    def eye(self, n, m=None, *a, **k):
        return cast(np.eye(n, m), float)

    def identity(self, n, *a, **k):
        return cast(np.eye(n), float)

    def diag(self, a, k=0):
        return np.diag(np.asarray(a), k).view(SArr)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        num = int(num)
        if not has_sym((a, b)):
            return cast(np.linspace(float(a), float(b), num, endpoint),
                        float)
        d = (num - 1) if endpoint else num
        return arr([a + (b - a) * (i / d) for i in range(num)])

    def arange(self, *a, **k):
        if has_sym(a):
            return CUR.env.loader.arange(*a)
        a = [x if isinstance(x, (int, np.integer)) else float(x) for x in a]
        dt = k.get('dtype')
        r = np.arange(*a)
        if dt is not None and is_floatlike(dt) or r.dtype.kind == 'f':
            return cast(r, float)
        return r

    # math
    def _mk(name):
        f = SCALAR[name]

        def g(self, x, out=None, **k):
            if isinstance(x, (list, tuple)):
                x = arr(x)
            r = _el(f, x)
            if out is not None:
                out[...] = r
                return out
            return r
        return g
    exp = _mk('exp')
    log = _mk('log')
    sqrt = _mk('sqrt')
    sin = _mk('sin')
    cos = _mk('cos')
    tan = _mk('tan')
    arcsin = _mk('arcsin')
    arccos = _mk('arccos')
    arctan = _mk('arctan')
    sinh = _mk('sinh')
    cosh = _mk('cosh')
    tanh = _mk('tanh')
    log10 = _mk('log10')
    cbrt = _mk('cbrt')
    del _mk

    def power(self, a, b, **k):
        return _el(pow_, a, b)

    def expm1(self, x):
        return self.exp(x) - 1.

    def log1p(self, x):
        return self.log(1. + x)

    def square(self, a):
        return _el(lambda x: x * x, a)

    def reciprocal(self, a):
        return _el(lambda x: div_(1., x), a)

    def arctan2(self, a, b):
        return _el(atan2_, a, b)

    def hypot(self, a, b):
        return _el(hypot_, a, b)

    def abs(self, x, **k):
        return _el(abs, x)

    absolute = fabs = abs

    def sign(self, x):
        return _el(lambda v: (1. if bool(v > 0) else
                              -1. if bool(v < 0) else 0.), x)

    def deg2rad(self, x):
        return _el(lambda v: v * (math.pi / 180.), x)

    radians = deg2rad

    def rad2deg(self, x):
        return _el(lambda v: v * (180. / math.pi), x)

    degrees = rad2deg

    def add(self, a, b, **k):
        return _el(lambda x, y: x + y, a, b)

    def subtract(self, a, b, **k):
        return _el(lambda x, y: x - y, a, b)

    def multiply(self, a, b, **k):
        return _el(lambda x, y: x * y, a, b)

    def divide(self, a, b, **k):
        return _el(div_, a, b)

    true_divide = divide

    def negative(self, a):
        return _el(lambda x: -x, a)

    def mod(self, a, b):
        return _el(lambda x, y: x % y, a, b)

    def floor(self, a):
        return _el(lambda x: CUR.env.floor_of(x) if isinstance(x, S)
                   else float(np.floor(x)), a)

    def ceil(self, a):
        return _el(lambda x: -CUR.env.floor_of(-x) if isinstance(x, S)
                   else float(np.ceil(x)), a)

    def round(self, a, n=0, **k):
        return _el(lambda x: round(x, n) if isinstance(x, S)
                   else float(np.round(x, n)), a)

    around = round_ = round

    def rint(self, a):
        return self.round(a)

    def dot(self, a, b, **k):
        r = np.dot(np.asarray(a), np.asarray(b))
        return r.view(SArr) if isinstance(r, np.ndarray) and \
            r.dtype == object else r

    def matmul(self, a, b):
        r = np.matmul(np.asarray(a), np.asarray(b))
        return r.view(SArr) if isinstance(r, np.ndarray) else r

    def einsum(self, spec, *ops, **k):
        k.pop('optimize', None)
        ops = [np.asarray(o, dtype=object) for o in ops]
        r = np.einsum(spec, *ops, optimize=len(ops) > 2)
        if isinstance(r, np.ndarray) and r.ndim == 0:
            return r.item()
        return r.view(SArr) if isinstance(r, np.ndarray) else r

    def inner(self, a, b):
        return np.inner(np.asarray(a), np.asarray(b))

    def cross(self, a, b, axis=-1, **k):
        a, b = np.asarray(self.asarray(a)), np.asarray(self.asarray(b))
        if a.ndim > 1 or b.ndim > 1:
            if k or axis != -1:
                raise Unsupported('cross')
            a, b = np.broadcast_arrays(a, b)
            return _restack([self.cross(x, y) for x, y in zip(
                a.reshape(-1, 3), b.reshape(-1, 3))], a.shape[:-1])
        return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                    a[0] * b[1] - a[1] * b[0]])

    def tensordot(self, a, b, axes=2):
        r = np.tensordot(np.asarray(a), np.asarray(b), axes)
        return r.view(SArr) if isinstance(r, np.ndarray) and r.ndim else \
            (r.item() if isinstance(r, np.ndarray) else r)

    def sum(self, a, axis=None, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        a = self.asarray(a)
        r = np.sum(np.asarray(a), axis=axis,
                   keepdims=bool(k.get('keepdims')))
        return relift(r)

    def mean(self, a, axis=None, **k):
        a = np.asarray(self.asarray(a))
        n = a.size if axis is None else a.shape[axis]
        return relift(np.sum(a, axis=axis,
                             keepdims=bool(k.get('keepdims'))) / n)

    def average(self, a, axis=None, weights=None, **k):
        if k:
            raise Unsupported('average')
        if weights is None:
            return self.mean(a, axis)
        a = np.asarray(self.asarray(a))
        w = np.asarray(self.asarray(weights))
        if w.shape != a.shape:
            if axis is None or w.ndim != 1:
                raise Unsupported('average')
            w = w.reshape([-1 if i == axis % a.ndim else 1
                           for i in range(a.ndim)])
        return relift(np.sum(a * w, axis=axis) / np.sum(
            w, axis=axis if w.ndim > 1 else None))

    def fromiter(self, it, dtype=None, count=-1, **k):
        return arr([x for _, x in zip(range(count), it)] if count >= 0
                   else list(it), dtype)

    def std(self, a, axis=None, **k):
        m = self.var(a, axis)
        return self.sqrt(m)

    def var(self, a, axis=None, **k):
        a = self.asarray(a)
        m = self.mean(a, axis)
        return self.mean((a - m) ** 2, axis)

    def prod(self, a, axis=None, **k):
        return relift(np.prod(np.asarray(self.asarray(a)), axis=axis))

    def min(self, a, axis=None, **k):
        return _minmax(a, axis, lambda x, y: x < y)

    def max(self, a, axis=None, **k):
        return _minmax(a, axis, lambda x, y: x > y)

    amin, amax = min, max
    nanmin, nanmax = min, max

    def argmin(self, a, axis=None, **k):
        return _argm(a, axis, lambda x, y: x < y)

    def argmax(self, a, axis=None, **k):
        return _argm(a, axis, lambda x, y: x > y)

    def minimum(self, a, b):
        return _el(lambda x, y: x if bool(x <= y) else y, a, b)

    def maximum(self, a, b):
        return _el(lambda x, y: x if bool(x >= y) else y, a, b)

    fmin, fmax = minimum, maximum

    def ptp(self, a, axis=None, **k):
        return self.max(a, axis) - self.min(a, axis)

    def clip(self, a, lo, hi, **k):
        return self.minimum(self.maximum(a, lo), hi)

    def sort(self, a, axis=-1, **k):
        a = np.asarray(a)
        if a.ndim > 1:
            return np.apply_along_axis(self.sort, axis, a).view(SArr)
        return arr(sorted(list(a)))

    def argsort(self, a, axis=-1, **k):
        a = list(np.asarray(a))
        import functools

        def c(i, j):
            if bool(a[i] < a[j]):
                return -1
            return 1 if bool(a[j] < a[i]) else 0
        return np.array(sorted(range(len(a)), key=functools.cmp_to_key(c)),
                        dtype=int)

    # logic
    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if not has_sym((a, b)):
            return np.isclose(np.asarray(a, dtype=float),
                              np.asarray(b, dtype=float), rtol, atol)

        def f(x, y):
            if not isinstance(x, S) and not isinstance(y, S):
                return bool(np.isclose(x, y, rtol, atol))
            # |x-y| <= atol + rtol*|y|, without abs nodes
            d = x - y
            if isinstance(y, S):
                t1, t2 = atol + rtol * y, atol - rtol * y
                # |d| <= max(t1, t2)
                return or_([and_([d <= t1, -d <= t1]),
                            and_([d <= t2, -d <= t2])])
            t = atol + rtol * abs(y)
            return and_([d <= t, -d <= t])
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            return f(a, b)
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i], b[i])
        return out.view(BArr)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        r = self.isclose(a, b, rtol, atol)
        return r.all() if isinstance(r, (np.ndarray, SB)) else r

    def array_equal(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return and_([x == y for x, y in zip(a.flat, b.flat)])

    def any(self, a, axis=None, **k):
        return self._anyall(a, axis, or_)

    def all(self, a, axis=None, **k):
        return self._anyall(a, axis, and_)

    def _anyall(self, a, axis, f):
        if isinstance(a, SB):
            return a
        a = np.asarray(a)
        if a.dtype != object:
            return np.any(a, axis) if f is or_ else np.all(a, axis)

        def t(x):
            if isinstance(x, S):
                return x != 0
            return x if isinstance(x, SB) else bool(x)
        if axis is None:
            return f([t(x) for x in a.flat])
        return np.apply_along_axis(lambda v: f([t(x) for x in v]), axis,
                                   a).view(BArr)

    def logical_and(self, a, b):
        return _bmap(lambda x, y: and_([x, y]), a, b)

    def logical_or(self, a, b):
        return _bmap(lambda x, y: or_([x, y]), a, b)

    def logical_not(self, a):
        return _bmap1(not_, a) if isinstance(a, np.ndarray) else not_(a)

    def isnan(self, a):
        def f(x):
            if isinstance(x, S):
                return x.n is X.NAN
            return x != x
        if isinstance(a, np.ndarray):
            return forced(_bmap1(f, a))
        return f(a)

    def isfinite(self, a):
        def f(x):
            if isinstance(x, S):
                return x.n is not X.NAN
            return math.isfinite(x)
        if isinstance(a, np.ndarray):
            return forced(_bmap1(f, a))
        return f(a)

    def isreal(self, a):
        f = lambda x: True if isinstance(x, S) else np.isreal(x)
        if isinstance(a, np.ndarray):
            return forced(_bmap1(f, a))
        return f(a)

    def iscomplex(self, a):
        f = lambda x: False if isinstance(x, S) else np.iscomplex(x)
        if isinstance(a, np.ndarray):
            return forced(_bmap1(f, a))
        return f(a)

    def real(self, a):
        return _el(lambda x: x.real, a)

    def imag(self, a):
        return _el(lambda x: x.imag if not isinstance(x, S) else 0., a)

    def where(self, c, *ab):
        if isinstance(c, SB):
            c = bool(c)
        if isinstance(c, BArr):
            c = forced(c)
        if not ab:
            return np.where(c)
        if np.ndim(c) == 0:
            return ab[0] if c else ab[1]
        c, a, b = np.broadcast_arrays(np.asarray(c), np.asarray(ab[0]),
                                      np.asarray(ab[1]))
        out = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            out[i] = a[i] if c[i] else b[i]
        return out.view(SArr)

    def nonzero(self, a):
        return np.nonzero(forced(_bmap1(lambda x: x != 0, a)))

    def isin(self, a, b, **k):
        if has_sym((a, b)):
            raise Unsupported('isin')
        return np.isin(defl(a), defl(b), **k)

    def polyfit(self, x, y, deg, **k):
        c = polyfit_asc(x, y, deg)
        return c[::-1]

    def polyval(self, p, x):
        return polyval_asc(x, np.asarray(p)[::-1])

    def polyder(self, p, m=1):
        return polyder_asc(np.asarray(p)[::-1], m)[::-1]

    def poly1d(self, c):
        raise Unsupported('poly1d')

    def roots(self, p):
        return Poly(np.asarray(p)[::-1]).roots()

    def gradient(self, f, *varargs, **k):
        f = np.asarray(f)
        if f.ndim != 1:
            raise Unsupported('gradient of nd array')
        n = len(f)
        h = [varargs[0]] if varargs else [1.]
        h = h[0]
        out = [0.] * n
        if isinstance(h, np.ndarray):
            x = h
            for i in range(1, n - 1):
                a, b = x[i] - x[i - 1], x[i + 1] - x[i]
                out[i] = (-(b) / (a * (a + b)) * f[i - 1]
                          + (b - a) / (a * b) * f[i]
                          + a / (b * (a + b)) * f[i + 1])
            out[0] = (f[1] - f[0]) / (x[1] - x[0])
            out[-1] = (f[-1] - f[-2]) / (x[-1] - x[-2])
            if k.get('edge_order') == 2:
                raise Unsupported('edge_order')
            return arr(out)
        for i in range(1, n - 1):
            out[i] = (f[i + 1] - f[i - 1]) / (2. * h)
        if k.get('edge_order') == 2:
            out[0] = (-1.5 * f[0] + 2 * f[1] - .5 * f[2]) / h
            out[-1] = (1.5 * f[-1] - 2 * f[-2] + .5 * f[-3]) / h
        else:
            out[0] = (f[1] - f[0]) / h
            out[-1] = (f[-1] - f[-2]) / h
        return arr(out)

    def diff(self, a, n=1, axis=-1):
        return np.diff(np.asarray(a), n, axis).view(SArr)

    def cumsum(self, a, axis=None, **k):
        return np.cumsum(np.asarray(a), axis).view(SArr)

    def trapz(self, y, x=None, dx=1.0):
        y = np.asarray(y)
        if x is None:
            return sum((y[i] + y[i + 1]) * dx / 2. for i in range(len(y) - 1))
        return sum((y[i] + y[i + 1]) * (x[i + 1] - x[i]) / 2.
                   for i in range(len(y) - 1))

    def triu(self, a, k=0):
        a = np.asarray(a)
        out = a.copy()
        for i in np.ndindex(*a.shape):
            if i[1] - i[0] < k:
                out[i] = 0.
        return out.view(SArr)

    def tril(self, a, k=0):
        a = np.asarray(a)
        out = a.copy()
        for i in np.ndindex(*a.shape):
            if i[1] - i[0] > k:
                out[i] = 0.
        return out.view(SArr)

    def trace(self, a):
        a = np.asarray(a)
        return sum(a[i, i] for i in range(min(a.shape)))

    def vectorize(self, f, **k):
        return lambda *a: _el(f, *a)

    def fromstring(self, s, dtype=None, sep=' ', **k):
        toks = s.split() if sep.strip() == '' else s.split(sep)
        return cast(np.array([t.strip() for t in toks if t.strip()],
                             dtype=object), dtype or float)

    def loadtxt(self, f, *a, **k):
        raise Unsupported('loadtxt')

    genfromtxt = loadtxt

    def savetxt(self, *a, **k):
        raise Unsupported('savetxt')

    def errstate(self, **k):
        return np.errstate(**k)

    def nditer(self, *a, **k):
        raise Unsupported('nditer')

    def float128(self, x):
        return x


def defl(x):
    """object arrays without symbolic entries -> native arrays."""
    if isinstance(x, SArr) and x.dtype == object and not has_sym(x):
        try:
            return np.asarray(x).astype(float)
        except (TypeError, ValueError):
            return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return type(x)(defl(y) for y in x) if not hasattr(x, '_fields') \
            else x
    return x


def relift(o):
    if isinstance(o, tuple):
        return tuple(relift(x) for x in o)
    if isinstance(o, list):
        return [relift(x) for x in o]
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            if o.ndim == 0:
                return o.item()
            return o.view(SArr) if not isinstance(o, SArr) else o
        if o.dtype.kind == 'f':
            return cast(o, float)
        return o
    if isinstance(o, np.floating):
        return float(o)
    return o


NP = Numpy()
for _n in dir(Numpy):
    if isinstance(getattr(np, _n, None), np.ufunc):
        setattr(NP, _n, UFunc(getattr(NP, _n), getattr(np, _n)))


class MathShim(object):
    def __getattr__(self, n):
        r = getattr(math, n)
        alias = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan'}
        key = alias.get(n, n)
        if key in SCALAR:
            f = SCALAR[key]

            def g(x):
                if isinstance(x, np.ndarray) and x.size == 1:
                    x = x.item()
                if isinstance(x, S):
                    return f(x)
                return r(x)
            return g
        if n == 'atan2':
            return atan2_
        if n == 'pow':
            return pow_
        if n == 'fabs':
            return abs
        if n == 'fsum':
            return sum
        if n == 'prod':
            def prod(x, *, start=1):
                for y in x:
                    start = start * y
                return start
            return prod
        if n == 'sumprod':
            return lambda p, q: sum(x * y for x, y in zip(p, q, strict=True))
        if n == 'dist':
            return lambda p, q: SCALAR['sqrt'](sum(
                (x - y) * (x - y) for x, y in zip(p, q, strict=True)))
        if n == 'hypot':
            return hypot_
        if n == 'isnan':
            return NP.isnan
        if n == 'floor':
            return lambda x: CUR.env.floor_int(x) if isinstance(x, S) \
                else math.floor(x)
        if n == 'ceil':
            return lambda x: -CUR.env.floor_int(-x) if isinstance(x, S) \
                else math.ceil(x)
        if n == 'isclose':
            def isc(a, b, rel_tol=1e-9, abs_tol=0.):
                if has_sym((a, b)):
                    raise Unsupported('math.isclose')
                return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
            return isc
        return r


MATH = MathShim()
