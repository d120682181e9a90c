# -*- coding: utf-8 -*-
"""Symbolic scalars that flow through the real code (operator overloading)."""
import math
import operator
from fractions import Fraction

import numpy as np

from . import expr as X
from .expr import Node, C, Unsupported


class PathAbort(BaseException):
    """The current path is infeasible / must be abandoned."""


class _Cur(object):
    env = None


CUR = _Cur()


def lift(x):
    """anything numeric -> Node (or None)."""
    if isinstance(x, S):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, SB):
        return lift(1 if bool(x) else 0)
    if isinstance(x, (bool, np.bool_)):
        return C(int(x))
    if isinstance(x, (int, float, Fraction)):
        if isinstance(x, float) and x != x:
            return X.NAN
        return C(x)
    if isinstance(x, np.generic):
        if isinstance(x, np.complexfloating):
            if x.imag == 0:
                return lift(float(x.real))
            return None
        if isinstance(x, np.number):
            return lift(x.item())
        return None
    if isinstance(x, complex):
        if x.imag == 0:
            return lift(x.real)
        return None
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def wrap(n):
    if n.op == 'c':
        v = n.args[0]
        return S(n)
    return S(n)


def unconst(s):
    """S holding a constant -> python float."""
    if isinstance(s, S) and s.n.op == 'c':
        return float(s.n.args[0])
    return s


class S(object):
    """A symbolic real."""
    __slots__ = ('n',)
    __array_priority__ = 1000.
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, n):
        self.n = n

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        m = lift(o)
        if m is None:
            return NotImplemented
        a, b = (m, self.n) if swap else (self.n, m)
        return S(f(a, b))

    def __add__(self, o):
        return self._bin(o, X.add)

    def __radd__(self, o):
        return self._bin(o, X.add, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: X.add(a, X.neg(b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: X.add(a, X.neg(b)), True)

    def __mul__(self, o):
        return self._bin(o, X.mul)

    def __rmul__(self, o):
        return self._bin(o, X.mul, True)

    def __truediv__(self, o):
        return self._bin(o, divide)

    def __rtruediv__(self, o):
        return self._bin(o, divide, True)

    def __pow__(self, o, mod=None):
        return self._bin(o, power)

    def __rpow__(self, o):
        return self._bin(o, power, True)

    def __neg__(self):
        return S(X.neg(self.n))

    def __pos__(self):
        return self

    def __floordiv__(self, o):
        return fdiv(self, o)

    def __rfloordiv__(self, o):
        return fdiv(o, self)

    def __mod__(self, o):
        return self - o * fdiv(self, o)

    def __abs__(self):
        return sabs(self)

    # -- comparisons
    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise TypeError('comparison of number and %r' % type(o))
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            big = o > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big,
                    '==': False, '!=': True}[op]
        m = lift(o)
        if m is None:
            return NotImplemented
        return cmp_(self.n, m, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return hash(('S', self.n.id))

    def __bool__(self):
        r = cmp_(self.n, X.ZERO, '!=')
        return bool(r)

    # -- concretisation
    def __float__(self):
        if self.n.op == 'c':
            return float(self.n.args[0])
        raise Unsupported('float() of a symbolic value: ' + X.show(self.n, 3))

    def __int__(self):
        if self.n.op == 'c':
            return int(self.n.args[0])
        return CUR.env.int_of(self)

    __index__ = None

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        return CUR.env.floor_of(self)

    def __ceil__(self):
        return -CUR.env.floor_of(-self)

    def __round__(self, nd=None):
        return CUR.env.round_of(self, nd)

    def __complex__(self):
        return complex(float(self))

    # -- numpy-scalar-like helpers
    def exp(self):
        return S(X.fn('exp', self.n))

    def log(self):
        return S(X.fn('log', self.n))

    def log10(self):
        return S(X.mul(X.fn('log', self.n),
                       X.inv(X.fn('log', C(10)))))

    def sqrt(self):
        return S(X.powr(self.n, Fraction(1, 2)))

    def cbrt(self):
        return S(X.powr(self.n, Fraction(1, 3)))

    def sin(self):
        return S(X.fn('sin', self.n))

    def cos(self):
        return S(X.fn('cos', self.n))

    def tan(self):
        return self.sin() / self.cos()

    def sinh(self):
        e = self.exp()
        return (e - 1 / e) / 2

    def cosh(self):
        e = self.exp()
        return (e + 1 / e) / 2

    def tanh(self):
        e = self.exp()
        return (e - 1 / e) / (e + 1 / e)

    def arcsin(self):
        return S(X.fn('asin', self.n))

    def arccos(self):
        return S(X.fn('acos', self.n))

    def arctan(self):
        return S(X.fn('atan2', self.n, X.ONE))

    def arctan2(self, o):
        return S(X.fn('atan2', self.n, lift(o)))

    def square(self):
        return self * self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S(X.ZERO)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t, **k):
        return self

    def tolist(self):
        return self

    def is_integer(self):
        return False

    # -- text
    def __format__(self, spec):
        return CUR.env.format_token(self, spec)

    def __str__(self):
        return CUR.env.format_token(self, '')

    def __repr__(self):
        return '<S %s>' % X.show(self.n, 3)


def divide(a, b):
    if b is X.ZERO:
        if CUR.env is not None and not CUR.env.numpy_div:
            raise ZeroDivisionError('float division by zero')
        return X.NAN
    if b.op == 'c' and b.args[0] == 0:
        return X.NAN
    env = CUR.env
    if env is not None and env.div_fork and b.op != 'c':
        z = cmp_(b, X.ZERO, '==')
        if z is True or (isinstance(z, SB) and bool(z)):
            return X.NAN
    if env is not None:
        env.divisors.append(b)
    return X.mul(a, X.inv(b))


def power(a, b):
    if b.op == 'c':
        e = b.args[0]
        if not isinstance(e, int) and e.denominator > 64:
            raise Unsupported('exponent %s' % e)
        return X.powr(a, e)
    # a**b = exp(b*log a), a > 0
    return X.fn('exp', X.mul(b, X.fn('log', a)))


def fdiv(a, b):
    return CUR.env.floor_of(S(lift(a)) / b)


def sabs(x):
    n = x.n
    if n.op == 'c':
        return S(C(abs(n.args[0])))
    env = CUR.env
    if env is not None and env.abs_fork:
        if bool(x >= 0):
            return x
        return -x
    return S(X.fn('abs', n))


# --------------------------------------------------------------------------
class SB(object):
    """A symbolic truth value."""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __bool__(self):
        return CUR.env.branch(self)

    def __and__(self, o):
        return and_([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return or_([self, o])

    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return id(self)

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        if self.op in CMPS:
            return '(%s %s %s)' % (X.show(self.args[0], 3), self.op,
                                   X.show(self.args[1], 3))
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


CMPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
        '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
NEGOP = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def cmp_(a, b, op):
    if a is X.NAN or b is X.NAN:
        return op == '!='
    if a.op == 'c' and b.op == 'c':
        return CMPS[op](a.args[0], b.args[0])
    if a is b:
        return op in ('<=', '>=', '==')
    return SB(op, a, b)


def and_(xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SB('and', *out)


def or_(xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SB('or', *out)


def not_(x):
    if not isinstance(x, SB):
        return not x
    if x.op in NEGOP:
        return SB(NEGOP[x.op], *x.args)
    if x.op == 'not':
        return x.args[0]
    if x.op == 'and':
        return or_([not_(y) for y in x.args])
    if x.op == 'or':
        return and_([not_(y) for y in x.args])
    return SB('not', x)


def eval_sb(b, val, memo=None, eps=0.0):
    """numeric truth (None if numerically undecidable)."""
    if not isinstance(b, SB):
        return bool(b)
    if memo is None:
        memo = {}
    if b.op in CMPS:
        u = X.evalf(b.args[0], val, memo)
        v = X.evalf(b.args[1], val, memo)
        if u != u or v != v:
            return None
        return CMPS[b.op](u, v)
    if b.op == 'bvar':
        return bool(val[b.args[0]])
    if b.op == 'not':
        r = eval_sb(b.args[0], val, memo)
        return None if r is None else not r
    rs = [eval_sb(x, val, memo) for x in b.args]
    if b.op == 'and':
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    if b.op == 'or':
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    raise Unsupported(b.op)


def sb_nodes(b, out):
    if isinstance(b, SB):
        for a in b.args:
            if isinstance(a, Node):
                out.append(a)
            elif isinstance(a, SB):
                sb_nodes(a, out)
    return out


def sym_fn(name, x):
    """apply math function to S or number."""
    if isinstance(x, S):
        return getattr(x, name)()
    raise TypeError


def has_sym(x):
    if isinstance(x, (S, SB)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(has_sym(y) for y in x.flat)
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False
