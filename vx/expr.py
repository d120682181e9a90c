# -*- coding: utf-8 -*-
"""Symbolic reals: expression DAG, differentiation, numeric evaluation and an
exact normal form (Laurent/Puiseux polynomials over atoms / product of
denominator factors) that is handed to the SMT solver."""
import math
import cmath
from fractions import Fraction
from functools import lru_cache

_PI = math.pi


class Unsupported(Exception):
    """The symbolic engine cannot represent this operation."""


class NaNPoison(Exception):
    pass


# --------------------------------------------------------------------------
# constants
def rat(x):
    """float/int -> exact rational (simple rationals are recognised)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise NaNPoison("non finite constant")
    if x == int(x) and abs(x) < 1e15:
        return int(x)
    fr = Fraction(x).limit_denominator(2000)
    if fr != 0 and abs(float(fr) - x) <= 4e-16 * abs(x):
        return fr
    fr = Fraction(repr(x))
    return fr.numerator if fr.denominator == 1 else fr


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


# --------------------------------------------------------------------------
# DAG nodes (hash-consed tuples)
class Node(object):
    __slots__ = ('op', 'args', 'id', '_nf', '_h', 'vars_')
    _table = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op,) + tuple(a.id if isinstance(a, Node) else ('v', a)
                            for a in args)
        n = cls._table.get(key)
        if n is None:
            n = object.__new__(cls)
            n.op = op
            n.args = args
            cls._n += 1
            n.id = cls._n
            n._nf = None
            n.vars_ = None
            cls._table[key] = n
        return n

    def __repr__(self):
        return show(self)


def show(n, depth=6):
    if n.op == 'c':
        return str(n.args[0])
    if n.op == 'v':
        return n.args[0]
    if depth == 0:
        return '..'
    if n.op in '+*':
        return '(' + (' %s ' % n.op).join(show(a, depth - 1)
                                          for a in n.args) + ')'
    if n.op == 'pow':
        return '%s^(%s)' % (show(n.args[0], depth - 1), n.args[1])
    return '%s(%s)' % (n.op, ', '.join(show(a, depth - 1)
                                       if isinstance(a, Node) else str(a)
                                       for a in n.args))


def C(x):
    return Node('c', rat(x))


ZERO = C(0)
ONE = C(1)
MONE = C(-1)
NAN = Node('nan')


class VarInfo(object):
    def __init__(self, name, pos=False, kind='real', defn=None):
        self.name = name
        self.pos = pos
        self.kind = kind      # real | angle
        self.defn = defn      # callable(valuation)->float for derived vars


VARS = {}


def V(name, pos=False, kind='real', defn=None):
    VARS[name] = VarInfo(name, pos, kind, defn)
    return Node('v', name)


def reset():
    Node._table.clear()
    VARS.clear()
    ATOMS.clear()
    ATOM_INDEX.clear()
    global ZERO, ONE, MONE, NAN
    # keep the canonical constants alive
    for n in (ZERO, ONE, MONE):
        Node._table[('c', ('v', n.args[0]))] = n
        n._nf = None
    Node._table[('nan',)] = NAN
    _FACT.clear()


def add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op == 'c' and b.op == 'c':
        return C(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return Node('+', a, b)


def mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op == 'c' and b.op == 'c':
        return C(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return Node('*', a, b)


def neg(a):
    return mul(MONE, a)


def powr(a, r):
    """a ** r for rational r."""
    r = rat(r)
    if a is NAN:
        return NAN
    if r == 0:
        return ONE
    if r == 1:
        return a
    if a.op == 'c':
        c = a.args[0]
        if isinstance(r, int):
            if c == 0:
                if r > 0:
                    return ZERO
                return NAN
            return C(Fraction(c) ** r)
        if c == 0:
            return ZERO if r > 0 else NAN
        if c == 1:
            return ONE
        if c < 0:
            return NAN
    if a.op == 'pow':
        s = a.args[1]
        if isinstance(r, int) and isinstance(s, int):
            return powr(a.args[0], r * s)
        if isinstance(r, int):       # (x^s)^r, x>=0 necessarily
            return powr(a.args[0], r * s)
        if not isinstance(s, int):
            return powr(a.args[0], rat(Fraction(r) * Fraction(s)))
    return Node('pow', a, r)


def inv(a):
    return powr(a, -1)


def fn(name, *args):
    if any(a is NAN for a in args):
        return NAN
    a = args[0]
    if name == 'exp':
        if a is ZERO:
            return ONE
        if a.op == 'log':
            return a.args[0]
    elif name == 'log':
        if a is ONE:
            return ZERO
        if a.op == 'exp':
            return a.args[0]
        if a.op == 'c' and a.args[0] <= 0:
            return NAN
    elif name == 'sin' and a is ZERO:
        return ZERO
    elif name == 'cos' and a is ZERO:
        return ONE
    return Node(name, *args)


# --------------------------------------------------------------------------
def diff(n, v, memo=None):
    """d n / d v (v: a 'v' node)."""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    op = n.op
    if n is v:
        r = ONE
    elif op in ('c', 'v'):
        r = ZERO
    elif op == '+':
        r = ZERO
        for a in n.args:
            r = add(r, diff(a, v, memo))
    elif op == '*':
        a, b = n.args
        r = add(mul(diff(a, v, memo), b), mul(a, diff(b, v, memo)))
    elif op == 'pow':
        a, e = n.args
        da = diff(a, v, memo)
        if da is ZERO:
            r = ZERO
        else:
            r = mul(mul(C(e), powr(a, rat(Fraction(e) - 1))), da)
    elif op == 'exp':
        r = mul(n, diff(n.args[0], v, memo))
    elif op == 'log':
        r = mul(inv(n.args[0]), diff(n.args[0], v, memo))
    elif op == 'sin':
        r = mul(fn('cos', n.args[0]), diff(n.args[0], v, memo))
    elif op == 'cos':
        r = mul(neg(fn('sin', n.args[0])), diff(n.args[0], v, memo))
    elif op == 'abs':
        a = n.args[0]
        r = mul(mul(n, inv(a)), diff(a, v, memo))
    elif op in ('asin', 'acos', 'atan2', 'atan'):
        d = [diff(a, v, memo) for a in n.args]
        a = n.args[0]
        if all(x is ZERO for x in d):
            r = ZERO
        elif op in ('asin', 'acos'):
            r = mul(d[0], powr(add(ONE, neg(mul(a, a))), Fraction(-1, 2)))
            if op == 'acos':
                r = neg(r)
        elif op == 'atan':
            r = mul(d[0], inv(add(ONE, mul(a, a))))
        else:
            raise Unsupported('diff of ' + op)
    else:
        raise Unsupported('diff of ' + op)
    memo[n.id] = r
    return r


def subst(n, mapping, memo=None):
    """Replace variables (name -> Node)."""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    op = n.op
    if op == 'c' or op == 'nan':
        r = n
    elif op == 'v':
        r = mapping.get(n.args[0], n)
    elif op == '+':
        r = ZERO
        for a in n.args:
            r = add(r, subst(a, mapping, memo))
    elif op == '*':
        r = ONE
        for a in n.args:
            r = mul(r, subst(a, mapping, memo))
    elif op == 'pow':
        r = powr(subst(n.args[0], mapping, memo), n.args[1])
    else:
        r = fn(op, *[subst(a, mapping, memo) for a in n.args])
    memo[n.id] = r
    return r


def variables(n):
    out = set()
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            out.add(x.args[0])
        for a in x.args:
            if isinstance(a, Node):
                st.append(a)
    return out


def evalf(n, val, memo=None):
    """Numeric value (float) of a node under the valuation."""
    if memo is None:
        memo = {}
    # iterative post-order to survive deep sums
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node)
                and a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        op = x.op
        try:
            if op == 'c':
                r = float(x.args[0])
            elif op == 'v':
                r = val.get(x.args[0])
                if r is None:
                    d = VARS[x.args[0]].defn
                    if d is None:
                        raise KeyError(x.args[0])
                    r = d(val)
                r = float(r)
            elif op == '+':
                r = 0.
                for a in x.args:
                    r += memo[a.id]
            elif op == '*':
                r = 1.
                for a in x.args:
                    r *= memo[a.id]
            elif op == 'pow':
                b = memo[x.args[0].id]
                e = x.args[1]
                r = b ** (e if isinstance(e, int) else float(e))
                if isinstance(r, complex):
                    r = math.nan
            elif op == 'exp':
                r = math.exp(memo[x.args[0].id])
            elif op == 'log':
                r = math.log(memo[x.args[0].id])
            elif op == 'sin':
                r = math.sin(memo[x.args[0].id])
            elif op == 'cos':
                r = math.cos(memo[x.args[0].id])
            elif op == 'asin':
                r = math.asin(memo[x.args[0].id])
            elif op == 'acos':
                r = math.acos(memo[x.args[0].id])
            elif op == 'atan2':
                r = math.atan2(memo[x.args[0].id], memo[x.args[1].id])
            elif op == 'abs':
                r = abs(memo[x.args[0].id])
            elif op == 'nan':
                r = math.nan
            else:
                raise Unsupported('eval ' + op)
        except (ZeroDivisionError, ValueError, OverflowError):
            r = math.nan
        memo[x.id] = r
    return memo[n.id]


# --------------------------------------------------------------------------
# normal form
class Atom(object):
    __slots__ = ('id', 'kind', 'key', 'pos', 'name', 'data')


ATOMS = []
ATOM_INDEX = {}


def atom(kind, key, pos=False, data=None):
    k = (kind, key)
    a = ATOM_INDEX.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.key = key
        a.pos = pos
        a.data = data
        a.name = '%s_%d' % (kind, a.id) if kind != 'v' else key
        ATOMS.append(a)
        ATOM_INDEX[k] = a
    return a


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s == 0:
            del d[a]
        else:
            d[a] = _norm(s)
    return tuple(sorted(d.items()))


def m_pow(m, r):
    return tuple((a, _norm(Fraction(e) * r if not (isinstance(e, int) and
                                                  isinstance(r, int))
                           else e * r)) for a, e in m)


MAXTERMS = 400000


def p_add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s == 0:
            del r[m]
        else:
            r[m] = _norm(s)
    return r


def p_scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return {}
    return {m: _norm(v * c) for m, v in p.items()}


def needs_reduce(m):
    for a, e in m:
        k = ATOMS[a].kind
        if k == 'sin':
            if e >= 2:
                return True
        elif k == 'root':
            if e >= 1:
                return True
    return False


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 20 * MAXTERMS:
        raise Unsupported('polynomial too large')
    r = {}
    red = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            s = r.get(m)
            if s is None:
                r[m] = _norm(c1 * c2)
            else:
                s = s + c1 * c2
                if s == 0:
                    del r[m]
                else:
                    r[m] = _norm(s)
    return p_reduce(r)


def p_reduce(p):
    """Apply s^2 -> 1-c^2 and root^1 -> radicand."""
    work = [m for m in p if needs_reduce(m)]
    if not work:
        return p
    out = dict(p)
    while True:
        work = [m for m in out if needs_reduce(m)]
        if not work:
            return out
        for m in work:
            c = out.pop(m, None)
            if c is None:
                continue
            for a, e in m:
                A = ATOMS[a]
                if A.kind == 'sin' and e >= 2:
                    k = int(e) // 2
                    rest = m_mul(m, ((a, -2 * k),))
                    cosid = A.data
                    base = {(): 1, ((cosid, 2),): -1}
                    rep = {(): 1}
                    for _ in range(k):
                        rep = p_mul(rep, base)
                    break
                if A.kind == 'root' and e >= 1:
                    k = int(e)
                    rest = m_mul(m, ((a, -k),))
                    rep = {(): 1}
                    # data: (num poly, den) with empty den only
                    for _ in range(k):
                        rep = p_mul(rep, A.data[0])
                    break
            for m2, c2 in rep.items():
                mm = m_mul(rest, m2)
                s = out.get(mm, 0) + c * c2
                if s == 0:
                    out.pop(mm, None)
                else:
                    out[mm] = _norm(s)


_FACT = {}     # frozenset(poly items) -> poly


def p_key(p):
    k = frozenset(p.items())
    if k not in _FACT:
        _FACT[k] = p
    return k


def p_order(m):
    return m


def content(p):
    """p = c * mono * prim ; prim monic w.r.t. a fixed order, no monomial
    content (sin/root atoms are left inside)."""
    items = list(p.items())
    common = None
    for m, _ in items:
        d = {a: e for a, e in m if ATOMS[a].kind not in ('sin', 'root')}
        if common is None:
            common = d
        else:
            for a in list(common):
                if a in d:
                    if d[a] < common[a]:
                        common[a] = d[a]
                elif common[a] > 0:
                    del common[a]
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
    # atoms with negative exponents that are absent in some monomial
    mono = tuple(sorted((a, e) for a, e in common.items() if e != 0))
    if mono:
        im = m_pow(mono, -1)
        p = {m_mul(m, im): c for m, c in items}
    lead = max(p)
    c = p[lead]
    if c != 1:
        ci = Fraction(1) / Fraction(c)
        p = {m: _norm(v * ci) for m, v in p.items()}
    return _norm(c), mono, p


class NF(object):
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def is_const(self):
        return not self.den and all(m == () for m in self.num)

    def const(self):
        return self.num.get((), 0)


def nf_const(c):
    return NF({(): c} if c != 0 else {})


def nf_add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        return NF(p_add(a.num, b.num), a.den)
    den = dict(a.den)
    for f, e in b.den.items():
        if den.get(f, 0) < e:
            den[f] = e
    na, nb = a.num, b.num
    for f, e in den.items():
        for _ in range(e - a.den.get(f, 0)):
            na = p_mul(na, _FACT[f])
        for _ in range(e - b.den.get(f, 0)):
            nb = p_mul(nb, _FACT[f])
    s = p_add(na, nb)
    return cancel(NF(s, den if s else {}))


def cancel(x):
    if x.den and x.num:
        c, mono, prim = content(x.num)
        k = frozenset(prim.items())
        if k in x.den:
            den = dict(x.den)
            den[k] -= 1
            if den[k] == 0:
                del den[k]
            return NF({mono: c}, den)
    return x


def nf_mul(a, b):
    if not a.num or not b.num:
        return NF({})
    an, bn = a.num, b.num
    ad, bd = a.den, b.den
    if bd and len(an) > 1:
        c, mono, prim = content(an)
        k = frozenset(prim.items())
        if k in bd:
            bd = dict(bd)
            bd[k] -= 1
            if not bd[k]:
                del bd[k]
            an = {mono: c}
    if ad and len(bn) > 1:
        c, mono, prim = content(bn)
        k = frozenset(prim.items())
        if k in ad:
            ad = dict(ad)
            ad[k] -= 1
            if not ad[k]:
                del ad[k]
            bn = {mono: c}
    num = p_mul(an, bn)
    den = dict(ad)
    for f, e in bd.items():
        den[f] = den.get(f, 0) + e
    return cancel(NF(num, den))


def den_poly(den):
    p = {(): 1}
    for f, e in den.items():
        for _ in range(e):
            p = p_mul(p, _FACT[f])
    return p


def nf_inv(a):
    if not a.num:
        raise ZeroDivisionError('symbolic division by zero')
    num = den_poly(a.den)
    if len(a.num) == 1:
        (m, c), = a.num.items()
        if not any(ATOMS[x].kind in ('sin', 'root') for x, _ in m):
            return NF(p_reduce({m_mul(mm, m_pow(m, -1)): _norm(Fraction(v) /
                                                               Fraction(c))
                                for mm, v in num.items()}))
    c, mono, prim = content(a.num)
    im = m_pow(mono, -1)
    num = {m_mul(mm, im): _norm(Fraction(v) / Fraction(c))
           for mm, v in num.items()}
    if len(prim) == 1 and () in prim:
        return NF(p_reduce(num))
    # rationalise sin/root-containing single monomials: s -> s/(1-c^2)
    if len(prim) == 1:
        (m, cc), = prim.items()
        den = {}
        for x, e in m:
            A = ATOMS[x]
            if A.kind == 'sin':
                num = p_mul(num, {((x, 1),): 1})
                k = p_key(content({(): 1, ((A.data, 2),): -1})[2])
                num = p_scale(num, -1)
                den[k] = den.get(k, 0) + 1
            else:       # root^e, 0<e<1 -> root^(1-e)/radicand
                num = p_mul(num, {((x, _norm(1 - Fraction(e))),): 1})
                cc2, mo2, pr2 = content(A.data[0])
                num = {m_mul(mm, m_pow(mo2, -1)):
                       _norm(Fraction(v) / Fraction(cc2))
                       for mm, v in num.items()}
                if pr2 != {(): 1}:
                    k = p_key(pr2)
                    den[k] = den.get(k, 0) + 1
        return NF(p_reduce(num), den)
    b = square_base(prim)
    if b is not None:
        return cancel(NF(p_reduce(num), {p_key(b): 2}))
    return cancel(NF(p_reduce(num), {p_key(prim): 1}))


def square_base(p):
    """b with p = b^2, for a three-term polynomial p of exponentials."""
    if len(p) != 3 or any(ATOMS[a].kind != 'exp' for m in p for a, _ in m):
        return None
    for m1 in p:
        m0, m2 = sorted(m for m in p if m != m1)
        if m_mul(m0, m2) != m_mul(m1, m1):
            continue
        c0, c1, c2 = (Fraction(p[m]) for m in (m0, m1, m2))
        if c0 <= 0 or c2 <= 0 or c1 * c1 != 4 * c0 * c2:
            return None
        r = []
        for c in (c0, c2):
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n != c.numerator or d * d != c.denominator:
                return None
            r.append(Fraction(n, d))
        h = Fraction(1, 2)
        b = {m_pow(m0, h): r[0], m_pow(m2, h): r[1] * (1 if c1 > 0 else -1)}
        return content(b)[2]
    return None


def factor_int(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        q = math.isqrt(n)
        if q * q == n:
            out[q] = out.get(q, 0) + 2
        else:
            out[n] = out.get(n, 0) + 1
    return out


def const_pow(c, r):
    """positive rational constant ** rational r as monomial*const."""
    c = Fraction(c)
    coef = Fraction(1)
    mono = ()
    for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for p, e in factor_int(base).items():
            ex = Fraction(e) * r * sgn
            k = ex.numerator // ex.denominator
            fr = ex - k
            coef *= Fraction(p) ** k
            if fr:
                # keep exponent in [0,1)
                mono = m_mul(mono, ((atom('prime', p, pos=True).id, fr),))
    # fold integer parts that appeared through multiplication
    out = ()
    for a, e in mono:
        k = Fraction(e).numerator // Fraction(e).denominator
        coef *= Fraction(ATOMS[a].key) ** k
        e = Fraction(e) - k
        if e:
            out = m_mul(out, ((a, _norm(e)),))
    return _norm(coef), out


def fold_primes(p):
    """reduce prime atoms with exponents outside [0,1)."""
    bad = False
    for m in p:
        for a, e in m:
            if ATOMS[a].kind == 'prime' and not (0 <= e < 1):
                bad = True
                break
        if bad:
            break
    if not bad:
        return p
    out = {}
    for m, c in p.items():
        mm = []
        for a, e in m:
            if ATOMS[a].kind == 'prime':
                k = Fraction(e).numerator // Fraction(e).denominator
                c = c * Fraction(ATOMS[a].key) ** k
                e = Fraction(e) - k
                if not e:
                    continue
                e = _norm(e)
            mm.append((a, e))
        mm = tuple(mm)
        s = out.get(mm, 0) + c
        if s == 0:
            out.pop(mm, None)
        else:
            out[mm] = _norm(s)
    return out


def mono_pos(m):
    """monomial known to be positive?"""
    for a, e in m:
        if ATOMS[a].pos:
            continue
        return False
    return True


def nf_pow(a, r):
    r = _norm(r)
    if isinstance(r, int):
        if r < 0:
            return nf_pow(nf_inv(a), -r)
        res = nf_const(1)
        base = a
        while r:
            if r & 1:
                res = nf_mul(res, base)
            r >>= 1
            if r:
                base = nf_mul(base, base)
        return res
    if not a.num:
        return NF({})
    # factors of the denominator that are positive term by term
    if a.den:
        pd = {k: e for k, e in a.den.items()
              if all(v > 0 and mono_pos(m) for m, v in _FACT[k].items())}
        if pd:
            out = nf_pow(NF(a.num, {k: e for k, e in a.den.items()
                                    if k not in pd}), r)
            for k, e in pd.items():
                out = nf_mul(out, nf_pow(NF(_FACT[k]), Fraction(-r * e)))
            return out
    # positive monomial?
    if not a.den and len(a.num) == 1:
        (m, c), = a.num.items()
        if c > 0 and mono_pos(m):
            cc, cm = const_pow(c, r)
            mm = m_pow(m, r)
            return NF(fold_primes(p_reduce({m_mul(cm, mm): cc})))
    c, mono, prim = content(a.num)
    pre = nf_const(1)
    pm = tuple((x, e) for x, e in mono if ATOMS[x].pos)
    rest = tuple((x, e) for x, e in mono if not ATOMS[x].pos)
    if pm:
        pre = NF({m_pow(pm, r): 1})
    if c > 0:
        cc, cm = const_pow(c, r)
        sg = 1
    else:
        cc, cm = const_pow(-c, r)
        sg = -1
    pre = nf_mul(pre, NF({cm: cc}))
    body = NF({m_mul(m, rest): _norm(sg * v) for m, v in prim.items()},
              a.den)
    if body.is_const() and body.const() == 1:
        return NF(fold_primes(pre.num), pre.den)
    # root atom for body
    ra, scale = root_atom(body)
    fl = r.numerator // r.denominator
    fr = Fraction(r) - fl
    out = nf_mul(pre, NF({((ra.id, _norm(fr)),): 1}))
    if scale != 1:
        cc, cm = const_pow(scale, r)
        out = nf_mul(out, NF({cm: cc}))
        body = NF(ra.data[0], ra.data[1])
    out = nf_mul(out, nf_pow(body, fl))
    return out


def root_atom(body):
    if body.den:
        # keep the radicand a polynomial: P/Q = P*Q/Q^2 needs |Q|; instead
        # use an opaque positive atom for the whole rational radicand
        for A in ATOMS:
            if A.kind == 'rroot':
                q = nf_ratio(body, NF(A.data[0], A.data[1]))
                if q is not None and q > 0:
                    return A, q
        A = atom('rroot', (p_key(body.num), frozenset(body.den.items())),
                 pos=True, data=(body.num, body.den))
        return A, 1
    A = atom('root', p_key(body.num), pos=True, data=(body.num, {}))
    return A, 1


def nf_ratio(a, b, tol=Fraction(1, 10 ** 12)):
    """constant q with a == q*b, or None."""
    if not a.num or not b.num:
        return None
    l = p_mul(a.num, den_poly(b.den))
    r = p_mul(b.num, den_poly(a.den))
    if len(l) != len(r):
        return None
    q = None
    for m, c in l.items():
        d = r.get(m)
        if d is None:
            return None
        t = Fraction(c) / Fraction(d)
        if q is None:
            q = t
        elif abs(q - t) > abs(q) * tol:
            return None
    return q


def exp_atom_mono(m):
    return atom('exp', m, pos=True)


def nf_exp(a):
    if not a.num:
        return nf_const(1)
    if not a.den:
        res = nf_const(1)
        for m, c in a.num.items():
            if m == ():
                A = exp_atom_mono(())
                res = nf_mul(res, NF({((A.id, c),): 1}))
                continue
            lg = [(x, e) for x, e in m if ATOMS[x].kind == 'log']
            if len(m) == 1 and len(lg) == 1 and lg[0][1] == 1:
                body = ATOMS[lg[0][0]].data
                res = nf_mul(res, nf_pow(body, c))
                continue
            A = exp_atom_mono(m)
            res = nf_mul(res, NF({((A.id, c),): 1}))
        return res
    for A in ATOMS:
        if A.kind == 'rexp':
            q = nf_ratio(a, A.data)
            if q is not None:
                return NF({((A.id, _norm(q)),): 1})
    A = atom('rexp', (p_key(a.num), frozenset(a.den.items())), pos=True,
             data=a)
    return NF({((A.id, 1),): 1})


def log_poly_atom(p):
    """log of a polynomial with >1 terms or a bare atom."""
    k = p_key(p)
    return atom('log', k, data=NF(p))


def nf_log(a):
    """log of a normal form."""
    if not a.num:
        raise NaNPoison('log(0)')
    if a.is_const():
        return nf_logconst(a.const())
    out = NF({})
    sign = 1
    c, mono, prim = content(a.num)
    # factors: c, mono atoms, prim, den factors
    den_items = list(a.den.items())
    unknown = []
    for x, e in mono:
        A = ATOMS[x]
        if A.pos:
            out = nf_add(out, NF_scale(nf_log_atom(x), e))
        else:
            unknown.append((x, e))
    known_den = all(False for _ in den_items)
    if prim == {(): 1} and not unknown and not den_items:
        return nf_add(out, nf_logconst(c))
    if not den_items and not unknown:
        # c*prim must be positive
        if c < 0:
            prim = p_scale(prim, -1)
            c = -c
        out = nf_add(out, nf_logconst(c))
        return nf_add(out, NF({((log_poly_atom(prim).id, 1),): 1}))
    # general: the remaining rational function as one positive unit
    s = 1
    if c < 0:
        c = -c
        s = -1
    out = nf_add(out, nf_logconst(c))
    num = {m_mul(m, tuple(unknown)): _norm(s * v) for m, v in prim.items()}
    body = NF(num, a.den)
    for A in ATOMS:
        if A.kind == 'log' and isinstance(A.key, tuple):
            q = nf_ratio(body, A.data)
            if q is not None and q > 0:
                return nf_add(nf_add(out, nf_logconst(q)),
                              NF({((A.id, 1),): 1}))
            q = nf_ratio(nf_inv(body), A.data)
            if q is not None and q > 0:
                return nf_add(nf_add(out, NF_scale(nf_logconst(q), -1)),
                              NF({((A.id, 1),): -1}))
    A = atom('log', (p_key(body.num), frozenset(body.den.items())),
             data=body)
    return nf_add(out, NF({((A.id, 1),): 1}))


def nf_log_atom(x):
    A = ATOMS[x]
    if A.kind == 'exp':
        return NF({A.key: 1})
    if A.kind == 'rexp':
        return A.data
    if A.kind == 'prime':
        return NF({((atom('log', ('prime', A.key),
                          data=nf_const(A.key)).id, 1),): 1})
    if A.kind == 'root' or A.kind == 'rroot':
        return nf_log(NF(A.data[0], A.data[1]))
    return NF({((log_poly_atom({((x, 1),): 1}).id, 1),): 1})


def nf_logconst(c):
    c = Fraction(c)
    if c <= 0:
        raise NaNPoison('log of non-positive constant')
    out = NF({})
    for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for p, e in factor_int(base).items():
            A = atom('log', ('prime', p), data=nf_const(p))
            out = nf_add(out, NF({((A.id, 1),): e * sgn}))
    return out


def NF_scale(a, c):
    return NF(p_scale(a.num, c), a.den)


_TRIG_CONST = {}


def trig_atoms(key):
    c = atom('cos', key)
    s = atom('sin', key, data=c.id)
    return s, c


def sincos_nf(a):
    """(sin, cos) NFs of a normal form argument."""
    if a.den:
        key = (p_key(a.num), frozenset(a.den.items()))
        s, c = trig_atoms(('r',) + key)
        return NF({((s.id, 1),): 1}), NF({((c.id, 1),): 1})
    S, Cc = NF({}), nf_const(1)
    for m, k in sorted(a.num.items()):
        if m == ():
            s1, c1 = sincos_const(k)
        else:
            s1, c1 = sincos_mult(m, k)
        S, Cc = (nf_add(nf_mul(S, c1), nf_mul(Cc, s1)),
                 nf_add(nf_mul(Cc, c1), NF_scale(nf_mul(S, s1), -1)))
    return S, Cc


def sincos_const(k):
    f = float(k) / _PI
    fr = Fraction(f).limit_denominator(12)
    if abs(float(fr) - f) < 1e-13:
        fr = fr % 2
        tab = {Fraction(0): (0, 1, None), Fraction(1, 2): (1, 0, None),
               Fraction(1): (0, -1, None), Fraction(3, 2): (-1, 0, None)}
        if fr in tab:
            s, c, _ = tab[fr]
            return nf_const(s), nf_const(c)
        h = Fraction(1, 2)
        r2 = nf_pow(nf_const(2), h)
        r3 = nf_pow(nf_const(3), h)
        q = {Fraction(1, 4): (NF_scale(r2, h), NF_scale(r2, h)),
             Fraction(1, 3): (NF_scale(r3, h), nf_const(h)),
             Fraction(1, 6): (nf_const(h), NF_scale(r3, h))}
        for quad in range(4):
            t = fr - Fraction(quad, 2)
            if t in q:
                s, c = q[t]
                for _ in range(quad):
                    s, c = c, NF_scale(s, -1)
                return s, c
    s, c = trig_atoms(('const', k))
    return NF({((s.id, 1),): 1}), NF({((c.id, 1),): 1})


def sincos_mult(m, k):
    k = Fraction(k)
    sgn = 1
    if k < 0:
        sgn, k = -1, -k
    n, d = k.numerator, k.denominator
    if n > 64:
        n, d = 1, k
    s0, c0 = trig_atoms((m, d))
    s1 = NF({((s0.id, 1),): 1})
    c1 = NF({((c0.id, 1),): 1})
    S, Cc = s1, c1
    for _ in range(n - 1):
        S, Cc = (nf_add(nf_mul(S, c1), nf_mul(Cc, s1)),
                 nf_add(nf_mul(Cc, c1), NF_scale(nf_mul(S, s1), -1)))
    if sgn < 0:
        S = NF_scale(S, -1)
    return S, Cc


def to_nf(n):
    if n._nf is not None:
        return n._nf
    st = [n]
    while st:
        x = st[-1]
        if x._nf is not None:
            st.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and a._nf is None]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        x._nf = _nf1(x)
    return n._nf


def _nf1(x):
    op = x.op
    if op == 'c':
        return nf_const(x.args[0])
    if op == 'v':
        A = atom('v', x.args[0], pos=VARS[x.args[0]].pos)
        return NF({((A.id, 1),): 1})
    if op == '+':
        r = NF({})
        for a in x.args:
            r = nf_add(r, a._nf)
        return r
    if op == '*':
        r = nf_const(1)
        for a in x.args:
            r = nf_mul(r, a._nf)
        r = NF(fold_primes(r.num), r.den)
        return r
    if op == 'pow':
        r = nf_pow(x.args[0]._nf, x.args[1])
        return NF(fold_primes(r.num), r.den)
    if op == 'exp':
        return nf_exp(x.args[0]._nf)
    if op == 'log':
        return nf_log(x.args[0]._nf)
    if op in ('sin', 'cos'):
        a = x.args[0]
        # inverse functions
        s = trig_of_inverse(op, a)
        if s is not None:
            return s
        S, Cc = sincos_nf(a._nf)
        return S if op == 'sin' else Cc
    if op == 'abs':
        a = x.args[0]._nf
        if a.is_const():
            return nf_const(abs(a.const()))
        if not a.den and len(a.num) == 1:
            (m, c), = a.num.items()
            if mono_pos(m):
                return NF({m: abs(c)})
        A = atom('abs', (p_key(a.num), frozenset(a.den.items())), data=a)
        return NF({((A.id, 1),): 1})
    if op in ('asin', 'acos', 'atan2', 'atan'):
        key = (op,) + tuple((p_key(a._nf.num), frozenset(a._nf.den.items()))
                            for a in x.args)
        A = atom('fn', key, data=[op] + [a._nf for a in x.args])
        return NF({((A.id, 1),): 1})
    if op == 'nan':
        raise NaNPoison('nan')
    raise Unsupported('nf of ' + op)


def trig_of_inverse(op, a):
    if a.op == 'asin' and op == 'sin' or a.op == 'acos' and op == 'cos':
        return a.args[0]._nf
    if a.op == 'atan2':
        y, x = a.args
        r = to_nf(powr(add(mul(x, x), mul(y, y)), Fraction(1, 2)))
        return nf_mul((y if op == 'sin' else x)._nf, nf_inv(r))
    if a.op == 'acos' and op == 'sin' or a.op == 'asin' and op == 'cos':
        z = a.args[0]
        return to_nf(powr(add(ONE, neg(mul(z, z))), Fraction(1, 2)))
    return None


def nf_sub(a, b):
    return nf_add(a, NF_scale(b, -1))


def nf_eval(nf, val):
    raise NotImplementedError
