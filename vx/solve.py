# -*- coding: utf-8 -*-
"""Normal forms / truth values -> z3, and the queries."""
import random
import sys
import time
import math
from fractions import Fraction
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import expr as X
from .sym import SB, CMPS


class Stats(object):
    queries = 0
    time = 0.
    sat = 0
    unsat = 0
    unknown = 0
    structural = 0
    repeated = 0


STATS = Stats()


def q(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 \
        else z3.RealVal(c.numerator)


class Enc(object):
    """Encoder with definitional constraints for atoms."""

    def __init__(self, axioms=True):
        self.vars = {}
        self.cons = []
        self.axioms = axioms
        self.done = set()
        self.frac = {}

    def var(self, A):
        v = self.vars.get(A.id)
        if v is None:
            v = z3.Real(A.name)
            self.vars[A.id] = v
            self.define(A, v)
        return v

    def define(self, A, v):
        k = A.kind
        if A.pos:
            self.cons.append(v > 0)
        if k == 'sin':
            c = self.var(X.ATOMS[A.data])
            self.cons.append(v * v + c * c == 1)
        elif k == 'cos':
            self.cons.append(v <= 1)
            self.cons.append(v >= -1)
        elif k == 'prime':
            self.cons.append(v == A.key)
        elif k == 'exp' and self.axioms:
            m = A.key
            if m == ():
                self.cons.append(v > q(Fraction(27182818, 10 ** 7)))
                self.cons.append(v < q(Fraction(27182819, 10 ** 7)))
            else:
                self.exp_axioms(v, self.mono(m))
        elif k == 'rexp' and self.axioms:
            n, d = self.poly(A.data.num), self.poly(X.den_poly(A.data.den))
            x = z3.Real('rx_%d' % A.id)
            self.cons.append(x * d == n)
            self.cons.append(v >= 1 + x)
            self.cons.append((v > 1) == (x > 0))
        elif k == 'log' and self.axioms:
            nf = A.data
            if nf is not None:
                n = self.poly(nf.num)
                d = self.poly(X.den_poly(nf.den))
                u = z3.Real('lg_%d' % A.id)
                self.cons.append(u * d == n)
                self.cons.append(u > 0)
                self.cons.append(v <= u - 1)
                self.cons.append((v > 0) == (u > 1))
                self.cons.append((v == 0) == (u == 1))
                self.cons.append(v * u >= u - 1)
                # log is monotonic: compare with the exponentials around
                for p in (nf.num, X.den_poly(nf.den)):
                    for mm in p:
                        if len(mm) == 1 and X.ATOMS[mm[0][0]].kind == 'exp':
                            (ea, ee), = mm
                            k = X.ATOMS[ea].key
                            x = q(ee) if k == () else q(ee) * self.mono(k)
                            E = self.mono(mm)
                            self.cons.append((v < x) == (u < E))
                            self.cons.append((v == x) == (u == E))
        elif k in ('abs',):
            nf = A.data
            n = self.poly(nf.num)
            d = self.poly(X.den_poly(nf.den))
            u = z3.Real('ab_%d' % A.id)
            self.cons.append(u * d == n)
            self.cons.append(v == z3.If(u >= 0, u, -u))
        elif k in ('root', 'rroot'):
            pass

    def power(self, a, e):
        """z3 term for atom^e (e > 0)."""
        A = X.ATOMS[a]
        e = Fraction(e)
        unit = self.lcm.get(a)
        if e.denominator == 1 and not unit:
            v = self.var(A)
            t = v
            for _ in range(int(e) - 1):
                t = t * v
            return t
        if unit is not None and unit != 1 and not unit.numerator == 0 and \
                (e / unit).denominator == 1:
            L, k = unit, int(e / unit)
        else:
            L, k = e, 1
        if A.kind != 'exp' and L.numerator == 1 and L.denominator <= 24 \
                or L.numerator == 1 and L.denominator <= 4:
            w = self.rootvar(a, L.denominator)
        else:
            w = self.powvar(a, L)
        t = w
        for _ in range(k - 1):
            t = t * w
        return t

    def powvar(self, a, e):
        """atom^e for an awkward rational e: a variable of its own."""
        key = (a, 'pow', e)
        w = self.frac.get(key)
        if w is None:
            A = X.ATOMS[a]
            w = z3.Real('%s__p%d_%d' % (A.name, e.numerator, e.denominator))
            self.frac[key] = w
            if A.kind == 'exp':
                self.cons.append(w > 0)
                if self.axioms:
                    x = q(e) if A.key == () else q(e) * self.mono(A.key)
                    self.exp_axioms(w, x)
            else:
                v = self.var(A)
                self.cons.append(w > 0 if A.pos else w >= 0)
                self.cons.append((w > 1) == (v > 1))
                self.cons.append((w == 1) == (v == 1))
        return w

    def exp_axioms(self, v, x):
        self.cons.append(v >= 1 + x)
        self.cons.append(z3.Implies(x != 0, v > 1 + x))
        self.cons.append((v > 1) == (x > 0))
        self.cons.append(z3.Implies(x < 1, v * (1 - x) <= 1))

    def rootvar(self, a, L):
        key = (a, L)
        w = self.frac.get(key)
        if w is None:
            A = X.ATOMS[a]
            w = z3.Real('%s__r%d' % (A.name, L))
            self.frac[key] = w
            t = w
            for _ in range(L - 1):
                t = t * w
            if A.kind in ('root',):
                self.cons.append(t == self.poly(A.data[0]))
                self.cons.append(w >= 0)
            elif A.kind == 'rroot':
                n, d = A.data
                self.cons.append(t * self.poly(X.den_poly(d)) == self.poly(n))
                self.cons.append(w >= 0)
            elif A.kind == 'prime':
                self.cons.append(t == A.key)
                self.cons.append(w > 0)
            else:
                self.cons.append(t == self.var(A))
                self.cons.append(w > 0 if A.pos else w >= 0)
        return w

    lcm = {}

    def mono(self, m, c=1):
        num = None
        den = None
        for a, e in m:
            if e > 0:
                t = self.power(a, e)
                num = t if num is None else num * t
            else:
                t = self.power(a, -e)
                den = t if den is None else den * t
        r = q(c) if num is None else (num if c == 1 else q(c) * num)
        if den is not None:
            r = r / den
        return r

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = [self.mono(m, c) for m, c in sorted(p.items())]
        return ts[0] if len(ts) == 1 else z3.Sum(ts)


def clear_mono_den(*polys):
    """multiply all polys by a common monomial so that exponents are >= 0;
    returns (polys, monomial)."""
    low = {}
    for p in polys:
        for m in p:
            for a, e in m:
                if e < low.get(a, 0):
                    low[a] = e
    if not low:
        return polys, ()
    mm = tuple(sorted((a, -e) for a, e in low.items()))
    return tuple({X.m_mul(m, mm): c for m, c in p.items()}
                 for p in polys), mm


def collect_lcm(polys):
    """atom -> common unit of the exponents with which it occurs (atoms that
    occur with integer exponents only are left out; Fraction(0): none)."""
    exps = {}
    todo = list(polys)
    seen = set()
    while todo:
        for m in todo.pop():
            for a, e in m:
                exps.setdefault(a, set()).add(abs(Fraction(e)))
                if a in seen:
                    continue
                seen.add(a)
                A = X.ATOMS[a]
                d = A.data
                if A.kind in ('log', 'abs', 'rexp') and d is not None:
                    todo += [d.num, X.den_poly(d.den)]
                elif A.kind == 'exp' and A.key != ():
                    todo.append({A.key: 1})
    out = {}
    for a, es in exps.items():
        if all(e.denominator == 1 for e in es):
            continue
        g = Fraction(0)
        for e in es:
            g = Fraction(math.gcd(g.numerator * e.denominator,
                                  e.numerator * g.denominator),
                         g.denominator * e.denominator)
        out[a] = g if max(es) / g <= 24 else Fraction(0)
    return out


def sides(a, b):
    """a, b nodes -> (L, R) polynomials with L == R <=> a == b (denominators
    assumed nonzero), plus the multiplier polynomial used."""
    na, nb = X.to_nf(a), X.to_nf(b)
    da, db = na.den, nb.den
    # common part of the denominators
    fa = {k: e - min(e, db.get(k, 0)) for k, e in da.items()}
    fb = {k: e - min(e, da.get(k, 0)) for k, e in db.items()}
    fa = {k: e for k, e in fa.items() if e}
    fb = {k: e for k, e in fb.items() if e}
    L = X.fold_primes(X.p_mul(na.num, X.den_poly(fb)))
    R = X.fold_primes(X.p_mul(nb.num, X.den_poly(fa)))
    den = dict(da)
    for k, e in fb.items():
        den[k] = den.get(k, 0) + e
    return L, R, den


def coef_close(L, R, rtol=1e-8, atol=1e-12):
    """Monomial-wise comparison of coefficients -> (close, exact, residue):
    'residue' tells that a monomial was accepted only because its coefficient
    is tiny with respect to the largest one (left over by the cancellation of
    rounded constants)."""
    mx = max([abs(float(c)) for c in L.values()] +
             [abs(float(c)) for c in R.values()] + [0.])
    exact, resid = True, False
    for m in set(L) | set(R):
        a, b = L.get(m, 0), R.get(m, 0)
        if a != b:
            exact = False
            fa, fb = float(a), float(b)
            d = abs(fa - fb)
            if d <= rtol * max(abs(fa), abs(fb)):
                continue
            if d > atol * mx:
                return False, False, False
            resid = True
    return True, exact, resid


def residue_ok(L, R):
    """the residue monomials are negligible at sample points, too."""
    rng = random.Random(7)
    hits = 0
    for _ in range(12):
        val = {}

        def at(P):
            t, mx = 0., 0.
            for m, c in P.items():
                x = float(c)
                for a, e in m:
                    A = X.ATOMS[a]
                    if a not in val:
                        val[a] = rng.uniform(0.3, 3.) * (
                            1 if A.pos else rng.choice((1, -1)))
                        i = X.VARS.get(A.key) if A.kind == 'v' else None
                        if i is not None and getattr(i, 'sample', None):
                            val[a] = rng.uniform(*i.sample)
                    v = val[a]
                    x *= abs(v) ** float(e) if e != int(e) else \
                        v ** int(e)
                t += x
                mx = max(mx, abs(x))
            return t, mx
        try:
            (u, mu), (v, mv) = at(L), at(R)
        except (OverflowError, ZeroDivisionError):
            continue
        hits += 1
        if abs(u - v) > 1e-7 * max(abs(u), abs(v)) and \
                abs(u - v) > 1e-9 * max(mu, mv):
            return False
    return hits > 0


def enc_cmp(enc, b, pol=True):
    """SB -> z3 Bool."""
    if not isinstance(b, SB):
        return z3.BoolVal(bool(b))
    if b.op in CMPS:
        L, R, den = sides(b.args[0], b.args[1])
        (L, R), mm = clear_mono_den(L, R)
        # sign of the multipliers
        odd = []
        for k, e in den.items():
            if e % 2:
                odd.append(X._FACT[k])
        mneg = [(a, e) for a, e in mm if not X.ATOMS[a].pos and e % 2]
        enc.lcm = collect_lcm([L, R] + odd)
        l, r = enc.poly(L), enc.poly(R)
        op = b.op
        nz = []
        for k, e in den.items():
            nz.append(enc.poly(X._FACT[k]) != 0)
        for a, e in mm:
            if not X.ATOMS[a].pos:
                nz.append(enc.var(X.ATOMS[a]) != 0)
        enc.cons.extend(nz)
        if op in ('==', '!='):
            return (l == r) if op == '==' else (l != r)
        fl = z3.BoolVal(False)
        for p in odd:
            fl = z3.Xor(fl, enc.poly(p) < 0)
        for a, e in mneg:
            fl = z3.Xor(fl, enc.var(X.ATOMS[a]) < 0)
        f = {'<': lambda u, v: u < v, '<=': lambda u, v: u <= v,
             '>': lambda u, v: u > v, '>=': lambda u, v: u >= v}[op]
        if not odd and not mneg:
            return f(l, r)
        return z3.If(fl, f(r, l), f(l, r))
    if b.op == 'bvar':
        return z3.Bool(b.args[0])
    if b.op == 'not':
        return z3.Not(enc_cmp(enc, b.args[0]))
    if b.op == 'and':
        return z3.And([enc_cmp(enc, x) for x in b.args])
    if b.op == 'or':
        return z3.Or([enc_cmp(enc, x) for x in b.args])
    raise X.Unsupported(b.op)


def bounds_cons(enc):
    """declared ranges of the input variables that occur."""
    out = []
    for aid, v in list(enc.vars.items()):
        A = X.ATOMS[aid]
        if A.kind != 'v':
            continue
        info = X.VARS.get(A.key)
        if info is None:
            continue
        lo, hi = getattr(info, 'lo', None), getattr(info, 'hi', None)
        if lo is not None:
            out.append(v >= q(X.rat(lo)))
        if hi is not None:
            out.append(v <= q(X.rat(hi)))
    return out


def relevant(pcs, nodes):
    """path constraints that share variables (transitively) with nodes."""
    want = set()
    for n in nodes:
        want |= X.variables(n)
    items = []
    for p in pcs:
        vs = set()
        for n in sb_all(p):
            vs |= X.variables(n)
        items.append((p, vs))
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for p, vs in items:
            if vs & want or not vs:
                out.append(p)
                if vs - want:
                    want |= vs
                    changed = True
            else:
                rest.append((p, vs))
        if len(rest) == len(items):
            break
        items = rest
    return out


def sb_all(b):
    from .sym import sb_nodes
    return sb_nodes(b, [])


def check(formulas, timeout=10.0, pins=None, pcs=(), want_model=True,
          slim=True, nodes=()):
    """formulas: SBs that must hold together with pcs. returns
    ('sat', {name: Fraction|bool}) / ('unsat', None) / ('unknown', None)."""
    t0 = time.time()
    enc = Enc()
    fs = [enc_cmp(enc, f) for f in formulas]
    ns = list(nodes)
    for f in formulas:
        ns += sb_all(f)
    use = relevant(pcs, ns) if slim else list(pcs)
    for p in use:
        try:
            fs.append(enc_cmp(enc, p))
        except (X.NaNPoison, ZeroDivisionError):
            return 'unsat', None
    return run(enc, fs, timeout, pins, t0)


def run(enc, fs, timeout, pins=None, t0=None):
    t0 = t0 or time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in fs:
        s.add(f)
    if pins:
        for aid, v in list(enc.vars.items()):
            A = X.ATOMS[aid]
            if A.kind == 'v' and A.key in pins:
                s.add(v == q(pins[A.key]))
    for c in bounds_cons(enc):
        s.add(c)
    for c in enc.cons:
        s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.queries += 1
    dt = time.time() - t0
    STATS.time += dt
    if r == z3.sat:
        STATS.sat += 1
        m = s.model()
        out = {}
        for aid, v in enc.vars.items():
            A = X.ATOMS[aid]
            if A.kind == 'v':
                val = m.eval(v, model_completion=True)
                out[A.key] = z3val(val)
        for d in m.decls():
            if d.range() == z3.BoolSort():
                out[d.name()] = z3.is_true(m[d])
        return 'sat', out
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    STATS.unknown += 1
    return 'unknown', None


def z3val(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


MAXQ = 4000


def direct(a, b):
    """small instances: the cross-multiplied, unexpanded products are handed
    to the solver."""
    na, nb = X.to_nf(a), X.to_nf(b)
    size = len(na.num) + len(nb.num)
    for k in list(na.den) + list(nb.den):
        size += len(X._FACT[k])
    if size > 60:
        return False
    for P in [na.num, nb.num] + [X._FACT[k] for k in
                                 list(na.den) + list(nb.den)]:
        for m in P:
            for _, e in m:
                if e != int(e) or e < 0:
                    return False
    t0 = time.time()
    enc = Enc(axioms=False)

    def prod(P, den):
        t = enc.poly(P)
        for k, e in den.items():
            f = enc.poly(X._FACT[k])
            if e != int(e):
                return None
            for _ in range(int(e)):
                t = t * f
        return t
    l, r = prod(na.num, nb.den), prod(nb.num, na.den)
    if l is None or r is None:
        return False
    return run(enc, [l != r], 3., None, t0)[0] == 'unsat'


def prove_eq(a, b, pcs, timeout=20., rtol=1e-8):
    """Is a == b?  ('unsat'|'sat'|'unknown'|'differ', model)."""
    key = (a.id, b.id, rtol)
    if key in PROVED:
        STATS.repeated += 1
        return 'unsat', None, True
    r = prove_eq_(a, b, timeout, rtol)
    if r[0] == 'unsat':
        PROVED[key] = (a, b)
    return r


PROVED = {}


def groups(n, memo, limit=4000):
    """n as a sum of fractions: {denominator: numerator polynomial}; None
    when there would be too many of them."""
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.op not in ('+', '*') or x._nf is not None and not x._nf.den:
            st.pop()
            v = X.to_nf(x)
            memo[x.id] = {frozenset(v.den.items()): v.num}
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        if any(memo[a.id] is None for a in x.args):
            memo[x.id] = None
            continue
        if x.op == '+':
            r = {}
            for a in x.args:
                for k, p in memo[a.id].items():
                    r[k] = X.p_add(r[k], p) if k in r else p
        else:
            r = {frozenset(): {(): 1}}
            for a in x.args:
                t = {}
                for k, p in r.items():
                    for k2, p2 in memo[a.id].items():
                        v = X.cancel(X.nf_mul(X.NF(p, dict(k)),
                                              X.NF(p2, dict(k2))))
                        kk = frozenset(v.den.items())
                        t[kk] = X.p_add(t[kk], v.num) if kk in t else v.num
                r = t
                if len(r) > 64:
                    break
        if len(r) > 64 or sum(map(len, r.values())) > limit:
            r = None
        memo[x.id] = r
    return memo[n.id]


def by_groups(a, b, timeout, rtol):
    """equality of two sums of fractions, denominator by denominator."""
    memo = {}
    ga = groups(a, memo)
    gb = groups(b, memo) if ga is not None else None
    if ga is None or gb is None or len(ga) < 3:
        return None
    todo = []
    for k in set(ga) | set(gb):
        L = X.fold_primes(ga.get(k, {}))
        R = X.fold_primes(gb.get(k, {}))
        close, exact, resid = coef_close(L, R, rtol)
        if not close or resid:
            return None
        if L:
            todo.append(L)
    t0 = time.time()
    for L in todo:
        if len(L) > MAXQ:
            STATS.structural += 1
            continue
        enc = Enc(axioms=False)
        (L2,), mm = clear_mono_den(L)
        enc.lcm = collect_lcm([L2])
        l, r = enc.poly(L2), enc.poly(dict(L2))
        if run(enc, [l != r], timeout, None, t0)[0] != 'unsat':
            return None
    return 'unsat', None, True


def prove_eq_(a, b, timeout=20., rtol=1e-8):
    r = by_groups(a, b, timeout, rtol)
    if r is not None:
        return r
    L, R, den = sides(a, b)
    close, exact, resid = coef_close(L, R, rtol)
    if close and resid and not residue_ok(L, R):
        close = False
    if close:
        if exact and L:
            r = direct(a, b)
            if r:
                return 'unsat', None, close
        if not exact:
            # identify constants that differ by float rounding only
            R = dict(L)
        if len(L) > MAXQ:
            # the two sides are the same polynomial: the residual is 0
            STATS.structural += 1
            L, R = {}, {}
        t0 = time.time()
        enc = Enc(axioms=False)
        (L2, R2), mm = clear_mono_den(L, R)
        enc.lcm = collect_lcm([L2])
        l, r = enc.poly(L2), enc.poly(R2)
        res, m = run(enc, [l != r], timeout, None, t0)
        return res, m, close
    return 'differ', None, close
