# -*- coding: utf-8 -*-
"""Harness API and path executor.

A harness is ``def h(env): ...``.  It is executed
  * symbolically ('sym'), once per feasible path of the real code, and
  * concretely ('conc'), on the real modules (rebuilt from /repo), to validate
    the encoding and to replay counterexamples.
"""
import os
import re
import sys
import time
import math
import json
import random
import shutil
import tempfile
import traceback
import contextlib
from fractions import Fraction

import numpy as np

from . import expr as X
from . import solve
from .sym import (S, SB, CUR, PathAbort, lift, eval_sb, sb_nodes, cmp_, and_,
                  or_, not_, has_sym)
from .expr import Unsupported, NaNPoison

NWIT = 10


class Infeasible(PathAbort):
    pass


class AssumeFailed(Exception):
    """concrete mode: the valuation violates an assumption."""


class TooMany(Exception):
    pass


class BaseEnv(object):
    numpy_div = True
    div_fork = False
    abs_fork = True

    def __init__(self, h, opts):
        self.h = h
        self.opts = opts
        self.records = []
        self.tmpdirs = []
        self.loader = None
        self.divisors = []
        self.notes = []
        self.undo = []
        self.race = None
        self.race_it = None
        self.races = []
        self.loops = 0
        for k in ('div_fork', 'abs_fork', 'numpy_div'):
            if k in opts:
                setattr(self, k, opts[k])

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='vx_')
        self.tmpdirs.append(d)
        return d

    def patch(self, obj, attr, value):
        old = getattr(obj, attr, self)
        setattr(obj, attr, value)
        self.undo.append((obj, attr, old))

    def cleanup(self):
        for obj, attr, old in reversed(self.undo):
            if old is self:
                delattr(obj, attr)      # was not there (a builtin)
            else:
                setattr(obj, attr, old)
        self.undo = []
        for d in self.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)
        self.tmpdirs = []

    def file(self, text, name='input.dat'):
        d = self.tmpdir()
        p = os.path.join(d, name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    # array helpers
    def arr(self, name, shape, **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.real(name + '_' + '_'.join(map(str, idx)), **kw)
        return self.mkarr(out)

    def check_arr(self, label, a, b, **kw):
        a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) \
            else a
        b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) \
            else b
        self.check_true(label + ' shape', a.shape == b.shape,
                        detail='%r vs %r' % (a.shape, b.shape))
        if a.shape != b.shape:
            return
        for idx in np.ndindex(*a.shape):
            self.check_eq(label + str(list(idx)), a[idx], b[idx], **kw)

    # helpers building conditions in both modes
    def And(self, *xs):
        return and_(list(xs))

    def Or(self, *xs):
        return or_(list(xs))

    def Not(self, x):
        return not_(x)

    def sqrt(self, x):
        return self.fn('sqrt', x)

    def exp(self, x):
        return self.fn('exp', x)

    def log(self, x):
        return self.fn('log', x)

    def sin(self, x):
        return self.fn('sin', x)

    def cos(self, x):
        return self.fn('cos', x)

    def fn(self, name, x):
        if isinstance(x, S):
            return getattr(x, name)()
        return getattr(math, name)(float(x))


# --------------------------------------------------------------------------
def penalty(b, val, memo):
    """how far a condition is from holding (0: it holds)."""
    if not isinstance(b, SB):
        return 0. if b else 1.
    if b.op in ('<', '<=', '>', '>=', '==', '!='):
        u = X.evalf(b.args[0], val, memo)
        v = X.evalf(b.args[1], val, memo)
        if u != u or v != v:
            return 10.
        d = {'<': u - v, '<=': u - v, '>': v - u, '>=': v - u,
             '==': abs(u - v), '!=': -abs(u - v)}[b.op]
        if d < 0. or (d == 0. and b.op in ('<=', '>=', '==')):
            return 0.
        if d == float('inf'):
            return 10.
        return d / (abs(u) + abs(v) + 1e-9) + 1e-6
    if b.op == 'bvar':
        return 0. if val[b.args[0]] else 1.
    if b.op == 'and':
        return sum(penalty(x, val, memo) for x in b.args)
    if b.op == 'or':
        return min(penalty(x, val, memo) for x in b.args)
    if b.op == 'not':
        return 0. if eval_sb(b, val, memo) else 1.
    raise Unsupported(b.op)


class SymEnv(BaseEnv):
    mode = 'sym'
    sym = True

    def __init__(self, h, opts, prefix, witnesses, rng, budget):
        BaseEnv.__init__(self, h, opts)
        self.prefix = prefix           # list of (kind, value)
        self.pos = 0
        self.trace = []                # decisions made
        self.pending = []              # [(prefix, witnesses)]
        self.wits = [dict(w) for w in witnesses]
        self.fresh_w = not witnesses
        self.pcs = []
        self.signs = {}
        self.nfsigns = []
        self.inputs = {}
        self.choices = {}
        self.rng = rng
        self.budget = budget
        self.tokens = {}               # float value -> (node, tol)
        self.tokn = 0
        self.fresh = 0
        self.results = []              # check outcomes
        self.out = {}
        self.unsure = False
        self.timeout = opts.get('timeout', 15.)
        self.ftimeout = opts.get('ftimeout', 4.)
        self.captured = {}
        self.defs = []

    # -- inputs
    def real(self, name, lo=None, hi=None, pos=None, sample=None):
        if pos is None:
            pos = lo is not None and lo > 0
        X.V(name, pos=pos)
        info = X.VARS[name]
        info.lo, info.hi = lo, hi
        if sample is None:
            a = lo if lo is not None else (1e-2 if pos else -3.)
            b = hi if hi is not None else max(a * 3, a + 6.)
            if hi is not None and lo is None and not pos:
                a = min(-3., hi - 6)
            sample = (a, b)
        info.sample = sample
        n = Node_v(name)
        s = S(n)
        self.inputs[name] = info
        if not self.wits and self.fresh_w:
            self.wits = [dict() for _ in range(NWIT)]
        self.fresh_w = False
        for w in self.wits:
            if name not in w:
                w[name] = self._sample(info)
        if lo is not None and lo != 0 or (lo == 0 and not pos):
            pass                      # ranges are added by bounds_cons
        if pos and lo is None:
            info.lo = None
        return s

    def _sample(self, info):
        a, b = info.sample
        v = self.rng.uniform(a, b)
        return float('%.6g' % v) if a < float('%.6g' % v) < b else v

    def angle(self, name):
        s = self.real(name, sample=(-3.1, 3.1))
        X.VARS[name].kind = 'angle'
        return s

    def derived(self, name, defn, pos=False):
        """a value defined by a contract; defn(valuation)->float."""
        X.V(name, pos=pos, defn=defn)
        X.VARS[name].lo = X.VARS[name].hi = None
        return S(Node_v(name))

    def freshvar(self, base, lo=None, hi=None, sample=None, defn=None):
        self.fresh += 1
        name = '%s#%d' % (base, self.fresh)
        if defn is not None:
            return self.derived(name, defn)
        return self.real(name, lo, hi, sample=sample)

    def choice(self, name, options):
        options = list(options)
        k = self._decide('choice:' + name, len(options))
        self.choices[name] = options[k]
        return options[k]

    def _decide(self, tag, n):
        if self.pos < len(self.prefix):
            t, k = self.prefix[self.pos]
            if t != tag:
                raise Unsupported('non-deterministic harness: %s / %s'
                                  % (t, tag))
            self.pos += 1
        else:
            k = 0
            for j in range(1, n):
                self.pending.append((self.trace + [(tag, j)],
                                     [dict(w) for w in self.wits]))
            self.pos += 1
        self.trace.append((tag, k))
        return k

    # -- branching
    TRUTH = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}, '==': {0},
             '!=': {-1, 1}}

    def _canon(self, b):
        """comparison -> (key, set of signs of the key's node)."""
        if b.op not in self.TRUTH:
            return None
        x, y = b.args
        T = set(self.TRUTH[b.op])
        if x.op == 'c':
            x, y = y, x
            T = {-t for t in T}
        if y.op != 'c':
            if x.id > y.id:
                x, y = y, x
                T = {-t for t in T}
            return (x.id, y.id, None), T
        c = y.args[0]
        while x.op == '*' and any(z.op == 'c' for z in x.args):
            k, z = x.args if x.args[0].op == 'c' else x.args[::-1]
            if z.op == 'c' or k.args[0] == 0:
                return None
            c = c / k.args[0]
            if k.args[0] < 0:
                T = {-t for t in T}
            x = z
        return (x.id, None, c), T

    def _learn(self, b, want=True):
        if not isinstance(b, SB):
            return
        if b.op == 'not':
            return self._learn(b.args[0], not want)
        if b.op == 'and' and want or b.op == 'or' and not want:
            for z in b.args:
                self._learn(z, want)
            return
        r = self._canon(b)
        if r:
            k, T = r
            if not want:
                T = {-1, 0, 1} - T
            self.signs[k] = self.signs.get(k, {-1, 0, 1}) & T

    def _known(self, b):
        r = self._canon(b)
        if r is None:
            return None
        a = self.signs.get(r[0])
        if a is None and self.nfsigns and r[0][1] is None and r[0][2] == 0:
            a = self._nf_sign(b)
        if a is None:
            return None
        if not a & r[1]:
            return False
        return True if a <= r[1] else None

    def sign_fact(self, node, positive):
        """contract fact: node > 0 (or < 0), recognised in any
        arithmetically equal form."""
        b = node > 0. if positive else node < 0.
        if isinstance(b, (bool, np.bool_)):
            return
        self.define(b)
        self._filter(b, True)
        n = lift(node)
        if isinstance(n, X.Node):
            self.nfsigns.append((X.to_nf(n), 1 if positive else -1))

    def _nf_sign(self, b):
        """signs of the key of b known from the contract facts."""
        x, y = b.args
        if x.op == 'c':
            x = y
        while x.op == '*' and any(z.op == 'c' for z in x.args):
            c, z = x.args if x.args[0].op == 'c' else x.args[::-1]
            x = z
        a = self._signs(x, {})
        return a if len(a) < 3 else None

    def _signs(self, x, memo):
        """possible signs of an expression (facts and rules of signs)."""
        if x in memo:
            return memo[x]
        memo[x] = {-1, 0, 1}
        r = None
        if x.op == 'c':
            c = x.args[0]
            r = {(c > 0) - (c < 0)}
        elif x.op == 'v':
            r = {1} if X.VARS[x.args[0]].pos else None
        elif x.op == 'exp':
            r = {1}
        elif x.op == '*':
            a, b = [self._signs(z, memo) for z in x.args]
            r = {u * v for u in a for v in b}
        elif x.op == 'pow':
            a, k = self._signs(x.args[0], memo), x.args[1]
            if isinstance(k, int):
                r = {u ** abs(k) for u in a if u or k > 0}
            elif a == {1}:
                r = {1}
        elif x.op == '+':
            a, b = [self._signs(z, memo) for z in x.args]
            if len(a) == 1 and a == b:
                r = set(a)
            elif x.args[1] is X.MONE and x.args[0].op == 'exp':
                r = self._signs(x.args[0].args[0], memo)
            elif x.args[0] is X.MONE and x.args[1].op == 'exp':
                r = self._signs(x.args[1].args[0], memo)
        if (r is None or len(r) == 3) and x.op in ('+', '*', 'v'):
            k = self.signs.get((x.id, None, 0))
            if k is not None and len(k) < 3:
                r = set(k)
            else:
                nf = X.to_nf(x)
                for f, s in self.nfsigns:
                    if len(f.num) != len(nf.num) or f.den != nf.den:
                        continue
                    q = X.nf_ratio(nf, f)
                    if q:
                        r = {s if q > 0 else -s}
                        break
        if r:
            memo[x] = r
        return memo[x]

    def branch(self, b):
        if not isinstance(b, SB):
            return bool(b)
        key = 'br:%d' % len(self.trace)
        if self.pos < len(self.prefix):
            t, k = self.prefix[self.pos]
            if not t.startswith('br'):
                raise Unsupported('non-deterministic harness')
            self.pos += 1
            self.trace.append((t, k))
            if t == 'brf':            # forced, already implied
                return bool(k)
            self.pcs.append(b if k else not_(b))
            self._learn(b, bool(k))
            self._filter(b, bool(k))
            return bool(k)
        known = self._known(b)
        if known is not None:
            self.pos += 1
            self.trace.append(('brf', int(known)))
            return known
        ts, fs, und = [], [], []
        for w in self.wits:
            r = eval_sb(b, w)
            (ts if r else fs if r is False else und).append(w)
        self.pos += 1
        if ts and fs:
            feas = {True: ts, False: fs}
        else:
            feas = {True: ts, False: fs}
            for want in (True, False):
                if feas[want]:
                    continue
                f = b if want else not_(b)
                try:
                    r, m = solve.check([f], self.ftimeout, None, self.pcs)
                except (NaNPoison, ZeroDivisionError):
                    r, m = 'unsat', None
                if r == 'sat':
                    w = self.complete(m)
                    ok = eval_sb(f, w) and all(
                        eval_sb(p, w) is not False for p in self.pcs)
                    feas[want] = [w] if ok else 'maybe'
                elif r == 'unsat':
                    feas[want] = None
                else:
                    feas[want] = 'maybe'
        t_ok, f_ok = feas[True], feas[False]
        if t_ok is None and f_ok is None:
            raise Infeasible()
        if f_ok is None or t_ok is None:
            k = 1 if f_ok is None else 0
            self.trace.append(('brf', k))
            cur = feas[bool(k)]
            if isinstance(cur, list) and cur:
                self.wits = cur
            return bool(k)
        # both (possibly) feasible
        def wl(x):
            return x if isinstance(x, list) else []
        self.pending.append((self.trace + [('br', 0)],
                             [dict(w) for w in wl(f_ok)]))
        self.trace.append(('br', 1))
        self.pcs.append(b)
        self._learn(b)
        self.wits = wl(t_ok)
        self._maybe_fail()
        return True

    def _maybe_fail(self):
        self.budget['branches'] += 1
        if self.budget['branches'] > self.budget['max_branches']:
            raise TooMany('too many branches')

    def _filter(self, b, want):
        self.wits = [w for w in self.wits if eval_sb(b, w) is want]

    def complete(self, model):
        """solver model -> full valuation of the inputs."""
        base = dict(self.wits[0]) if self.wits else {}
        for n, info in self.inputs.items():
            if n in model:
                base[n] = float(model[n]) if not isinstance(model[n], bool) \
                    else model[n]
            elif n not in base:
                base[n] = self._sample(info)
        return base

    def need_witness(self):
        """make sure there is at least one witness (else solve)."""
        if self.wits:
            return True
        if not self.pcs:
            self.wits = [{n: self._sample(i) for n, i in self.inputs.items()}]
            return True
        ns = []
        for p in self.pcs:
            ns += solve.sb_all(p)
        try:
            r, m = solve.check([], self.timeout, None, self.pcs, slim=False)
        except (NaNPoison, ZeroDivisionError):
            r = 'unsat'
        if r == 'unsat':
            raise Infeasible()
        if r == 'sat':
            w = self.complete(m)
            if all(eval_sb(p, w) for p in self.pcs):
                self.wits = [w]
                return True
        # rejection sampling
        for _ in range(300):
            w = {n: self._sample(i) for n, i in self.inputs.items()}
            if all(eval_sb(p, w) for p in self.pcs):
                self.wits = [w]
                return True
        w = self.climb()
        if w is not None:
            self.wits = [w]
            return True
        self.unsure = True
        return False

    def assume(self, b):
        if isinstance(b, SB):
            self.pcs.append(b)
            self._learn(b)
            self._filter(b, True)
            if not self.wits:
                for _ in range(2000):
                    w = {n: self._sample(i) for n, i in self.inputs.items()}
                    if all(eval_sb(p, w) for p in self.pcs):
                        self.wits.append(w)
                        if len(self.wits) >= 4:
                            break
                if not self.wits:
                    self.need_witness()
        elif not b:
            raise Infeasible()

    def define(self, b):
        """contract of a stub: a fact about derived values."""
        self.pcs.append(b)
        self.defs.append(b)
        self._learn(b)

    # -- numerical search for a witness
    def climb(self, extra=(), starts=(), seconds=1.5):
        """random hill climbing towards a valuation of the inputs that
        satisfies the path conditions and ``extra``.  Only used to find
        witnesses: what it returns is checked by evaluation."""
        import time
        total = self.budget.setdefault('climb', self.opts.get('climb', 20.))
        if total <= 0. or not self.inputs:
            return None
        conds = [p for p in self.pcs if not any(p is d for d in self.defs)]
        conds += list(extra)
        t0 = time.time()
        end = t0 + min(seconds, total)
        names = list(self.inputs)
        import random
        rng = random.Random(self.rng.random())

        def cost(w):
            memo = {}
            try:
                return sum(penalty(c, w, memo) for c in conds)
            except (Unsupported, ArithmeticError, ValueError, TypeError,
                    np.linalg.LinAlgError):
                return float('inf')

        def ok(w):
            try:
                return all(eval_sb(p, w) for p in self.pcs) and \
                    all(eval_sb(p, w) for p in extra)
            except (Unsupported, ArithmeticError, ValueError):
                return False
        found = None
        pool = [dict(w) for w in starts]
        while found is None and time.time() < end:
            if pool:
                w = pool.pop(0)
                for n, i in self.inputs.items():
                    w.setdefault(n, rng.uniform(*i.sample))
                c = cost(w)
            else:
                c = float('inf')
                for _ in range(6):
                    x = {n: rng.uniform(*i.sample)
                         for n, i in self.inputs.items()}
                    k = cost(x)
                    if k < c:
                        c, w = k, x
                if c == float('inf'):
                    continue
            fails = 0
            step = .5
            while time.time() < end:
                if c <= 0. and ok(w):
                    found = w
                    break
                x = dict(w)
                m = 1 if rng.random() < .6 else rng.randint(
                    1, min(4, len(names)))
                for n in [names[rng.randrange(len(names))] for _ in range(m)]:
                    i = self.inputs[n]
                    if isinstance(x[n], bool):
                        x[n] = not x[n]
                        continue
                    a, b = i.sample
                    u = rng.random()
                    if u < .2:
                        v = rng.uniform(a, b)
                    elif u < .6:
                        v = x[n] + rng.gauss(0., 1.) * step * (b - a)
                    else:
                        v = x[n] * (1. + rng.gauss(0., 1.) * step)
                    if (i.lo is not None and v < i.lo) or \
                            (i.hi is not None and v > i.hi):
                        continue
                    if i.pos and v <= 0.:
                        continue
                    x[n] = v
                k = cost(x)
                if k < c or (k == c and rng.random() < .3):
                    fails = 0 if k < c else fails + 1
                    w, c = x, k
                else:
                    fails += 1
                    if fails % 40 == 0:
                        step *= .4
                    if fails > 200:
                        break
        self.budget['climb'] -= time.time() - t0
        return found

    # -- integers
    def int_of(self, s):
        """truncation towards zero -> forks over the integer value."""
        v = self.floor_int(s if bool(s >= 0) else -s)
        return v if bool(s >= 0) else -v

    def floor_of(self, s):
        return S(X.C(self.floor_int(s)))

    def floor_int(self, s):
        """forks over the feasible integer values (bounded)."""
        if s.n.op == 'c':
            return math.floor(s.n.args[0])
        if self.opts.get('int_opaque'):
            # any value in (s - 1, s]: only good for being printed
            src = s.n
            r = self.freshvar('int', defn=lambda v: math.floor(
                X.evalf(src, v)))
            self.define(and_([r <= s, s - r < 1]))
            return r
        lim = self.opts.get('int_fork', 8)
        self.need_witness()
        cand = sorted({math.floor(X.evalf(s.n, w)) for w in self.wits})
        for _ in range(lim):
            if not cand:
                break
            k = cand.pop(0)
            if bool(and_([s >= k, s < k + 1])):
                return k
            self.need_witness()
            cand = sorted({math.floor(X.evalf(s.n, w)) for w in self.wits})
        raise Unsupported('unbounded integer conversion')

    def round_of(self, s, nd):
        nd = nd or 0
        tol = 0.5 * 10.0 ** (-nd)
        src = s.n
        r = self.freshvar('rnd', defn=lambda v: round(X.evalf(src, v), nd))
        self.define(and_([r - s <= tol, s - r <= tol]))
        return r

    # -- text
    def num(self, name_or_s, fmt='.9f', lo=None, hi=None, **kw):
        """(text, value) of a numeric token in an input file."""
        s = self.real(name_or_s, lo, hi, **kw) \
            if isinstance(name_or_s, str) else name_or_s
        return self.token(s), s

    def token(self, s, width=None, neg=False):
        """Unique decimal token standing for the symbolic value."""
        if not isinstance(s, S):
            return repr(float(s)).rjust(width or 0)
        self.tokn += 1
        txt = '%d.%06d' % (self.tokn % 7 + 1, 100003 + 7 * self.tokn)
        self.tokens[float(txt)] = s
        self.tokens[-float(txt)] = -s
        if width:
            txt = txt.rjust(width)
        return txt

    _spec = re.compile(r'^(?P<fill>.?[<>=^])?(?P<sign>[+\- ])?#?(?P<z>0)?'
                       r'(?P<w>\d+)?,?(\.(?P<p>\d+))?(?P<t>[a-zA-Z%])?$')

    def format_token(self, s, spec):
        m = self._spec.match(spec)
        if not m:
            raise Unsupported('format spec %r' % spec)
        t = m.group('t') or ''
        if t == 'd':
            raise ValueError("Unknown format code 'd' for object of type "
                             "'float'")
        if s.n.op == 'c':
            return format(float(s.n.args[0]), spec)
        p = m.group('p')
        p = int(p) if p is not None else (6 if t else 12)
        self.tokn += 1
        k = self.tokn
        if t in ('f', 'F', '%') and p < 4:
            # rounded to a few decimals: use large unique integers part
            v = float('%d.%s' % (1000 + k, '1' * p if p else '0'))
        elif t in ('f', 'F'):
            v = float('1.%0*d' % (p, k * 3 + 1000))
        elif t in ('e', 'E', 'g', 'G'):
            pp = max(p - (1 if t in 'gG' else 0), 0)
            v = float('1.%s' % str(k * 3 + 1000).rjust(min(max(pp, 5), 12),
                                                      '0')) * 10.
            if pp < 5:
                v = float('%d' % (1000 + k))
        else:
            v = float('1.%09d' % (k * 3 + 1000))
        txt = format(v, spec)
        try:
            v = float(txt)
        except ValueError:
            return txt
        if t in ('f', 'F'):
            tol = 0.5 * 10.0 ** (-p)
        else:
            tol = None
        src = s
        if v in self.tokens and self.tokens[v] is not s:
            raise Unsupported('token clash for %r' % spec)
        self.tokens[v] = ('fmt', src, t, p)
        self.tokens[-v] = ('fmt-', src, t, p)
        return txt

    def token_value(self, f):
        """float parsed from text -> symbolic value, when it is a token."""
        t = self.tokens.get(f)
        if t is None:
            return f
        if isinstance(t, S):
            return t
        kind, src, ty, p = t
        key = ('tok', src.n.id, ty, p)
        r = self.out.get(key)
        if r is None:
            node = src.n
            spec = '.%d%s' % (p, ty or 'r') if ty else ''
            r = self.freshvar('tok', defn=lambda v: float(
                format(X.evalf(node, v), spec)))
            if ty in ('f', 'F'):
                tol = Fraction(1, 2 * 10 ** p)
                self.define(and_([r - src <= tol, src - r <= tol]))
            else:
                d = p if ty in ('g', 'G', '') else p + 1
                rt = Fraction(1, 2 * 10 ** (d - 1)) if ty else \
                    Fraction(1, 10 ** 15)
                a = S(X.fn('abs', src.n))
                self.define(and_([r - src <= rt * a, src - r <= rt * a]))
            self.out[key] = r
        return r if kind == 'fmt' else -r

    def printed(self, text):
        """the value behind a printed number (before rounding)."""
        f = float(text)
        t = self.tokens.get(f)
        if t is None or isinstance(t, S):
            return f if t is None else t
        return t[1] if t[0] == 'fmt' else -t[1]

    # -- derivatives
    def deriv(self, f, x, n=1):
        if x.n.op != 'v':
            raise Unsupported('derivative w.r.t. a non variable')
        y = f(x)
        if isinstance(y, np.ndarray):
            y = y.item()
        node = lift(y)
        for _ in range(n):
            node = X.diff(node, x.n)
        return S(node)

    def derivs_at(self, f, x0, n=1):
        """[f, f', .., f^(n)] at x0."""
        self.fresh += 1
        x0n = lift(x0)
        z = self.real('z#%d' % self.fresh, pos=True, sample=(0.5, 2.))
        X.VARS[z.n.args[0]].defn = lambda v: X.evalf(x0n, v)
        y = f(z)
        if isinstance(y, np.ndarray):
            y = y.item()
        node = lift(y)
        out = []
        m = {z.n.args[0]: x0n}
        for k in range(n + 1):
            out.append(S(X.subst(node, m)))
            if k < n:
                node = X.diff(node, z.n)
        return out

    def deriv_arr(self, f, x, n=1):
        y = f(x)
        out = np.empty(np.shape(y), dtype=object)
        for idx in np.ndindex(*out.shape):
            node = lift(y[idx])
            for _ in range(n):
                node = X.diff(node, x.n)
            out[idx] = S(node)
        return self.mkarr(out)

    def at(self, y, x, value):
        """y with variable x replaced by value."""
        v = lift(value)
        return S(X.subst(lift(y), {x.n.args[0]: v}))

    # -- modules
    def load(self, name):
        return self.loader.load(name)

    def mkarr(self, a):
        return self.loader.mkarr(a)

    # -- checks
    def check_eq(self, label, a, b, rtol=1e-7, atol=0., scale=None,
                 ctol=None, catol=None):
        """a == b on this path for all inputs."""
        self.budget['checks'] += 1
        la, lb = self._node(a), self._node(b)
        if la is None or lb is None:
            ok = False
            try:
                ok = bool(a == b)
            except Exception:
                pass
            if ok:
                self._ok(label)
            else:
                self._concrete_fail(label, 'values %r / %r' % (a, b))
            return
        self.records.append((label, la, lb, rtol, max(atol, catol or 0.)))
        if la is X.NAN or lb is X.NAN:
            if la is lb:
                self._ok(label)
            else:
                self._concrete_fail(label, 'nan')
            return
        res, model = self._eq(la, lb, rtol, atol)
        if res == 'ok':
            self._ok(label)
        elif res == 'viol':
            self._fail(label, model)
        elif res == 'infeasible':
            raise Infeasible()
        else:
            self._unknown(label, res)

    def _node(self, a):
        if isinstance(a, np.ndarray):
            a = a.item() if a.size == 1 else None
        return lift(a)

    def _differs(self, la, lb, w, rtol, atol):
        memo = {}
        u = X.evalf(la, w, memo)
        v = X.evalf(lb, w, memo)
        if u != u or v != v:
            return None
        return abs(u - v) > max(1e-6, rtol) * max(abs(u), abs(v)) + atol \
            + 1e-13

    def _eq(self, la, lb, rtol, atol):
        if la is lb:
            solve.STATS.structural += 1
            return 'ok', None
        try:
            res, m, close = solve.prove_eq(la, lb, self.pcs, self.timeout,
                                           rtol=min(rtol, 1e-6))
        except (NaNPoison, ZeroDivisionError) as e:
            res = 'differ'
        except Unsupported as e:
            res = 'differ'
            self.notes.append('nf: %s' % e)
        if res == 'unsat' or self._by_definition(la, lb):
            return 'ok', None
        # look for a counterexample numerically, confirm with the solver
        wits = list(self.wits)
        for _ in range(40):
            w = {n: self._sample(i) for n, i in self.inputs.items()}
            if all(eval_sb(p, w) for p in self.pcs
                   if not any(p is d for d in self.defs)):
                wits.append(w)
        cand = None
        for w in wits:
            d = self._differs(la, lb, w, rtol, atol)
            if d:
                cand = w
                break
        ne = or_([SB('<', la, lb), SB('>', la, lb)])
        if atol or rtol > 1e-7:
            tol = X.C(X.rat(atol))
            if rtol > 1e-7:
                tol = X.add(tol, X.mul(X.C(X.rat(rtol)), X.fn('abs', lb)))
            ne = or_([SB('>', X.add(la, X.neg(lb)), tol),
                      SB('<', X.add(la, X.neg(lb)), X.neg(tol))])
        if cand is not None:
            pins = {n: Fraction(repr(float(v))) for n, v in cand.items()
                    if n in self.inputs}
            try:
                r, m = solve.check([ne], self.timeout, pins, self.pcs)
            except (Unsupported, NaNPoison, ZeroDivisionError):
                r = 'unknown'
            return 'viol', cand
        try:
            r, m = solve.check([ne], self.timeout, None, self.pcs)
        except (NaNPoison, ZeroDivisionError):
            return 'ok' if not self.wits else 'unknown', None
        except Unsupported as e:
            return 'unknown', None
        if r == 'unsat':
            return 'ok', None
        start = list(wits)
        if r == 'sat':
            w = self.complete(m)
            start.insert(0, w)
            if all(eval_sb(p, w) for p in self.pcs):
                if self._differs(la, lb, w, rtol, atol):
                    return 'viol', w
        w = self.climb([ne], start)
        if w is not None and self._differs(la, lb, w, rtol, atol):
            return 'viol', w
        if not self.wits:
            try:
                self.need_witness()
            except Infeasible:
                return 'infeasible', None
        return 'unknown:%s' % r, None

    def _by_definition(self, la, lb):
        """the equality is a multiple of one of the contract equalities."""
        eqs = self.captured.setdefault('eqs', {})
        for d in self.defs:
            if d.op == '==' and id(d) not in eqs:
                try:
                    eqs[id(d)] = (d, X.nf_sub(X.to_nf(d.args[0]),
                                              X.to_nf(d.args[1])))
                except (Unsupported, NaNPoison, ZeroDivisionError):
                    eqs[id(d)] = (d, None)
        if not eqs:
            return False
        try:
            D = X.nf_sub(X.to_nf(la), X.to_nf(lb))
        except (Unsupported, NaNPoison, ZeroDivisionError):
            return False
        for d, nf in list(eqs.values()):
            if nf is None or len(nf.num) != len(D.num):
                continue
            # the same terms up to rounding of the unit constants: zero
            # within 1e-6 of the size of the terms
            if X.nf_ratio(D, nf, Fraction(1, 10 ** 6)) is not None:
                solve.STATS.structural += 1
                return True
        return False

    def check(self, label, cond):
        """cond (bool or SB) holds for all inputs of this path."""
        self.budget['checks'] += 1
        if not isinstance(cond, SB):
            if isinstance(cond, np.ndarray):
                cond = bool(cond.all())
            if cond:
                self._ok(label)
            else:
                self._concrete_fail(label, 'condition is False')
            self.records.append((label, bool(cond), None, 0, 0))
            return
        self.records.append((label, cond, None, 0, 0))
        neg = not_(cond)
        for w in self.wits:
            if eval_sb(neg, w):
                self._fail(label, w)
                return
        if self._known(cond) is True:
            self._ok(label)
            return
        try:
            r, m = solve.check([neg], self.timeout, None, self.pcs)
        except (NaNPoison, ZeroDivisionError, Unsupported) as e:
            r = 'unknown'
        if r == 'unsat':
            self._ok(label)
            return
        if r == 'sat':
            w = self.complete(m)
            if all(eval_sb(p, w) for p in self.pcs) and eval_sb(neg, w):
                self._fail(label, w)
                return
        for _ in range(200):
            w = {n: self._sample(i) for n, i in self.inputs.items()}
            if all(eval_sb(p, w) for p in self.pcs) and eval_sb(neg, w):
                self._fail(label, w)
                return
        w = self.climb([neg], self.wits)
        if w is not None:
            self._fail(label, w)
            return
        self._unknown(label, r)

    def check_true(self, label, cond, detail=''):
        self.check(label, cond)

    def reach(self):
        """reachability twin: the current path condition is satisfiable."""
        if self.need_witness():
            self.budget['reach'] = self.budget.get('reach', 0) + 1

    def _ok(self, label):
        self.results.append((label, 'ok', None))

    def _valuation(self, w):
        vals = {n: w[n] for n in self.inputs if n in w and '#' not in n}
        return {'reals': vals, 'choices': {k: repr_choice(v) for k, v in
                                           self.choices.items()}}

    def _concrete_fail(self, label, why):
        if not self.wits:
            self.need_witness()
        w = self.wits[0] if self.wits else {}
        self.results.append((label, 'viol', dict(w)))

    def _fail(self, label, w):
        self.results.append((label, 'viol', dict(w)))

    def _unknown(self, label, why):
        self.results.append((label, 'unknown', why))

    def h5(self, path):
        """{'/name': (data, attrs)} of an HDF5 file written by the code;
        the attributes of the file itself are under ''."""
        f = self.captured[os.path.abspath(path)]
        out = f.walk()
        out[''] = (None, dict(f.attrs))
        return out

    # captured files (h5py etc.)
    def value(self, s, w):
        return X.evalf(lift(s), w)


def Node_v(name):
    return X.Node('v', name)


def repr_choice(v):
    return v


# --------------------------------------------------------------------------
class ConcEnv(BaseEnv):
    mode = 'conc'
    sym = False

    def __init__(self, h, opts, reals, choices, rng=None):
        BaseEnv.__init__(self, h, opts)
        self.reals = reals
        self.choices_in = choices
        self.choices = {}
        self.failed = []
        self.inputs = {}
        self.rng = rng
        self.rand_choice = rng is not None

    def real(self, name, lo=None, hi=None, pos=None, sample=None):
        if name in self.reals:
            v = float(self.reals[name])
        else:
            # drawn; a replay has no value where the symbolic run ended
            # before the variable was made
            rng = self.rng or random.Random(name)
            if pos is None:
                pos = lo is not None and lo > 0
            if sample is None:
                a = lo if lo is not None else (1e-2 if pos else -3.)
                b = hi if hi is not None else max(a * 3, a + 6.)
                if hi is not None and lo is None and not pos:
                    a = min(-3., hi - 6)
                sample = (a, b)
            v = rng.uniform(*sample)
            self.reals[name] = v
        self.inputs[name] = v
        return v

    def angle(self, name):
        return self.real(name, sample=(-3.1, 3.1))

    def choice(self, name, options):
        options = list(options)
        if name in self.choices_in:
            v = self.choices_in[name]
            for o in options:
                if o == v or repr(o) == repr(v):
                    v = o
                    break
        elif self.rng is not None:
            v = self.rng.choice(options)
        else:
            v = options[0]
        self.choices[name] = v
        return v

    def branch(self, b):
        if isinstance(b, SB):
            raise TypeError('symbolic value in a concrete run')
        return bool(b)

    def assume(self, b):
        if not b:
            raise AssumeFailed()

    def define(self, b):
        return

    def num(self, name_or_s, fmt='.9f', lo=None, hi=None, **kw):
        v = self.real(name_or_s, lo, hi, **kw) \
            if isinstance(name_or_s, str) else name_or_s
        return self.token(v), v

    def token(self, v, width=None, neg=False):
        txt = repr(float(v))
        if 'e' in txt or 'inf' in txt:
            txt = '%.12f' % v
        if width:
            txt = txt.rjust(width)
        return txt

    def printed(self, text):
        return float(text)

    def deriv(self, f, x, n=1):
        h = max(abs(x), 1e-3) * (1e-3 if n == 1 else 4e-3)

        def g(z):
            r = f(z)
            return float(r.item() if isinstance(r, np.ndarray) else r)
        if n == 1:
            def cd(h):
                return (g(x + h) - g(x - h)) / (2 * h)
        elif n == 2:
            def cd(h):
                return (g(x + h) - 2 * g(x) + g(x - h)) / h ** 2
        elif n == 3:
            def cd(h):
                return (g(x + 2 * h) - 2 * g(x + h) + 2 * g(x - h)
                        - g(x - 2 * h)) / (2 * h ** 3)
        a, b, c = cd(h), cd(h / 2), cd(h / 4)
        r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
        return (16 * r2 - r1) / 15

    def derivs_at(self, f, x0, n=1):
        return [self.deriv(f, x0, k) if k else float(np.asarray(f(x0)))
                for k in range(n + 1)]

    def deriv_arr(self, f, x, n=1):
        y = np.asarray(f(x))
        out = np.empty(y.shape)
        for idx in np.ndindex(*y.shape):
            out[idx] = self.deriv(lambda z: np.asarray(f(z))[idx], x, n)
        return out

    def h5(self, path):
        import h5py
        out = {}
        with h5py.File(path, 'r') as f:
            out[''] = (None, dict(f.attrs))

            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    out['/' + name] = (o[()], dict(o.attrs))
            f.visititems(visit)
        return out

    def load(self, name):
        return self.loader.load(name)

    def mkarr(self, a):
        a = np.asarray(a)
        if a.dtype == object:
            a = a.astype(np.float64)
        return a

    def check_eq(self, label, a, b, rtol=1e-7, atol=0., scale=None,
                 ctol=None, catol=None):
        try:
            u = float(a.item() if isinstance(a, np.ndarray) else a)
            v = float(b.item() if isinstance(b, np.ndarray) else b)
        except Exception:
            ok = False
            try:
                ok = bool(a == b)
            except Exception:
                pass
            self.records.append((label, None, None, ok))
            if not ok:
                self.failed.append((label, '%r != %r' % (a, b)))
            return
        if u != u and v != v:
            ok = True
        else:
            ct = ctol or self.opts.get('conc_rtol', 1e-5)
            ok = abs(u - v) <= max(rtol, ct) * max(abs(u), abs(v)) + \
                max(atol, catol or 0., 1e-12) + (scale or 0) * ct
        self.records.append((label, u, v, ok))
        if not ok:
            self.failed.append((label, '%.12g != %.12g' % (u, v)))

    def check(self, label, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        ok = bool(cond)
        self.records.append((label, None, None, ok))
        if not ok:
            self.failed.append((label, 'condition false'))

    def check_true(self, label, cond, detail=''):
        self.check(label, cond)
        if not cond and detail and self.failed:
            self.failed[-1] = (label, detail)

    def reach(self):
        return
