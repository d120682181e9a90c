# -*- coding: utf-8 -*-
"""E06: an interactive EoS fitting session does what the user answers."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
import E04
import E05
from vx.expr import Unsupported

BOUNDS = ('4 observations with symbolic data and uncertainties, symbolic '
          'results of the optimiser; every formulation and order, every '
          'structural quantity, fixing and weighting pattern; sessions of up '
          'to 4 fits with and without updated parameters, changed equations '
          'and changed data; accepted defaults, invalid answers')
OUTSIDE = ('the terminal (click) itself; the optimiser; the quality of the '
           'starting guess (E04)')
ASSUMPTIONS = ['click.prompt and click.confirm return the answers of a '
               'script', 'scipy.odr is replaced by recording stand-ins',
               'the automatic guess is a symbolic vector (E04)']
FORMS = {'1': 'Murnaghan', '2': 'BirchMurnaghan', '3': 'NaturalStrain',
         '4': 'Vinet', '5': 'Tait'}
NAMES = {'1': 'murnaghan', '2': 'birch-murnaghan', '3': 'natural strain',
         '4': 'vinet', '5': 'tait'}
DATA = {'v': 'volume', 'a': 'a-axis', 'b': 'b-axis', 'c': 'c-axis'}
EOS = [(k, o) for k in sorted(FORMS) for o in E04.ORDERS[FORMS[k]]]
IMPLIED = {2: [1, 2], 3: [2], 4: []}
DEFAULT = object()


class Fit(object):
    """answers of the user for one fit."""

    def __init__(self, eos=('2', 3), data='v', modify=None, fix=None,
                 weigh=None, update=False, then='stop', newdata=False,
                 neweos=True):
        self.eos, self.data, self.modify, self.fix = eos, data, modify, fix
        self.weigh, self.update, self.then = weigh, update, then
        self.newdata, self.neweos = newdata, neweos


class User(object):
    """the user at the terminal."""

    def __init__(self, env, fits, click, wrong=(), defaults=True):
        self.env, self.fits, self.k = env, fits, 0
        self.wrong = list(wrong)
        self.asked = []
        self.plain = click.unstyle
        self.last = None

    @property
    def fit(self):
        if self.k >= len(self.fits):
            raise Unsupported('question outside of the script')
        return self.fits[self.k]

    def prompt(self, text, default=None, *a, **kw):
        q = self.plain(text).strip()
        low = q.lower()
        f = self.fit
        if 'select' in low:
            kind = 'order' if 'order' in low else \
                'formulation' if 'formulation' in low else 'data'
            self.asked.append(kind)
            if kind in self.wrong:
                self.wrong.remove(kind)
                return {'order': 7, 'formulation': '9', 'data': 'q'}[kind]
            x = {'order': f.eos[1], 'formulation': f.eos[0],
                 'data': f.data}[kind]
            if kind != 'data' and x is DEFAULT:
                return default
            return x
        self.asked.append('value')
        if "''" in low:
            i = 2
        elif "'" in low:
            i = 1
        elif re.match(r'[vabc]0\b', low):
            i = 3
        elif re.match(r'[km]0', low):
            i = 0
        else:
            raise Unsupported('unknown question ' + q)
        if f.modify is None:
            raise Unsupported('value asked')
        return default if f.modify[i] is None else f.modify[i]

    def confirm(self, text, default=False, *a, **kw):
        low = self.plain(text).strip().lower()
        f = self.fit
        if 'modify' in low:
            return f.modify is not None
        if 'fix any' in low:
            return f.fix is not None
        if low.startswith('fix'):
            i = 2 if "''" in low else 1 if "'" in low else \
                3 if re.search(r'\b[vabc]0\b', low) else 0
            return not f.fix[i]
        if 'weight' in low:
            if 'weight the data' in low:
                return f.weigh is not None
            return 'P' in f.weigh if 'pressure' in low else 'x' in f.weigh
        if 'update' in low:
            return f.update
        if 'same data' in low:
            if f.then in ('same', 'eos'):
                self.go = f.then == 'same'
                if f.then == 'same':
                    pass
                return True
            return False
        if 'change the eos' in low:
            r = f.then == 'eos'
            self.k += 1
            return r
        if 'other data' in low:
            r = f.then == 'data'
            self.k += 1
            return r
        raise Unsupported('unknown question ' + low)


class Result(object):
    pass


def session(env, fits, cols, wrong=(), n=4):
    import click
    res = []
    for k in range(len(fits)):
        r = Result()
        r.beta = env.mkarr([env.real('b%d_%d' % (k, i), pos=True,
                                     sample=(1., 90.)) for i in range(4)])
        r.sd_beta = env.arr('sd%d' % k, 4, pos=True, sample=(.1, 2.))
        r.cov_beta = env.arr('cov%d' % k, (4, 4), sample=(-2., 2.))
        r.res_var = env.real('rv%d' % k, pos=True, sample=(.1, 3.))
        r.stopreason = ['Sum of squares convergence', 'second reason %d' % k]
        r.delta = env.arr('dl%d' % k, n, sample=(-1., 1.))
        r.y = env.arr('y%d' % k, n, sample=(0., 30.))
        r.eps = env.arr('ep%d' % k, n, sample=(-1., 1.))
        res.append(r)
    mods = [None if f.modify is None else [
        env.real('m%d_%d' % (k, i), pos=True, sample=(1., 90.))
        if f.modify[i] else None for i in range(4)]
        for k, f in enumerate(fits)]
    for f, m in zip(fits, mods):
        f.modify = m
    g = [env.real('g%d' % i, pos=True, sample=(1., 90.)) for i in range(4)]
    txt, vals = E05.build(env, cols, 'A title', False, 'x', nrow=n)
    log = {}
    used = [[x for x in (r.beta[i] for i in range(4))] for r in res]
    E04.fakes(env, log, lambda k: res[k] if k < len(res) else None)
    u = User(env, fits, click, wrong)
    env.patch(click, 'prompt', u.prompt)
    env.patch(click, 'confirm', u.confirm)
    pv = env.load('quantas.eosfit.utils.pv_eos')
    guessed = []

    def guess(self, V, P):
        guessed.append((type(self).__name__, V.copy(), P.copy()))
        return list(g)
    env.patch(pv.EOS, 'guess', guess)
    mod = env.load('quantas.eosfit.eosfit')
    path = os.path.join(env.tmpdir(), 'fit.log')
    open(path, 'w').close()
    c = mod.EoSFitCalculator({'lenght_unit': 'A', 'pressure_unit': 'GPa',
                              'logfile': path})
    e = c.read_input(env.file(txt))
    env.check_true('input accepted', e is None, detail=str(e))
    c.run()
    env.check_true('completed', bool(c.completed))
    env.check_true('every fit done', len(log.get('runs', [])) == len(fits)
                   and u.k == len(fits), detail='%d %d' % (
                       len(log.get('runs', [])), u.k))
    # what has been fitted
    start, eos, d, prev = None, None, None, {}
    for k, f in enumerate(fits):
        r = log['runs'][k]
        if k == 0 or fits[k - 1].then == 'data':
            start, d = list(g), f.data
        if k == 0 or fits[k - 1].then in ('data', 'eos'):
            eos = tuple(e if x is DEFAULT else x
                        for x, e in zip(f.eos, eos or ('1', 2)))
            if eos[1] not in E04.ORDERS[FORMS[eos[0]]]:
                eos = (eos[0], E04.ORDERS[FORMS[eos[0]]][0])
        tag = 'fit %d: ' % k
        exact = [True] * 4
        if f.modify is not None:
            for i in range(4):
                if f.modify[i] is None:
                    exact[i] = False
                else:
                    start[i] = f.modify[i]
        for i in range(4):
            if exact[i]:
                env.check_eq(tag + 'start %d' % i, r['beta0'][i], start[i])
            else:
                # the default is shown with five decimals
                env.check(tag + 'start %d' % i, env.And(
                    r['beta0'][i] - start[i] <= 1e-5,
                    start[i] - r['beta0'][i] <= 1e-5))
                start[i] = r['beta0'][i]
        flags = [1, 1, 1, 1] if f.fix is None else f.fix
        env.check_true(tag + 'free parameters', [
            int(bool(x)) for x in r['ifixb']] == flags,
            detail='%s %s' % (r['ifixb'], flags))
        env.check_arr(tag + 'x', r['x'], env.mkarr(vals[d]))
        env.check_arr(tag + 'y', r['y'], env.mkarr(vals['p']))
        w = f.weigh or ''
        for nm, key, on in (('sy', 'sigmap', 'P' in w),
                            ('sx', 'sigma' + d, 'x' in w)):
            if on and key in vals:
                env.check_true(tag + nm + ' given', r[nm] is not None)
                if r[nm] is not None:
                    env.check_arr(tag + nm, r[nm], env.mkarr(vals[key]))
            else:
                env.check_true(tag + nm + ' absent', r[nm] is None)
        f.now = (eos, d, flags, w)
        if f.update:
            start = list(used[k])
    # the curve that has been fitted
    for k, f in enumerate(fits):
        (key, order), d = f.now[:2]
        b = env.mkarr([9.25, 4.75, -.0625, 95.])
        ref = getattr(pv, FORMS[key])().eos(b.copy(), np.array([91.]), order,
                                            d != 'v', True)
        m = log['runs'][k]['model']
        y = m.fcn(b.copy(), np.array([91.]), *m.extra)
        env.check_arr('fit %d: curve' % k, y, ref)
    report(env, path, fits, res, used, vals)
    return log, u, guessed


def report(env, path, fits, res, used, vals):
    with open(path) as g:
        L = g.read().splitlines()
    cut = [i for i, s in enumerate(L) if 'formulation:' in s.lower()]
    env.check_true('one report per fit', len(cut) == len(fits),
                   detail=str(len(cut)))
    for k, f in enumerate(fits):
        (key, order), d, flags, w = f.now
        tag = 'report %d: ' % k
        S = L[cut[k]:cut[k + 1] if k + 1 < len(cut) else len(L)]
        env.check_true(tag + 'formulation', S[0].split(':')[1].strip()
                       .lower() == NAMES[key], detail=S[0])
        env.check_true(tag + 'quantity', any(
            DATA[d] in s.lower() for s in L[max(0, cut[k] - 4):cut[k]]))
        o = [s for s in S if 'order:' in s.lower()][0]
        env.check_true(tag + 'order', o.split(':')[1].strip() == str(order),
                       detail=o)
        ws = [s for s in S if 'weighted' in s.lower()]
        wp = 'P' in w and 'sigmap' in vals
        wx = 'x' in w and 'sigma' + d in vals
        env.check_true(tag + 'weights', len(ws) == 2 and
                       ('not' not in ws[0]) == wp and
                       ('not' not in ws[1]) == wx, detail=str(ws))
        par = [s for s in S if '+/-' in s]
        env.check_true(tag + 'parameters', len(par) == 4)
        lab = ['k0', "k'", "k''", 'v0'] if d == 'v' else \
            ['m0(%s)' % d, "m'(%s)" % d, "m''(%s)" % d, '%s0' % d]
        for i, s in enumerate(par):
            name, rest = s.split('=')
            a, b = rest.split('+/-')
            b = b.split()
            env.check_true(tag + 'label', name.strip().lower() == lab[i],
                           detail=s)
            env.check_eq(tag + lab[i], env.printed(a.strip()), used[k][i],
                         catol=6e-6)
            env.check_eq(tag + 'esd ' + lab[i], env.printed(b[0]),
                         res[k].sd_beta[i], catol=6e-6)
            env.check_true(tag + 'flag fixed', ('fixed' in s.lower()) ==
                           (not flags[i]), detail=s)
            env.check_true(tag + 'flag implied', ('implied' in s.lower()) ==
                           (i in IMPLIED[order]), detail=s)
        c = [i for i, s in enumerate(S) if 'ovariance' in s][0]
        for i in range(4):
            q = S[c + 1 + i].split()
            for j in range(4):
                env.check_eq(tag + 'covariance', env.printed(q[j]),
                             res[k].cov_beta[i, j], ctol=6e-6, catol=1e-9)
        s = [s for s in S if 'esidual variance' in s][0]
        env.check_eq(tag + 'residual variance', env.printed(
            s.split(':')[1].strip()), res[k].res_var, catol=6e-5)
        for x in res[k].stopreason:
            env.check_true(tag + 'stop reason', any(x in s for s in S))
        rows = []
        for s in S:
            q = s.split()
            try:
                [float(x) for x in q]
            except ValueError:
                continue
            if len(q) == 5:
                rows.append(q)
        n = len(vals['p'])
        env.check_true(tag + 'rows', len(rows) == n, detail=str(rows))
        for i in range(n):
            for x, y in zip(rows[i], (vals[d][i], res[k].delta[i],
                                      vals['p'][i], res[k].y[i],
                                      res[k].eps[i])):
                env.check_eq(tag + 'datum', env.printed(x), y, catol=6e-6)


COLS = ['P', 'V', 'a', 'b', 'c', 'sigmaP', 'sigmaV', 'sigmaa', 'sigmab']


def single(env):
    """one fit, every formulation, quantity and flag."""
    eos = env.choice('eos', EOS)
    d = env.choice('data', ['v', 'a', 'b', 'c'])
    fix = env.choice('fix', [None, [0, 1, 1, 0], [1, 0, 1, 1],
                             [0, 0, 0, 0], [1, 1, 0, 1]])
    session(env, [Fit(eos, d, fix=fix, weigh='Px')], COLS, n=2)


def axes(env):
    """every axis has its own uncertainties."""
    d = env.choice('data', ['v', 'a', 'b', 'c'])
    w = env.choice('weights', ['x', 'Px'])
    cols = env.choice('columns', [
        ['P', 'V', 'a', 'b', 'c', 'sigmaP', 'sigmaV', 'sigmaa', 'sigmab',
         'sigmac'],
        ['P', 'sigmaa', 'V', 'a', 'sigmac', 'b', 'c', 'sigmaV', 'sigmab',
         'sigmaP'],
        ['P', 'V', 'a', 'b', 'c', 'sigmaP', 'sigmac', 'sigmaV'],
        ['P', 'V', 'a', 'b', 'c', 'sigmaP', 'sigmab', 'sigmaa']])
    session(env, [Fit(('2', 3), d, weigh=w)], cols, n=2)


def weights(env):
    """every answer about the weights, with and without uncertainties."""
    cols = env.choice('columns', [
        COLS, ['V', 'P', 'a'], ['P', 'sigmaP', 'V', 'a'],
        ['P', 'V', 'sigmaV', 'a', 'sigmaa'], ['P', 'V', 'a', 'sigmaV']])
    d = env.choice('data', ['v', 'a'])
    w = env.choice('weights', [None, '', 'P', 'x', 'Px'])
    session(env, [Fit(('3', 3), d, weigh=w)], cols, n=2)


def modify(env):
    """parameters entered by the user, defaults accepted."""
    m = env.choice('modified', [[1, 1, 1, 1], [1, 0, 0, 0], [0, 1, 0, 1],
                                [0, 0, 1, 0], [0, 0, 0, 0]])
    d = env.choice('data', ['v', 'c'])
    fix = env.choice('fix', [None, [0, 1, 1, 0]])
    again = env.choice('again', [False, True])
    fits = [Fit(('2', 4), d, modify=m, fix=fix,
                then='same' if again else 'stop')]
    if again:
        fits.append(Fit(('2', 4), d))
    session(env, fits, COLS, n=2)


def updated(env):
    """two fits of the same data, parameters updated or not."""
    up = env.choice('update', [False, True])
    then = env.choice('then', ['same', 'eos'])
    e2 = env.choice('second', [('2', 4), ('4', 3), ('5', DEFAULT),
                               (DEFAULT, 3), ('1', DEFAULT),
                               (DEFAULT, DEFAULT)])
    mod = env.choice('modify', [None, [0, 0, 0, 1]])
    wr = env.choice('wrong', [(), ('order', 'formulation', 'data')])
    fits = [Fit(('2', 2), 'v', fix=[1, 0, 0, 1], weigh='P', update=up,
                then=then),
            Fit(e2, 'v', modify=mod, weigh='x')]
    session(env, fits, COLS, wrong=wr, n=2)


def changed(env):
    """fits of different data do not influence each other."""
    up = env.choice('update', [False, True])
    d = env.choice('data', [('v', 'a'), ('a', 'v'), ('b', 'c'), ('v', 'v')])
    e2 = env.choice('second', [('3', 2), (DEFAULT, DEFAULT), ('5', 4)])
    fits = [Fit(('2', 3), d[0], modify=[1, 0, 0, 0], fix=[0, 1, 1, 1],
                weigh='Px', update=up, then='data'),
            Fit(e2, d[1], weigh='Px')]
    log, u, guessed = session(env, fits, COLS, n=2)


def guesses(env):
    """the automatic starting point is that of the selected data."""
    d = env.choice('data', [('v', 'a'), ('a', 'c'), ('v', 'v')])
    fits = [Fit(('2', 3), d[0], then='same', update=True),
            Fit(('2', 3), d[0], then='data'), Fit(('4', 2), d[1])]
    log, u, guessed = session(env, fits, COLS, n=2)
    env.check_true('guesses', len(guessed) >= 2)
    for (a, V, P), r in ((guessed[0], 0), (guessed[-1], 2)):
        env.check_arr('guess from the data', V, log['runs'][r]['x'])
        env.check_arr('guess from the pressures', P, log['runs'][r]['y'])


def long(env):
    """a session of four fits."""
    up = [env.choice('update%d' % i, [False, True]) for i in range(3)]
    seq = env.choice('sequence', [('same', 'eos', 'data'),
                                  ('eos', 'data', 'same'),
                                  ('data', 'same', 'eos'),
                                  ('eos', 'eos', 'same'),
                                  ('data', 'data', 'data')])
    eos = [('2', 3), ('4', 2), ('3', 4), (DEFAULT, DEFAULT)]
    dat = ['v', 'a', 'b', 'v']
    fits = []
    for i in range(4):
        d = dat[i] if i == 0 or seq[i - 1] == 'data' else fits[-1].data
        fits.append(Fit(eos[i], d, update=up[i] if i < 3 else False,
                        fix=[None, [1, 0, 1, 1], None, [0, 1, 1, 1]][i],
                        weigh=[None, 'Px', 'x', 'P'][i],
                        modify=[None, None, [0, 1, 0, 0], None][i],
                        then=seq[i] if i < 3 else 'stop'))
    session(env, fits, COLS, n=2)


def harnesses(tier):
    o = {'validate': 8, 'max_paths': 3000}
    return [(f.__name__, f, o) for f in (single, axes, weights, modify,
                                         updated, changed, guesses, long)]
