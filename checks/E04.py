# -*- coding: utf-8 -*-
"""E04: what an EoS fit hands to the optimiser."""
import numpy as np

BOUNDS = ('6 observations, symbolic data, uncertainties and starting values; '
          'five formulations, orders 2-4, volume and axis data, every '
          'combination of supplied uncertainties, default/partial/full fixing '
          'of parameters; two consecutive fits from the same starting values')
OUTSIDE = 'convergence of the orthogonal-distance-regression optimiser'
ASSUMPTIONS = ['scipy.odr (Model, RealData, ODR) is replaced by recording '
               'stand-ins: what they receive is checked, the optimiser is not '
               'executed',
               'the automatic starting guess is checked on exact data sets '
               'only']
FORMS = ['Murnaghan', 'BirchMurnaghan', 'NaturalStrain', 'Vinet', 'Tait']
ORDERS = {'Murnaghan': [3], 'BirchMurnaghan': [2, 3, 4],
          'NaturalStrain': [2, 3, 4], 'Vinet': [2, 3], 'Tait': [2, 3, 4]}


def fakes(env, log, result):
    import scipy.odr

    class Model(object):
        def __init__(self, fcn, fjacb=None, fjacd=None, extra_args=None,
                     **k):
            self.fcn = fcn
            self.extra = extra_args or []
            log.setdefault('extra_k', []).append(k)

    class RealData(object):
        def __init__(self, x, y=None, sx=None, sy=None, covx=None, covy=None,
                     fix=None, meta=None):
            self.x, self.y, self.sx, self.sy = x, y, sx, sy

    class ODR(object):
        def __init__(self, data, model, beta0=None, delta0=None, ifixb=None,
                     ifixx=None, job=None, *a, **k):
            self.maxit = k.get('maxit')
            self.data, self.model = data, model
            self.beta0, self.ifixb = beta0, ifixb
            self.fit_type = (job or 0) % 10

        def set_job(self, fit_type=None, **k):
            if fit_type is not None:
                self.fit_type = fit_type

        def run(self):
            b0 = [self.beta0[i] for i in range(4)]
            log.setdefault('runs', []).append(dict(
                x=self.data.x, y=self.data.y, sx=self.data.sx,
                sy=self.data.sy, beta0=b0, ifixb=list(self.ifixb),
                fit_type=self.fit_type, model=self.model,
                maxit=self.maxit))
            return result(len(log['runs']) - 1) if callable(result) \
                else result

        restart = run

    env.patch(scipy.odr, 'Model', Model)
    env.patch(scipy.odr, 'RealData', RealData)
    env.patch(scipy.odr, 'Data', RealData)
    env.patch(scipy.odr, 'ODR', ODR)


def setup(env, name, n=6):
    log = {}
    result = object()
    fakes(env, log, result)
    mod = env.load('quantas.eosfit.utils.pv_eos')
    eos = getattr(mod, name)()
    V = env.arr('V', n, pos=True, sample=(80., 100.))
    P = env.arr('P', n, sample=(0., 30.))
    return log, result, eos, V, P


def same(env, label, a, b):
    if b is None:
        env.check_true(label + ' absent', a is None)
    else:
        env.check_true(label + ' given', a is not None)
        if a is not None:
            env.check_arr(label, a, b)


def fit(name):
    def h(env):
        log, result, eos, V, P = setup(env, name)
        order = env.choice('order', ORDERS[name])
        linear = env.choice('linear', [False, True])
        hasv = env.choice('sigmaV', [False, True])
        hasp = env.choice('sigmaP', [False, True])
        fixed = env.choice('fixed', [None, [0, 1, 0, 1], [1, 1, 1, 0]])
        sv = env.arr('sV', 6, pos=True, sample=(.01, .05)) if hasv else None
        sp = env.arr('sP', 6, pos=True, sample=(.01, .05)) if hasp else None
        g = [env.real('g0', pos=True, sample=(50., 200.)),
             env.real('g1', sample=(3., 6.)),
             env.real('g2', sample=(-.1, .1)),
             env.real('g3', pos=True, sample=(80., 120.))]
        kind = env.choice('guess', ['list', 'array'])
        guess = list(g) if kind == 'list' else env.mkarr(list(g))
        V0, P0 = V.copy(), P.copy()
        kw = dict(guess=guess, sigmaV=sv, sigmaP=sp, order=order,
                  linear=linear, fixed=fixed)
        flags = [1, 1, 1, 1] if order > 3 else \
            [1, 1, 0, 1] if order == 3 else [1, 0, 0, 1]
        flags = fixed if fixed is not None else flags
        for turn in range(2):
            out = eos.fit(V, P, **kw)
            env.check_true('result returned', out is result)
            r = log['runs'][turn]
            for i in range(4):
                env.check_true('free flag %d' % i,
                               bool(r['ifixb'][i]) == bool(flags[i]))
                if fixed is not None and not flags[i]:
                    env.check_eq('fixed parameter %d' % i, r['beta0'][i],
                                 g[i])
                env.check_eq('starting values kept %d' % i, guess[i], g[i])
            env.check_arr('x is the structural datum', r['x'], V0)
            env.check_arr('y is the pressure', r['y'], P0)
            env.check_true('iterations', r['maxit'] is None
                           or r['maxit'] >= 50, detail=str(r['maxit']))
            same(env, 'x uncertainty', r['sx'], sv)
            same(env, 'y uncertainty', r['sy'], sp)
            env.check_true('errors on both variables only when x has some',
                           r['fit_type'] == (0 if hasv else 2))
            env.check_arr('V kept', V, V0)
            env.check_arr('P kept', P, P0)
            if turn:
                for i in range(4):
                    env.check_eq('same start %d' % i, r['beta0'][i],
                                 log['runs'][0]['beta0'][i])
                break
            # the model that is fitted is the chosen curve
            b = env.mkarr([env.real('b0', pos=True, sample=(50., 200.)),
                           env.real('b1', sample=(3., 6.)),
                           env.real('b2', sample=(-.1, -.01)),
                           env.real('b3', pos=True, sample=(90., 120.))])
            v = env.real('v', pos=True, sample=(80., 90.))
            c = b.copy()
            m = r['model']
            y = m.fcn(b, v, *m.extra)
            ref = eos.eos(c, v, order, linear, True)
            env.check_eq('fitted curve', y, ref, catol=1e-6)
            for i in range(4):
                env.check_eq('reported parameter %d' % i, b[i], c[i],
                             catol=1e-9)
    return h


def guess(env):
    """linear data: V0 and K0 of the guess follow the data exactly."""
    log, result, eos, V, P = setup(env, 'BirchMurnaghan')
    # straight line P = k (v0 - V)/v0: exactly known V(P=0) and -V dP/dV
    k0 = env.real('K0', pos=True, sample=(60., 180.))
    v0 = env.real('V0', pos=True, sample=(90., 110.))
    xs = env.choice('strain', [[0., 0.01, 0.02, 0.03, 0.05, 0.08],
                               [0.01, 0.02, 0.03, 0.05, 0.06, 0.08],
                               [0.05, 0.03, 0.01, 0., -0.01, 0.04]])
    V = env.mkarr([v0 * (1. - x) for x in xs])
    P = env.mkarr([k0 * x for x in xs])
    g = eos.guess(V.copy(), P.copy())
    env.check_eq('guess K0', g[0], k0, ctol=1e-4)
    env.check_eq('guess V0', g[3], v0, ctol=1e-5)
    eos.fit(V, P, guess=None, order=3, linear=False)
    r = log['runs'][0]
    env.check_eq('automatic K0', r['beta0'][0], k0, ctol=1e-4)
    env.check_eq('automatic V0', r['beta0'][3], v0, ctol=1e-5)
    env.check_true('free', [int(x) for x in r['ifixb']] == [1, 1, 0, 1])


def harnesses(tier):
    return [('fit-' + f, fit(f), {'max_paths': 4000, 'validate': 8})
            for f in FORMS] + [('guess', guess, {})]
