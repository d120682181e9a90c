# -*- coding: utf-8 -*-
"""R01: what (quasi-)harmonic calculations show on screen and in the log."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
import qcommon as qc
import Q04
from C01 import Screen
from H04 import settings as ha_settings

BOUNDS = ('symbolic volumes, energies, results and fit parameters; 3-5 '
          'volumes, 2 temperatures x 3 pressures, 2 bands x 2 modes; every '
          'unit of the command line, the four equations of state; fit '
          'uncertainties from 1e-5 to 1e3, zero and infinite')
OUTSIDE = ('elapsed times and decorations of the text; the values themselves '
           '(H01-H05, Q01-Q04)')
ASSUMPTIONS = ['scipy.optimize.curve_fit is replaced by given parameters and '
               'covariances']


def rows(text, mark, after=0):
    """the numeric rows of the table whose heading contains ``mark``."""
    L = text.splitlines()
    at = [i for i, s in enumerate(L) if mark in s and i >= after]
    if not at:
        return None, None, 0
    i = at[0] + 1
    out = []
    while i < len(L):
        w = L[i].split()
        if w and set(''.join(w)) <= set('-|=+'):
            i += 1
            continue
        try:
            [float(q) for q in w]
        except ValueError:
            break
        if not w:
            break
        out.append(w)
        i += 1
    return L[at[0]], out, i


def decimals(w):
    w = w.lower().split('e')[0]
    return len(w.split('.')[1]) if '.' in w else 0


def shown(env, label, text, value, rel=False):
    """the number in the report is the value, rounded to what is shown."""
    d = decimals(text)
    env.check_true(label + ': enough digits', d >= 1 or not rel,
                   detail=text)
    tol = .51 * 10. ** -d
    if 'e' in text.lower():
        env.check_eq(label, env.printed(text), value, rtol=1e-7,
                     ctol=max(1e-7, 2. * tol))
    else:
        env.check_eq(label, env.printed(text), value, rtol=1e-7, catol=tol)


def columns(head):
    """quantities of a heading, with their units."""
    return [s.strip() for s in re.split(r'\)\s+', head.strip())]


def general(env, t, nv, nat, nk, nfr):
    env.check_true('job', 'Job: A job' in t, detail=t[:300])
    for k, n in (('of volumes', nv), ('of atoms', nat), ('k-points', nk),
                 ('of frequencies', nfr)):
        L = [s for s in t.splitlines() if k in s and s.strip()[:1] == '-']
        env.check_true('Number ' + k, len(L) == 1 and
                       L[0].split()[-1] == str(n), detail=str(L))


def ha_input(env):
    e = env.choice('energy', sorted(qc.EU))
    v = env.choice('volume', sorted(qc.VU))
    w = env.choice('weights', [[1.], [1., 4., 3.]])
    V = env.arr('V', 3, pos=True, sample=(60., 90.))
    U = env.arr('U', 3, sample=(-9., -1.))
    s = Screen(env)
    st = ha_settings((300., 300., 1.), e=e)
    st.update(lenght_unit=v, silent=False)
    c = env.load('quantas.harmonic.harmonic').HACalculator(st)
    c.input = qc.data(env, V, U, [[[1., 1., 1.]] * 6] * len(w), w)
    c.input.natoms = 2
    c.report_input_data()
    t = s.text()
    general(env, t, 3, 2, len(w), int(6 * sum(w)))
    head, R, i = rows(t, 'Volume (%s^3)' % v)
    env.check_true('table of energies', R is not None and len(R) == 3 and
                   head.index('Volume') < head.index('Energy (%s)' % e),
                   detail=t)
    for i in range(3):
        shown(env, 'volume', R[i][0], V[i])
        shown(env, 'energy', R[i][1], U[i], True)


def qha_input(env):
    """the pressures of the static curve, from its energies."""
    e, v, p, tu = env.choice('units', qc.UNITS)
    V = [60., 64., 68., 73., 78.]
    a = env.real('a', sample=(-9., -1.))
    b = env.real('b', sample=(-.01, .01))
    line = env.choice('curve', ['line', 'parabola']) == 'line'
    g = 0. if line else env.real('g', pos=True, sample=(.001, .01))
    U = [a + b * x + g * x * x for x in V]
    s = Screen(env)
    st = qc.settings(e=e, v=v, p=p, t=tu)
    st['silent'] = False
    c = env.load(qc.MOD).QHACalculator(st)
    c.input = qc.data(env, V, U, [[[1.] * 5] * 6] * 2, [2., 3.])
    c.input.natoms = 2
    c.report_input_data()
    t = s.text()
    general(env, t, 5, 2, 2, 30)
    head, R, i = rows(t, 'Volume (%s^3)' % v)
    pv = qc.PU[p] * qc.VU[v] / qc.EU[e]
    table(env, head, R, p, v, e, V, U, [
        -(b + 2. * g * x) / pv if line or 0 < i < 4 else None
        for i, x in enumerate(V)])


def table(env, head, R, p, v, e, V, U, P):
    env.check_true('table of energies', R is not None and
                   len(R) == len(V) and -1 < head.find('Pressure (%s)' % p)
                   < head.find('Volume (%s^3)' % v)
                   < head.find('Energy (%s)' % e), detail=repr(head))
    for i in range(len(V)):
        env.check_true('columns', len(R[i]) == 3)
        if P[i] is not None:
            env.check_eq('pressure', env.printed(R[i][0]), P[i], rtol=1e-6,
                         catol=.51 * 10. ** -decimals(R[i][0]))
        shown(env, 'volume', R[i][1], V[i])
        shown(env, 'energy', R[i][2], U[i], True)


ERR = [0., 2.3e-5, 4.2e-3, 9.7e-3, .5, .96, 3., 9.7, 12., 97., 254., float(
    'inf')]


def eos_input(env):
    """parameters, uncertainties and pressures of the static equation."""
    import scipy.optimize
    e, v, p, tu = env.choice('units', qc.UNITS[:4])
    fun = env.choice('eos', ['murnaghan', 'birchmurnaghan', 'vinet',
                             'pouriertarantola'])
    err = env.choice('error', ERR) if (e, fun) == ('eV', 'vinet') else \
        env.choice('error', [.002])
    pv = qc.PU[p] * qc.VU[v] / qc.EU[e]
    par = [env.real('E0', sample=(-9., -1.)),
           env.real('K0', pos=True, sample=(50., 90.)),
           env.real('Kp', pos=True, sample=(3., 5.)),
           env.real('V0', pos=True, sample=(66., 74.))]
    sd = [err, err * pv, err, err]

    def fake(f, xdata, ydata, p0=None, *a, **k):
        return env.mkarr([par[0], par[1] * pv, par[2], par[3]]), env.mkarr(
            [[sd[i] ** 2 if i == j else 0. for j in range(4)]
             for i in range(4)])
    env.patch(scipy.optimize, 'curve_fit', fake)
    V, U, W = qc.crystal(env, 5, e)
    s = Screen(env)
    st = qc.settings(e=e, v=v, p=p, t=tu, mini='eos', eos=fun)
    st['silent'] = False
    c = env.load(qc.MOD).QHACalculator(st)
    c.input = qc.data(env, V, U, [W])
    c.report_input_data()
    t = s.text()
    E = env.load('quantas.qha.utils.ev_eos').EnergyEOS()
    P = E.pressure(fun, env.mkarr(par), env.mkarr(V))
    head, R, i = rows(t, 'Volume (%s^3)' % v)
    table(env, head, R, p, v, e, V, U, list(P))
    for k, n in enumerate(('E0', 'K0', "K'", 'V0')):
        L = [x for x in t.splitlines() if x.startswith(n + ' = ')]
        env.check_true(n + ' reported', len(L) == 1, detail=t)
        m = re.match(r'(\S+)\((\S+)\)$', L[0].split(' = ')[1])
        env.check_true(n + ' with its error', m is not None, detail=L[0])
        x, q = m.groups()
        if err in (0., float('inf')):
            env.check_eq(n, env.printed(x), par[k], rtol=1e-9)
            env.check_true('error of ' + n, float(q) == err, detail=L[0])
            continue
        # x(q): q is the uncertainty on the last digits of x
        d = decimals(x)
        env.check_true('error of %s (%g)' % (n, err), abs(
            int(q) * 10. ** -d - err) <= .0501 * 10. ** (
            np.floor(np.log10(err)) + 1) or abs(int(q) * 10. ** -d - err)
            <= .0501 * err, detail=L[0])
        env.check_eq(n, env.printed(x), par[k], rtol=1e-9,
                     catol=.501 * 10. ** -d)


def results(env):
    u = env.choice('units', qc.UNITS)
    s = Screen(env)
    c, T, P = Q04.qha(env, '', u)
    c.silent = False
    s.shown[:] = []
    c.report_results()
    t = s.text()
    e, v, p, tu = u
    at = 0
    for j in range(3):
        L = t.splitlines()
        h = [i for i in range(at, len(L)) if 'Results at' in L[i]]
        env.check_true('heading', len(h) == 3 - j, detail=t)
        w = L[h[0]].split('Results at')[1].split()
        env.check_eq('pressure', float(w[0]), P[j])
        env.check_true('pressure unit', w[1] == p, detail=L[h[0]])
        head, R, at = rows(t, 'T (%s)' % tu, h[0])
        q = re.findall(r'(\S+) \(([^)]*)\)', head)
        env.check_true('columns', [x[1] for x in q] == [
            tu, v + '^3', 'K^-1', p, p, 'J/mol K'], detail=head)
        env.check_true('quantities', [x[0] for x in q][3:] == [
            'KT', 'KS', 'Cp-Cv'] and q[1][0].startswith('V'), detail=head)
        env.check_true('rows', len(R) == 2 and all(
            len(x) == 6 for x in R), detail=t)
        for i in range(2):
            r = c.results
            lab = '[%d,%d]' % (i, j)
            env.check_eq('T' + lab, float(R[i][0]), T[i])
            shown(env, 'V' + lab, R[i][1], r['VT'][i, j])
            shown(env, 'alpha' + lab, R[i][2], r['alphaV'][i, j])
            shown(env, 'KT' + lab, R[i][3], r['KT'][i, j])
            shown(env, 'KS' + lab, R[i][4], r['KS'][i, j])
            # milli-(energy unit) per cell and kelvin -> J/(mol K)
            shown(env, 'Cp-Cv' + lab, R[i][5], r['Cp-Cv'][i, j] * (
                qc.EU[e] * qc.NA * 1e-3))


def fit(env):
    """quality of the interpolated frequencies."""
    s = Screen(env)
    st = qc.settings(scheme='freq', edeg=2, fdeg=1, e='eV', f='Hz')
    st['silent'] = False
    C = env.load(qc.MOD).QHACalculator
    if not hasattr(C, 'minimize_volume') or not hasattr(C, '_finalize_run'):
        from vx.expr import Unsupported
        raise Unsupported('minimize_volume')
    env.patch(C, 'minimize_volume', lambda *a, **k: (68., 1., 4.))
    env.patch(C, '_finalize_run', lambda *a, **k: None)
    V = qc.VOLS[4]
    c = C(st)
    W = [[[env.real('w%d%d%d' % (i, k, n), pos=True,
                    sample=(90. - 4. * n, 99. - 2. * n)) if k == i else
           300. - 3. * n + (n % 2) * 30. * k for n in range(4)]
          for k in range(2)] for i in range(2)]
    c.input = qc.data(env, V, [-1., -2., -2., -1.], W, [1., 2.])
    lsq = qc.Lsq(env, V, 1)
    R2 = []
    for i in range(2):
        R2.append([])
        for k in range(2):
            y = W[i][k]
            m = (y[0] + y[1] + y[2] + y[3]) / 4.
            a = b = 0.
            for n in range(4):
                d = lsq.value(y, V[n]) - m
                a = a + d * d
                b = b + (y[n] - m) * (y[n] - m)
            if env.sym:
                env.sign_fact(b, True)
            else:
                env.assume(b > 1e-3)
            R2[i].append(a / b)
    c.run()
    t = s.text()
    band = re.split(r'Band # ', t)[1:]
    env.check_true('bands', [q.split()[0] for q in band] == ['0', '1'],
                   detail=t)
    for i in range(2):
        f = re.findall(r'Frequency\s+(\d+): R\^2 = (\S+)\s+(\S+)', band[i])
        env.check_true('modes', [q[0] for q in f] == ['1', '2'],
                       detail=band[i])
        for k in range(2):
            x = R2[i][k]
            env.check_eq('R^2', env.printed(f[k][1]), x, rtol=1e-6,
                         atol=1e-6)
            ok = {'OK': x >= .9 - 1e-6, 'BAD!': x < .8 + 1e-6, 'Low': env.And(
                x < .9 + 1e-6, x >= .8 - 1e-6)}
            env.check_true('rating', f[k][2] in ok, detail=f[k][2])
            env.check('rating of a mode', ok[f[k][2]])
        m = re.search(r'Averaged R\^2: (\S+)', band[i])
        env.check_eq('average R^2', env.printed(m.group(1)),
                     (R2[i][0] + R2[i][1]) / 2., rtol=1e-6, atol=1e-6)


def harnesses(tier):
    return [('ha-input', ha_input, {}), ('qha-input', qha_input, {}),
            ('eos-input', eos_input, {'roots': __import__('Q02').middle,
                                      'abs_fork': False}),
            ('results', results, {}),
            ('fit', fit, {'abs_fork': False})]
