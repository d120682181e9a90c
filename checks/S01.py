# -*- coding: utf-8 -*-
"""S01: the reader of elastic-constants input files."""
import numpy as np

BOUNDS = ('21 symbolic constants in upper triangular, lower triangular and '
          'complete form; description and density present or not; symbolic '
          'asymmetry of the complete form; ragged rows and text in any of '
          'the six rows; two readers in one session')
OUTSIDE = ('text of the numbers themselves (number tokens are symbolic values); '
           'a blank first line (the test suite requires an IndexError)')
ASSUMPTIONS = ['a numeric token stands for an arbitrary real']
TITLES = [None, 'Periclase (MgO)', '2H-MoS2 polytype', 'alpha-quartz 300 K',
          '-12 sample', 'K-feldspar # 3', '21 constants']


def tokens(env, tag='c'):
    t = {}
    for i in range(6):
        for j in range(i, 6):
            t[i, j] = t[j, i] = env.num(
                '%s%d%d' % (tag, i + 1, j + 1),
                sample=(100., 300.) if i == j else (-20., 60.))
    return t


def text(t, form, title, density, extra=None, sep='  '):
    L = [title] if title is not None else []
    for i in range(6):
        cols = {'upper': range(i, 6), 'lower': range(i + 1),
                'full': range(6)}[form]
        L.append('  ' + sep.join(t[i, j][0] for j in cols) + ' ')
    if density is not None:
        L.append(density)
    return '\n'.join(L) + '\n'


def reader(env):
    return env.load('quantas.IO.soec_reader').SOECInputFileReader


def forms(env):
    t = tokens(env)
    rho = env.num('rho', sample=(-5000., 5000.))
    form = env.choice('form', ['upper', 'lower', 'full'])
    title = env.choice('title', TITLES)
    dens = env.choice('density', [None, '%s', ' %s ', '%s kg/m3',
                                  '%s 7.25', '%s\n12.5', '\t%s  # 3.5'])
    r = reader(env)(env.file(text(t, form, title, dens % rho[0] if dens
                                  else None),
                             's.dat'))
    env.check_true('completed', bool(r.completed), detail=str(r.error))
    env.check_true('no error', r.error is None, detail=str(r.error))
    for i in range(6):
        for j in range(6):
            env.check_eq('C%d%d' % (i + 1, j + 1), r.stiffness[i, j],
                         t[i, j][1])
    env.check_eq('density', r.density, rho[1] if dens else 0.)
    if title is not None:
        env.check_true('description', r.jobname.strip() == title.strip(),
                       detail=repr(r.jobname))


def asymmetric(env):
    """a complete matrix that is not symmetric is refused."""
    t = dict(tokens(env))
    k = env.choice('pair', [(a, b) for a in range(6) for b in range(6)
                            if a != b])
    d = env.real('d', sample=(-5., 5.))
    env.assume(env.Or(d > .01, d < -.01))
    v = t[k][1] + d
    t[k] = (env.token(v), v)
    r = reader(env)(env.file(text(t, 'full', 'A', None), 's.dat'))
    env.check_true('refused', not r.completed and isinstance(r.error, str))


def rounding(env):
    """differences at the level of printed digits are accepted."""
    t = dict(tokens(env))
    k = env.choice('pair', [(0, 1), (2, 0), (5, 3)])
    d = env.real('d', sample=(-5e-4, 5e-4))
    env.assume(env.And(d < 5e-4, d > -5e-4))
    v = t[k][1] + d
    t[k] = (env.token(v), v)
    r = reader(env)(env.file(text(t, 'full', 'A', None), 's.dat'))
    env.check_true('accepted', bool(r.completed), detail=str(r.error))
    for i in range(6):
        for j in range(6):
            env.check_eq('C%d%d' % (i, j), r.stiffness[i, j], t[i, j][1],
                         atol=1e-3)


def ragged(env):
    """rows of the wrong length, text, or too few rows are refused."""
    t = tokens(env)
    form = env.choice('form', ['upper', 'lower', 'full'])
    kind = env.choice('kind', ['short', 'long', 'word', 'rows'])
    row = env.choice('row', list(range(6)))
    L = text(t, form, 'A title', None).splitlines()
    k = row + 1
    if kind == 'short':
        n = L[k].split()
        L[k] = ' '.join(n[:-1]) if len(n) > 1 else ''
    elif kind == 'long':
        L[k] = L[k] + '  1.0'
    elif kind == 'word':
        n = L[k].split()
        n[row % len(n)] = 'abc'
        L[k] = ' '.join(n)
    else:
        del L[k]
    r = reader(env)(env.file('\n'.join(L) + '\n', 's.dat'))
    env.check_true('refused', not r.completed and isinstance(r.error, str),
                   detail=repr(r.error))


def density_text(env):
    t = tokens(env)
    r = reader(env)(env.file(text(t, 'full', 'A', 'heavy'), 's.dat'))
    env.check_true('refused', not r.completed and isinstance(r.error, str))


def history(env):
    """a second reader does not change the first."""
    t, u = tokens(env), tokens(env, 'e')
    rho = env.num('rho', lo=0., sample=(1000., 5000.))
    R = reader(env)
    order = env.choice('second', ['plain', 'broken'])
    a = R(env.file(text(t, 'full', 'first', rho[0]), 'a.dat'))
    if order == 'plain':
        b = R(env.file(text(u, 'upper', None, None), 'b.dat'))
        env.check_true('both read', bool(a.completed and b.completed))
        env.check_eq('second density', b.density, 0.)
        env.check_true('second description', b.jobname != 'first')
        for i in range(6):
            for j in range(6):
                env.check_eq('e%d%d' % (i, j), b.stiffness[i, j], u[i, j][1])
    else:
        b = R(env.file(text(u, 'full', 'second', 'x'), 'b.dat'))
        env.check_true('second refused', not b.completed)
    env.check_true('description', a.jobname == 'first')
    env.check_eq('density', a.density, rho[1])
    for i in range(6):
        for j in range(6):
            env.check_eq('c%d%d' % (i, j), a.stiffness[i, j], t[i, j][1])


def harnesses(tier):
    return [('forms', forms, {'validate': 36, 'max_paths': 200}),
            ('asymmetric', asymmetric, {'validate': 30, 'max_paths': 200}),
            ('rounding', rounding, {}), ('ragged', ragged, {'validate': 72, 'max_paths': 200}),
            ('density-text', density_text, {}), ('history', history, {})]
