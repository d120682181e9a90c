# -*- coding: utf-8 -*-
"""E05: the reader of EoS input files."""
import itertools

BOUNDS = ('3 data rows with symbolic numbers; every admissible column set of '
          'the documented sub-keywords in the listed column orders; comments '
          'and blank lines between sections and rows; 12 description lines; '
          'eleven kinds of malformed or incomplete file, defect in any row')
OUTSIDE = 'text of the numbers themselves (number tokens are symbolic values)'
ASSUMPTIONS = ['a numeric token stands for an arbitrary real']

ALL = ['P', 'V', 'a', 'b', 'c', 'sigmaP', 'sigmaV', 'sigmaa', 'sigmab',
       'sigmac']
PROP = {'p': 'pressure', 'v': 'volume', 'a': 'a', 'b': 'b', 'c': 'c',
        'sigmap': 'sigma_p', 'sigmav': 'sigma_v', 'sigmaa': 'sigma_a',
        'sigmab': 'sigma_b', 'sigmac': 'sigma_c'}
ORDERS = [
    ['P', 'V'], ['V', 'P'], ['P', 'V', 'sigmaP', 'sigmaV'],
    ['P', 'sigmaP', 'V', 'sigmaV', 'a', 'sigmaA', 'b', 'sigmaB', 'c',
     'sigmaC'],
    ['sigmac', 'c', 'sigmab', 'b', 'sigmaa', 'a', 'sigmaV', 'V', 'sigmaP',
     'P'],
    ['P', 'a'], ['a', 'P', 'sigmaa'], ['b', 'c', 'P'],
    ['P', 'V', 'a', 'sigmaa'], ['c', 'sigmac', 'P', 'sigmaP'],
    ['p', 'v', 'A', 'B', 'C'], ['SIGMAP', 'P', 'SIGMAV', 'V'],
    ['P', 'V', 'sigP', 'sigV'],
    ['T', 'P', 'V'], ['P', 'T', 'sigT', 'V', 'sigmaV', 'rho', 'a'],
    ['run', 'V', 'P', 'c/a', 'sigP'],
    ['siga', 'a', 'sigb', 'b', 'sigc', 'c', 'P', 'sigp'],
]
JOBS = ['Quartz (Angel et al., 2000)', 'Data of Angel et al. (2000)',
        'data', 'Format', 'Unknown', 'job', '  indented title', 'P V',
        '1.0 2.0 3.0', 'FORMAT of the data: P V', 'x', 'DATA set n. 2']


def canon(w):
    w = w.lower()
    if w.startswith('sig') and not w.startswith('sigma'):
        w = 'sigma' + w[3:]
    return w


def build(env, cols, job, gap, tag, nrow=3, jobpos='first', rowgap=False):
    vals = {}
    rows = []
    for i in range(nrow):
        r = []
        for c in cols:
            t, v = env.num('%s%s%d' % (tag, canon(c), i), sample=(1., 90.))
            vals.setdefault(canon(c), []).append(v)
            r.append(t)
        rows.append(r)
    L = []
    if gap:
        L += ['# comment', '', '   ', '\t# DATA', '#FORMAT', '#', ' #P V']
    if job is not None and jobpos == 'first':
        L += ['JOB', job]
    if gap:
        L += ['', '# JOB', '   ', '  # data']
    L += ['FORMAT'] + (['   # P V a', ''] if gap else [])
    L += ['\t'.join(cols) if gap else ' '.join(cols)]
    if gap:
        L += ['# values', '', '   # 1.0 2.0 3.0', '\t#']
    if job is not None and jobpos == 'mid':
        L += ['job'] + (['', '  # none', '\t'] if gap else []) + [job]
    L += ['DATA'] + (['  # P V', '', '#'] if rowgap else [])
    for i, r in enumerate(rows):
        if rowgap and i:
            L += ['', '# skipped row 1 2 3', '  ', ' \t# 4 5 6']
        L += ['   '.join(r)]
    return '\n'.join(L) + '\n', vals


def verify(env, r, vals, job, label=''):
    env.check_true(label + 'read', bool(r.completed) and r.error is None)
    for k, attr in PROP.items():
        got = getattr(r, attr)
        if k in vals:
            env.check_true(label + k + ' present', got is not None)
            if got is not None:
                env.check_arr(label + k, got, env.mkarr(vals[k]))
        else:
            env.check_true(label + k + ' absent', got is None)
    if job is not None:
        env.check_true(label + 'job', r.jobname.strip() == job.strip())


def columns(env):
    R = env.load('quantas.IO.eos_reader').EoSInputFileReader
    cols = env.choice('columns', ORDERS)
    gap = env.choice('comments', [False, True])
    rowgap = env.choice('blank', [False, True]) if gap else False
    txt, vals = build(env, cols, 'A title', gap, 'x', rowgap=rowgap)
    verify(env, R(env.file(txt)), vals, 'A title')


def permutations(env):
    """every order of four columns."""
    R = env.load('quantas.IO.eos_reader').EoSInputFileReader
    cols = list(env.choice('columns', list(itertools.permutations(
        ['P', 'V', 'sigmaP', 'sigmaV']))))
    txt, vals = build(env, cols, None, False, 'x')
    r = R(env.file(txt))
    verify(env, r, vals, None)


def jobs(env):
    R = env.load('quantas.IO.eos_reader').EoSInputFileReader
    job = env.choice('job', JOBS)
    pos = env.choice('position', ['first', 'mid'])
    gap = env.choice('comments', [False, True])
    txt, vals = build(env, ['V', 'P'], job, gap, 'x', jobpos=pos)
    verify(env, R(env.file(txt)), vals, job)


def history(env):
    """two files read one after the other do not influence each other."""
    R = env.load('quantas.IO.eos_reader').EoSInputFileReader
    c1 = env.choice('first', [['P', 'V', 'sigmaP', 'a'], ['b', 'P']])
    c2 = env.choice('second', [['V', 'P'], ['P', 'c', 'sigmac']])
    t1, v1 = build(env, c1, 'first job', False, 'x', nrow=3)
    t2, v2 = build(env, c2, 'second job', False, 'y', nrow=2)
    r1 = R(env.file(t1, 'one.dat'))
    r2 = R(env.file(t2, 'two.dat'))
    verify(env, r1, v1, 'first job', 'first: ')
    verify(env, r2, v2, 'second job', 'second: ')


def missing(env):
    """no pressure / no FORMAT / no structural data are reported."""
    R = env.load('quantas.IO.eos_reader').EoSInputFileReader
    calc = env.load('quantas.eosfit.eosfit')
    what = env.choice('missing', ['P', 'format', 'structure'])
    cols = {'P': ['V', 'a'], 'format': ['P', 'V'],
            'structure': ['P', 'sigmaP', 'sigmaV']}[what]
    txt, vals = build(env, cols, 'A title', False, 'x')
    if what == 'format':
        ls = txt.split('\n')
        i = ls.index('FORMAT')
        del ls[i:i + 2]
        txt = '\n'.join(ls)
    path = env.file(txt)
    if what != 'structure':
        r = R(path)
        env.check_true('rejected', not r.completed)
        env.check_true('explained', isinstance(r.error, str) and r.error)
    c = calc.EoSFitCalculator({'lenght_unit': 'A', 'pressure_unit': 'GPa',
                               'logfile': None})
    c.silent = True
    e = c.read_input(path)
    env.check_true('calculator refuses', isinstance(e, str) and len(e) > 0)


BROKEN = ['short row', 'long word', 'comma', 'end word', 'no rows', 'no data',
          'only job', 'job at the end', 'format at the end', 'nothing',
          'comments']


def broken(env):
    """incomplete or malformed files are reported, never half read."""
    R = env.load('quantas.IO.eos_reader').EoSInputFileReader
    what = env.choice('kind', BROKEN)
    cols = env.choice('columns', [['P', 'V', 'a'], ['sigmaP', 'P', 'V']])
    row = env.choice('row', [0, 1, 2])
    txt, vals = build(env, cols, 'A title', False, 'x')
    L = txt.rstrip().split('\n')
    k = L.index('DATA') + 1 + row
    n = L[k].split()
    if what == 'short row':
        L[k] = ' '.join(n[:-1])
    elif what == 'long word':
        L[k] = ' '.join(n[:2] + ['abc'])
    elif what == 'comma':
        L[k] = ', '.join(n)
    elif what == 'end word':
        L.append('END')
    elif what == 'no rows':
        L = L[:L.index('DATA') + 1]
    elif what == 'no data':
        L = L[:L.index('DATA')]
    elif what == 'only job':
        L = L[:2]
    elif what == 'job at the end':
        L = L[:2] + ['JOB', '', '# 3']
    elif what == 'format at the end':
        L = L[:2] + ['FORMAT', '# P V', '']
    elif what == 'nothing':
        L = []
    elif what == 'comments':
        L = ['# ' + x for x in L]
    r = R(env.file('\n'.join(L) + '\n'))
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def accepted(env):
    """the calculator accepts any single structural quantity."""
    calc = env.load('quantas.eosfit.eosfit')
    cols = env.choice('columns', ORDERS)
    txt, vals = build(env, cols, 'A title', False, 'x')
    c = calc.EoSFitCalculator({'lenght_unit': 'A', 'pressure_unit': 'GPa',
                               'logfile': None})
    c.silent = True
    e = c.read_input(env.file(txt))
    env.check_true('accepted', e is None)
    verify(env, c.input, vals, 'A title')


def harnesses(tier):
    return [(f.__name__, f, {}) for f in
            (columns, permutations, jobs, history, missing, broken, accepted)]
