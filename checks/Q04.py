# -*- coding: utf-8 -*-
"""Q04: results files and tables of the (quasi-)harmonic calculations."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
import qcommon as qc
from H04 import settings as ha_settings

BOUNDS = ('symbolic results at 2 temperatures x 3 pressures (QHA) and 2 '
          'temperatures x 3 volumes (HA); every unit of the command line; '
          'every exported quantity; one or two files loaded, existing or new '
          'table files')
OUTSIDE = 'the HDF5 container itself'
ASSUMPTIONS = ['h5py stores and returns datasets and attributes unchanged',
               'the values of the properties themselves are those of Q01-Q03 '
               'and H04']
QHA = ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'Cp', 'Cp-Cv',
       'KT', 'KS', 'Kp', 'H', 'G', 'alphaV', 'gruneisen']
HA = ['U0', 'Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv']
WORDS = {'Uzp': 'zero-point', 'Uth': 'thermal', 'S': 'entropy',
         'Fvib': 'vibrational', 'F': 'helmholtz', 'Cv': 'isochoric',
         'VT': 'volume', 'Cp': 'isobaric', 'Cp-Cv': 'isobaric',
         'KT': 'isothermal', 'KS': 'adiabatic', 'Kp': 'bulk modul',
         'H': 'enthalpy', 'G': 'gibbs', 'alphaV': 'expansion',
         'gruneisen': 'neisen', 'U0': 'static', 'Utot': 'energ'}
NAMES = {'S': 'entropy', 'Cv': 'capacity', 'Cp': 'capacity',
         'VT': 'volume', 'KT': 'modul', 'KS': 'modul'}


def unit(k, u):
    e, v, p, t = u
    if k in ('S', 'Cv', 'Cp', 'Cp-Cv'):
        return 'm' + e
    if k in ('KT', 'KS'):
        return p
    return {'VT': v, 'Kp': '', 'gruneisen': '', 'alphaV': 'K^-1'}.get(k, e)


def qha(env, tag, u, scheme='td', mini='poly'):
    """a quasi-harmonic calculator that has run."""
    e, v, p, t = u
    nt, m = 2, 3
    C = env.load(qc.MOD).QHACalculator
    put = {}
    late = ('Cp', 'Cp-Cv', 'KS', 'H', 'G', 'alphaV', 'gruneisen')
    after = {}
    for k in QHA:
        (after if k in late else put)[k] = env.arr(
            tag + k.replace('-', ''), (nt, m), pos=True, sample=(.5, 9.))

    def fill(self, *a, **kw):
        for k, x in put.items():
            for i in range(nt):
                for j in range(m):
                    self.results[k][i, j] = x[i, j]
    for n in ('run_thermodynamics_interpolation',
              'run_frequency_interpolation'):
        env.patch(C, n, fill)
    T = (300., 400., 100.) if t == 'K' else (25., 125., 100.)
    c = C(qc.settings(T, (.125, 4.125, 2.), e=e, v=v, p=p, t=t, scheme=scheme,
                      mini=mini))
    c.input = qc.data(env, [60., 65., 70., 75.], [-1., -2., -2., -1.],
                      [[[3., 2., 2., 1.]]])
    c.run()
    env.check_true('completed', bool(c.completed))
    # a grid this short has no derivatives: any value in their place
    for k, x in after.items():
        c.results[k] = x
    return c, [T[0], T[1]], [.125, 2.125, 4.125]


def words(env, k, desc):
    d = str(desc).lower()
    env.check_true('description of ' + k, WORDS[k] in d
                   and NAMES.get(k, '') in d, detail=repr(desc))


def qha_file(env):
    u = env.choice('units', qc.UNITS)
    scheme = env.choice('scheme', ['td', 'freq'])
    mini = env.choice('minimization', ['poly', 'eos'])
    c, T, P = qha(env, '', u, scheme, mini)
    f = os.path.join(env.tmpdir(), 'out.hdf5')
    c.export_hdf5(f)
    h = env.h5(f)
    env.check_true('datasets', sorted(k for k in h if k) == sorted(
        '/' + k for k in QHA + ['T', 'P']), detail=str(sorted(h)))
    info = str(h[''][1]['info'])
    env.check_true('job', 'A job' in info, detail=info)
    L = {s.split(':')[0].strip(' -').split(' ')[0] + ' ' +
         s.split(':')[0].strip(' -').split(' ')[-1]: s.split(':')[1].strip()
         for s in info.splitlines() if ':' in s}
    for k, x in (('energy', u[0]), ('volume', u[1]), ('pressure', u[2]),
                 ('temperature', u[3]), ('frequency', 'cm^-1')):
        env.check_true('scale ' + k, L.get(k + ' scale') == x,
                       detail=str(L))
    env.check_true('scheme', ('frequency interpolation' in info)
                   == (scheme == 'freq') and
                   ('thermodynamic interpolation' in info)
                   == (scheme == 'td'), detail=info)
    env.check_true('minimization', ('polynomial fitting' in info)
                   == (mini == 'poly') and
                   ('EoS fitting' in info) == (mini == 'eos'), detail=info)
    for k, x, w in (('T', T, u[3]), ('P', P, u[2])):
        d, a = h['/' + k]
        env.check_true('unit of ' + k, a.get('unit') == w, detail=repr(a))
        env.check_true('shape of ' + k, np.shape(d) == (len(x),))
        for i in range(len(x)):
            env.check_eq(k, d[i], x[i])
    for k in QHA:
        d, a = h['/' + k]
        env.check_true('unit of ' + k, a.get('unit') == unit(k, u),
                       detail=repr(a))
        words(env, k, a.get('desc'))
        env.check_true('shape of ' + k, np.shape(d) == (2, 3))
        for i in range(2):
            for j in range(3):
                env.check_eq(k, d[i, j], c.results[k][i, j])


def ha(env, tag, e='Ha', t='K', nv=3):
    C = env.load('quantas.harmonic.harmonic').HACalculator
    T = (300., 400., 100.) if t == 'K' else (25., 125., 100.)
    c = C(ha_settings(T, e=e, t=t))
    w = env.arr(tag + 'w', nv, pos=True, sample=(100., 300.))
    V = env.arr(tag + 'V', nv, pos=True, sample=(60., 90.))
    U = env.arr(tag + 'U', nv, sample=(-9., -1.))
    c.input = qc.data(env, V, U, [[w]])
    c.run()
    env.check_true('completed', bool(c.completed))
    return c, [T[0], T[1]], V, U


def ha_file(env):
    e = env.choice('energy', sorted(qc.EU))
    t = env.choice('temperature', ['K', 'C'])
    c, T, V, U = ha(env, '', e, t)
    f = os.path.join(env.tmpdir(), 'out.hdf5')
    c.export_hdf5(f)
    h = env.h5(f)
    env.check_true('datasets', sorted(k for k in h if k) == sorted(
        '/' + k for k in HA + ['T', 'V']), detail=str(sorted(h)))
    info = str(h[''][1]['info'])
    env.check_true('job', 'A job' in info, detail=info)
    for k, x, w in (('T', T, t), ('V', V, 'A'), ('U0', U, e)):
        d, a = h['/' + k]
        env.check_true('unit of ' + k, a.get('unit') == w, detail=repr(a))
        for i in range(len(x)):
            env.check_eq(k, d[i], x[i])
    for k in HA[1:]:
        d, a = h['/' + k]
        env.check_true('unit of ' + k, a.get('unit') == (
            'm' + e if k in ('S', 'Cv') else e), detail=repr(a))
        words(env, k, a.get('desc'))
        for i in range(np.shape(d)[0]):
            for j in range(3):
                env.check_eq(k, d[i, j], c.results[k][i, j])


def read(env, path):
    """(heading lines, grid row, rows of numbers)"""
    with open(path) as g:
        L = g.read().splitlines()
    rows, head = [], []
    for s in L:
        w = s.split()
        try:
            [float(q) for q in w]
        except ValueError:
            w = []
        if w:
            rows.append(w)
        else:
            head.append(s)
    return head, rows


def digits(w):
    """decimals shown (E format: digits after the point)."""
    w = w.lower().split('e')[0]
    return len(w.split('.')[1]) if '.' in w else 0


def answer(env, m, names, k, overwrite):
    """the user selects quantity `k`, lets existing tables be overwritten or
    not, and enters the files `names` one after the other (then the last)."""
    asked = []
    left = list(names)

    def prompt(text, *a, **kw):
        asked.append(text)
        if len([q for q in asked if q != 'overwrite?']) == 1:
            return k
        if len(asked) > 20:
            raise RuntimeError('asked for ever: %s' % asked)
        return left.pop(0) if len(left) > 1 else left[0]

    def confirm(text, *a, **kw):
        if 'xists' in str(text):
            asked.append('overwrite?')
            return overwrite
        return False
    env.patch(m.click, 'prompt', prompt)
    env.patch(m.click, 'confirm', confirm)
    return asked


def session(env, m, quantities):
    """the user selects the quantities one after the other, then stops."""
    left = list(quantities)

    def prompt(text, *a, **kw):
        if not left:
            raise RuntimeError('asked for more: %s' % text)
        return left.pop(0)

    def confirm(text, *a, **kw):
        if 'xists' in str(text):
            raise RuntimeError('there is no such table: %s' % text)
        return bool(left)
    env.patch(m.click, 'prompt', prompt)
    env.patch(m.click, 'confirm', confirm)


def shown(env, kind, target, k, case, u):
    """the table on file `target` shows property k of the calculation."""
    c, T, P = case[:3]
    head, rows = read(env, target)
    words(env, k, ' '.join(head))
    w = unit(k, u)
    txt = ' '.join(head)
    env.check_true('unit', w in re.split(r'[\s(),;\[\]^]+', txt)
                   or '^' in w and w in txt if w else 'dimensional' in txt,
                   detail=txt)
    env.check_true('scales', '(%s' % u[3] in txt and '(%s' % (
        u[2] if kind == 'qha' else 'A') in txt, detail=txt)
    env.check_true('rows', len(rows) == 3 and len(rows[0]) == 3 and all(
        len(r) == 4 for r in rows[1:]), detail=str(rows))
    for j in range(3):
        env.check_eq('heading', env.printed(rows[0][j]), P[j],
                     catol=1e-7)
    z = case[3] if k == 'U0' else c.results[k]
    for i in range(2):
        env.check_eq('temperature', env.printed(rows[1 + i][0]), T[i])
        for j in range(3):
            v = z[j] if k == 'U0' else z[0 if k == 'Uzp' and kind == 'ha'
                                         else i, j]
            env.check_true('digits of ' + k,
                           digits(rows[1 + i][1 + j]) >= 5,
                           detail=rows[1 + i][1 + j])
            env.check_eq('%s[%d,%d]' % (k, i, j),
                         env.printed(rows[1 + i][1 + j]), v,
                         ctol=1e-8, catol=1e-7)


def several(env, kind):
    """two properties exported in one session: each in its own table."""
    def h(env):
        names = QHA if kind == 'qha' else HA
        k = env.choice('first', names)
        k2 = names[(names.index(k) + 1 + env.choice('second', [0, 3]))
                   % len(names)]
        u = ('eV', 'A', 'GPa', 'K')
        mod = {'qha': 'quantas.qha.utils.export',
               'ha': 'quantas.harmonic.utils.export'}[kind]
        cls = {'qha': 'QuantasQHAExport', 'ha': 'QuantasHarmonicExport'}[kind]
        m = env.load(mod)
        c = qha(env, 'a', u) if kind == 'qha' else ha(env, 'a', u[0], u[3])
        f = os.path.join(env.tmpdir(), 'out.hdf5')
        c[0].export_hdf5(f)
        x = getattr(m, cls)()
        x.load(f)
        session(env, m, [k, k2])
        x.run()
        for q in (k, k2):
            out = f[:-len('.hdf5')] + '_%s.dat' % q
            env.check_true('written', os.path.exists(out), detail=q)
            shown(env, kind, out, q, c, u)
    return h


def export(env, kind):
    def h(env):
        names = QHA if kind == 'qha' else HA
        k = env.choice('quantity', names)
        old = env.choice('table', ['new', 'overwrite', 'other', 'same',
                                   'second'])
        two = env.choice('files', [1, 2]) if old == 'new' else 1
        u = env.choice('units', [('eV', 'A', 'GPa', 'K'),
                                 ('Ha', 'bohr', 'kbar', 'C')]) \
            if old == 'new' and two == 1 else ('eV', 'A', 'GPa', 'K')
        mod = {'qha': 'quantas.qha.utils.export',
               'ha': 'quantas.harmonic.utils.export'}[kind]
        cls = {'qha': 'QuantasQHAExport', 'ha': 'QuantasHarmonicExport'}[kind]
        m = env.load(mod)
        files, calc = [], []
        for q in range(2):
            # both created, so that every path has the same inputs
            d = env.tmpdir()
            c = qha(env, 'ab'[q], u) if kind == 'qha' else \
                ha(env, 'ab'[q], u[0], u[3])
            f = os.path.join(d, 'my.res.hdf5')
            c[0].export_hdf5(f)
            files.append(f)
            calc.append(c)
        c, T, P = calc[0][:3]
        x = getattr(m, cls)()
        x.load(files[0])
        env.check_true('loaded', x.error is None, detail=str(x.error))
        if two == 2:
            y = getattr(m, cls)()
            y.load(files[1])
        d = os.path.dirname(files[0])
        out = os.path.join(d, 'my.res_%s.dat' % k)
        if old != 'new':
            with open(out, 'w') as g:
                g.write('old table\n')
        alt = os.path.join(d, 'alternative')
        names = [alt]
        if old == 'same':
            names = [out, alt]
        if old == 'second':
            names = [os.path.join(d, 'existing'), alt]
            with open(names[0], 'w') as g:
                g.write('old table\n')
        kept = [f for f in set(names + [out]) if os.path.exists(f)]
        target = out if old in ('new', 'overwrite') else alt
        asked = answer(env, m, names, k, old == 'overwrite')
        x.run()
        env.check_true('asked before overwriting', (old == 'new')
                       == ('overwrite?' not in asked), detail=str(asked))
        env.check_true('written', os.path.exists(target))
        for f in kept:
            if f != target:
                with open(f) as g:
                    env.check_true('old table kept', g.read()
                                   == 'old table\n', detail=f)
        shown(env, kind, target, k, calc[0], u)
    return h


def foreign(env):
    """other HDF5 files are refused."""
    kind = env.choice('kind', ['qha', 'ha'])
    x = env.choice('content', ['empty', 'info', 'other', 'half'])
    mod = {'qha': 'quantas.qha.utils.export',
           'ha': 'quantas.harmonic.utils.export'}[kind]
    cls = {'qha': 'QuantasQHAExport', 'ha': 'QuantasHarmonicExport'}[kind]
    m = env.load(mod)
    f = os.path.join(env.tmpdir(), 'a.hdf5')
    with m.h5py.File(f, 'w') as h:
        if x != 'empty':
            h.attrs['info'] = 'text'
        if x == 'other':
            h.create_dataset('stiffness', data=np.arange(3.))
        if x == 'half':
            d = h.create_dataset('T', data=np.arange(3.))
            d.attrs['unit'] = 'K'
            d = h.create_dataset('V' if kind == 'qha' else 'P',
                                 data=np.arange(3.))
            d.attrs['unit'] = 'A'
    e = getattr(m, cls)()
    e.load(f)
    env.check_true('refused', isinstance(e.error, str))


def harnesses(tier):
    o = {'numpy_div': True, 'abs_fork': False}
    return [('qha-file', qha_file, dict(o, validate=4)),
            ('ha-file', ha_file, o),
            ('qha-table', lambda env: export(env, 'qha')(env),
             dict(o, validate=10)),
            ('ha-table', lambda env: export(env, 'ha')(env),
             dict(o, validate=10)),
            ('qha-several', lambda env: several(env, 'qha')(env),
             dict(o, validate=4)),
            ('ha-several', lambda env: several(env, 'ha')(env),
             dict(o, validate=4)),
            ('foreign', foreign, o)]
