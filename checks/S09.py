# -*- coding: utf-8 -*-
"""S09: results of the SOEC analysis on file (HDF5 and text tables)."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import math
import numpy as np
import scommon as sc
import S05
import Q04
from vx.expr import Unsupported

BOUNDS = ('symbolic cubic/triclinic matrix, density present or not, polar '
          'curves of 4 symbolic points each, every quantity exported')
OUTSIDE = 'the HDF5 container itself'
ASSUMPTIONS = ['h5py stores and returns datasets and attributes unchanged']
UNITS = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'Nu': '', 'waves': 'km s^-1'}
N = 4


def prepare(env, tag, kind, dens):
    C = sc.voigt(env, tag, kind, off_=(-5., 25.))
    rho = env.real(tag + 'rho', pos=True, sample=(1000., 6000.))
    R = {(n, q): env.arr('%s%s_%s' % (tag, n, q), (N, w), sample=(1., 9.))
         for n, w in S05.WIDTH.items() for q in ('xy', 'xz', 'yz')}
    return C, rho, R


def results(env, tag, C, rho, R, dens):
    """a calculator that has run, with known polar curves."""
    calc, err, text = sc.calculator(env, C, rho if dens else None)
    env.check_true('input read', err is None, detail=str(err))
    e = env.load(sc.CALC).np.linalg.eigvalsh(env.mkarr(C))
    env.assume(e[0] > 1.)
    calc.run()
    env.check_true('completed', bool(calc.completed))
    o = calc.soec
    names = {'E': 'polar_young', 'LC': 'polar_compressibility',
             'G': 'polar_shear', 'Nu': 'polar_poisson',
             'waves': 'polar_waves'}

    def curve(n):
        def f(theta, phi):
            t, p = [float(x) for x in theta], [float(x) for x in phi]
            if np.allclose(t, math.pi / 2.):
                q = 'xy'
            elif np.allclose(p, 0.):
                q = 'xz'
            elif np.allclose(p, math.pi / 2.):
                q = 'yz'
            else:
                raise Unsupported('plane')
            return R[n, q][:, 0] if n == 'E' else R[n, q]
        return f
    for n, f in names.items():
        if not hasattr(o, f):
            raise Unsupported('polar functions')
        setattr(o, f, curve(n))
    calc.calculate_polar_properties(nrad=N)
    return calc, e, o


def hdf5(env):
    dens = env.choice('density', [True, False])
    kind = env.choice('class', ['cubic', 'triclinic'])
    C, rho, R = prepare(env, 'c', kind, dens)
    sc.generic(env, C, kind)
    calc, e, o = results(env, 'c', C, rho, R, dens)
    f = os.path.join(env.tmpdir(), 'out.hdf5')
    calc.export_hdf5(f)
    h = env.h5(f)
    a = o.averages()
    S = env.load(sc.MOD).np.linalg.inv(env.mkarr(C))

    def dset(name, unit):
        d, at = h['/' + name]
        env.check_true('unit of ' + name, at.get('unit') == unit,
                       detail=repr(at))
        return d
    d = dset('stiffness', 'GPa')
    s = dset('compliance', 'TPa^-1')
    for i in range(6):
        for j in range(6):
            env.check_eq('stiffness', d[i, j], C[i][j])
            env.check_eq('compliance', s[i, j], 1e3 * S[i][j], atol=1e-9)
    d = dset('averages', 'GPa')
    for i in range(3):
        for j in range(4):
            env.check_eq('averages', d[i, j], a[i][j])
    d = dset('eigenvals', 'GPa')
    for k in range(6):
        env.check_eq('eigenvalue', d[k], e[k])
    for (n, q), T in R.items():
        k = 'polar_%s_%s' % (n, q)
        if n == 'waves' and not dens:
            env.check_true('no waves', '/' + k not in h)
            continue
        d = dset(k, UNITS[n])
        for i in range(N):
            env.check_eq('angle', d[i, 0], 360. * i / (N - 1))
            for j in range(T.shape[1]):
                env.check_eq(k, d[i, 1 + j], T[i, j])


def shown(env, out, n, R):
    """the table on file `out` shows quantity n."""
    with open(out) as g:
        L = g.read().splitlines()
    rows = []
    for s in L:
        w = s.split()
        try:
            [float(q) for q in w]
        except ValueError:
            continue
        if len(w) > 2:
            rows.append(w)
    w = S05.WIDTH[n]
    env.check_true('rows', len(rows) == N)
    env.check_true('unit', any(UNITS[n] in s for s in L))
    for i, r in enumerate(rows):
        env.check_true('columns', len(r) == 1 + 3 * w)
        env.check_eq('angle', env.printed(r[0]), 360. * i / (N - 1),
                     catol=.1)
        for q, p in enumerate(('xy', 'xz', 'yz')):
            for j in range(w):
                env.check_eq('%s %s %d' % (n, p, j),
                             env.printed(r[1 + q * w + j]),
                             R[n, p][i, j], catol=1e-4)


def several(env):
    """two quantities exported in one session: each in its own table."""
    names = list(S05.WIDTH)
    n = env.choice('first', names)
    n2 = names[(names.index(n) + env.choice('second', [1, 2])) % len(names)]
    C, rho, R = prepare(env, 'c', 'cubic', True)
    m = env.load('quantas.soec.utils.export')
    calc, e, o = results(env, 'c', C, rho, R, True)
    f = os.path.join(env.tmpdir(), 'out.hdf5')
    calc.export_hdf5(f)
    x = m.QuantasSOECExport()
    x.load(f)
    Q04.session(env, m, [n, n2])
    x.run()
    for q in (n, n2):
        out = f[:-len('.hdf5')] + '_%s.dat' % q
        env.check_true('written', os.path.exists(out), detail=q)
        shown(env, out, q, R)


def table(env):
    """the exported table holds what was asked for, from the file asked for,
    also when another file is loaded meanwhile."""
    n = env.choice('quantity', list(S05.WIDTH))
    C, rho, R = prepare(env, 'c', 'cubic', True)
    D, rho2, Q = prepare(env, 'd', 'cubic', True)
    two = env.choice('files', [1, 2])
    old = env.choice('table', ['new', 'overwrite', 'other', 'same',
                               'second']) if two == 1 else 'new'
    m = env.load('quantas.soec.utils.export')
    files = []
    dirs = [env.tmpdir(), env.tmpdir()]
    for k, (tag, c, r, T) in enumerate((('c', C, rho, R),
                                        ('d', D, rho2, Q))[:two]):
        calc, e, o = results(env, tag, c, r, T, True)
        f = os.path.join(dirs[k], 'my.res.hdf5')
        calc.export_hdf5(f)
        files.append(f)
    x = m.QuantasSOECExport()
    x.load(files[0])
    env.check_true('loaded', x.error is None)
    if two == 2:
        y = m.QuantasSOECExport()
        y.load(files[1])
    out = os.path.join(dirs[0], 'my.res_%s.dat' % n)
    alt = os.path.join(dirs[0], 'alternative')
    names = {'same': [out, alt],
             'second': [os.path.join(dirs[0], 'existing'), alt]}.get(
                 old, [alt])
    kept = [] if old == 'new' else [out]
    if old == 'second':
        kept.append(names[0])
    for f in kept:
        with open(f, 'w') as g:
            g.write('old table\n')
    asked = Q04.answer(env, m, names, n, old == 'overwrite')
    x.run()
    env.check_true('asked before overwriting', (old == 'new')
                   == ('overwrite?' not in asked), detail=str(asked))
    if old in ('other', 'same', 'second'):
        for f in kept:
            with open(f) as g:
                env.check_true('old table kept', g.read() == 'old table\n',
                               detail=f)
        out = alt
    env.check_true('file written', os.path.exists(out))
    shown(env, out, n, R)


def foreign(env):
    """other HDF5 files are refused."""
    x = env.choice('kind', ['empty', 'other'])
    m = env.load('quantas.soec.utils.export')
    f = os.path.join(env.tmpdir(), 'a.hdf5')
    with m.h5py.File(f, 'w') as h:
        if x == 'other':
            h.attrs['info'] = 'text'
            h.create_dataset('T', data=np.arange(3.))
    e = m.QuantasSOECExport()
    e.load(f)
    env.check_true('refused', isinstance(e.error, str))


def harnesses(tier):
    o = {'inv_defs': False, 'numpy_div': True,
         'stubs': {'scipy.optimize.brute': sc.some_point}}
    return [('hdf5', hdf5, dict(o, validate=4)),
            ('table', table, dict(o, validate=10)),
            ('several', several, dict(o, validate=4)), ('foreign', foreign, o)]
