# -*- coding: utf-8 -*-
"""I01: elastic constants read from CRYSTAL and VASP outputs, and the input
file generated from them."""
import os

BOUNDS = ('21 symbolic constants and density; CRYSTAL: files with and without '
          'the primitive-cell density, several geometries; VASP: clamped-ion '
          'only or clamped and relaxed tables; up to 2500 other lines before '
          'and after; one or two files in one '
          'session, wrong, unfinished or corrupted outputs; generated input '
          'read back')
OUTSIDE = ('layouts of other program versions; descriptions made of numbers '
           'only')
ASSUMPTIONS = ['a numeric token stands for an arbitrary real']
CRY = 'CrystalSOECReader'
VASP = 'VASPSOECReader'
VORD = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']
# VASP column -> Voigt index
VOIGT = {'XX': 0, 'YY': 1, 'ZZ': 2, 'YZ': 3, 'ZX': 4, 'XY': 5}


def tokens(env, tag='c', scale=1.):
    t = {}
    for i in range(6):
        for j in range(i, 6):
            t[i, j] = t[j, i] = env.num(
                '%s%d%d' % (tag, i + 1, j + 1),
                sample=(100. * scale, 300. * scale) if i == j else
                (-20. * scale, 60. * scale))
    return t


def crystal(t, rho, style='plain', end=True, bad=None, other='9.999'):
    L = ['  CRYSTAL17', '', ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=   '
         '72.1 - DENSITY  %s g/cm^3' % other, ' ELASTCON OPTION', '']
    if style != 'none':
        L += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '',
              ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES)',
              ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=    72.138 - '
              'DENSITY  %s g/cm^3' % rho,
              '         A              B              C ']
    if style == 'strained':
        # deformed geometries follow
        for k in range(3):
            L += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP',
                  ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=    73.0 - '
                  'DENSITY  8.%d g/cm^3' % k]
    L += [' NUMERICAL DERIVATIVES  4.0  3.0', '']
    if end:
        L += [' ' + '*' * 70, ' FINAL RESULTS START', ' ' + '*' * 70, '']
    L += [' SYMMETRIZED ELASTIC CONSTANTS FOR HEXAGONAL CASE, IN GPa', '']
    for i in range(6):
        row = [t[i, j][0] for j in range(i, 6)]
        if bad == (i,):
            row[0] = '********'
        L.append(' |' + '          ' * i + '  '.join(
            '%9s' % x for x in row) + ' |')
    L += ['', ' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1', '']
    for i in range(6):
        L.append(' |' + '  '.join(['%9s' % (7.25 + i)] * (6 - i)) + ' |')
    return '\n'.join(L) + '\n'


def vtable(title, t, bad=None):
    L = [' ' + title, ' Direction    ' + '          '.join(VORD),
         ' ' + '-' * 80]
    for a in VORD:
        row = [t[VOIGT[a], VOIGT[b]][0] for b in VORD]
        if a == bad:
            row[2] = '*********'
        L.append(' %s   ' % a + '  '.join('%11s' % x for x in row))
    return L + [' ' + '-' * 80, '', '']


def vasp(clamped, relaxed=None, bad=None, moduli=True):
    L = [' vasp.5.4.4', '']
    if moduli:
        L += vtable('ELASTIC MODULI  (kBar)', {
            k: ('%d.5' % (7 + k[0] * k[1]), 0.) for k in clamped})
        L += vtable('SYMMETRIZED ELASTIC MODULI (kBar)', clamped,
                    bad if relaxed is None else None)
    if relaxed is not None:
        L += vtable('ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', {
            k: ('-%d.5' % (7 + k[0] * k[1]), 0.) for k in relaxed})
        L += vtable('TOTAL ELASTIC MODULI (kBar)', relaxed, bad)
    return '\n'.join(L) + '\n'


def same(env, r, t, rho, fac=1., lab=''):
    env.check_true(lab + 'completed', bool(r.completed), detail=str(r.error))
    env.check_true(lab + 'no error', r.error is None, detail=str(r.error))
    for i in range(6):
        for j in range(6):
            env.check_eq('%sC%d%d' % (lab, i + 1, j + 1), r.stiffness[i, j],
                         t[i, j][1] * fac)
    env.check_eq(lab + 'density', r.density, rho)


def read_crystal(env):
    t = tokens(env)
    rho = env.num('rho', pos=True, sample=(1., 9.))
    style = env.choice('file', ['plain', 'none', 'strained'])
    R = getattr(env.load('quantas.interfaces.crystal'), CRY)
    r = R(env.file(crystal(t, rho[0], style), 'a.out'))
    same(env, r, t, 0. if style == 'none' else rho[1] * 1e3)


def read_vasp(env):
    t, u = tokens(env, 'c', 10.), tokens(env, 'r', 10.)
    relaxed = env.choice('relaxed', [False, True])
    R = getattr(env.load('quantas.interfaces.vasp'), VASP)
    r = R(env.file(vasp(t, u if relaxed else None), 'OUTCAR'))
    same(env, r, u if relaxed else t, 0., .1)


def filler(n, kind):
    if kind == 'numbers':
        return ['  %d.5  2.25  3.125  4.0  5.5  6.75' % (k % 97)
                for k in range(n)]
    if kind == 'headings':
        return [' TOTAL ENERGY  ELASTIC  VOLUME of cell : %d' % k
                for k in range(n)]
    return [''] * n


def long(env):
    """tables buried in long outputs."""
    code = env.choice('code', ['crystal', 'vasp', 'vasp relaxed'])
    t, u = tokens(env, 'c', 10.), tokens(env, 'r', 10.)
    q = env.num('rho', pos=True)
    kind = env.choice('filler', ['numbers', 'blank', 'headings'])
    before, after = env.choice('lines', [(0, 700), (700, 0), (350, 350),
                                         (2500, 3), (3, 2500)])
    a, b = ['\n'.join(filler(k, kind)) + '\n' if k else ''
            for k in (before, after)]
    if code == 'crystal':
        R = getattr(env.load('quantas.interfaces.crystal'), CRY)
        x = crystal(t, q[0])
        k = x.index(' PRIMITIVE')
        # the program says who it is at the top
        x = x[:k] + a + x[k:] + b
        r, f = R(env.file(x, 'a.out')), 1.
    else:
        R = getattr(env.load('quantas.interfaces.vasp'), VASP)
        x = vasp(t, u if 'relaxed' in code else None)
        k = x.index('\n') + 1
        r, f = R(env.file(x[:k] + a + x[k:] + b, 'OUTCAR')), .1
    same(env, r, u if 'relaxed' in code else t,
         q[1] * 1e3 if code == 'crystal' else 0., f)


def two(env):
    """reading a second output does not change the first, nor depend on it."""
    code = env.choice('code', ['crystal', 'vasp'])
    t, u = tokens(env, 'c', 10.), tokens(env, 'd', 10.)
    q, p = env.num('rho', pos=True), env.num('rho2', pos=True)
    order = env.choice('order', ['both', 'failed first'])
    if code == 'crystal':
        R = getattr(env.load('quantas.interfaces.crystal'), CRY)
        A = crystal(t, q[0], bad=(3,) if order != 'both' else None)
        B = crystal(u, p[0])
    else:
        R = getattr(env.load('quantas.interfaces.vasp'), VASP)
        A = vasp(t, bad='YZ' if order != 'both' else None)
        B = vasp(u)
    a = R(env.file(A, 'a.out'))
    b = R(env.file(B, 'b.out'))
    f = 1. if code == 'crystal' else .1
    z = code == 'crystal'
    same(env, b, u, p[1] * 1e3 if z else 0., f, 'second ')
    if order == 'both':
        same(env, a, t, q[1] * 1e3 if z else 0., f, 'first ')
    else:
        env.check_true('refused', not a.completed)


def cut(text, first, kind, row):
    """an output that ends, or misses a constant, in a row of the table."""
    L = text.splitlines()
    k = min(i for i, x in enumerate(L) if first in x.split()) + row
    if kind[:3] == 'row':
        n = L[k].replace('|', '').split()
        L[k] = ' ' + '  '.join(n[:-1])
    else:
        L = L[:k]
    return '\n'.join(L) + '\n'


def wrong(env):
    code = env.choice('code', ['crystal', 'vasp'])
    t = tokens(env, 'c', 10.)
    kind = env.choice('kind', ['other', 'empty', 'unfinished', 'text0',
                               'text5', 'cut0', 'cut3', 'cut5', 'row0',
                               'row4'])
    row = 0 if kind[-1] not in '345' else int(kind[-1])
    if code == 'crystal':
        R = getattr(env.load('quantas.interfaces.crystal'), CRY)
        x = {'other': vasp(t), 'empty': '',
             'unfinished': crystal(t, '3.1', end=False),
             'text0': crystal(t, '3.1', bad=(0,)),
             'text5': crystal(t, '3.1', bad=(5,))}.get(kind)
        x = x if x is not None else cut(crystal(t, '3.1'), t[0, 0][0], kind,
                                        row)
    else:
        R = getattr(env.load('quantas.interfaces.vasp'), VASP)
        x = {'other': crystal(t, '3.1'), 'empty': '',
             'unfinished': vasp(t, moduli=False),
             'text0': vasp(t, bad='XX'),
             'text5': vasp(t, t, bad='ZX')}.get(kind)
        x = x if x is not None else cut(vasp(t), t[0, 0][0], kind, row)
    r = R(env.file(x, 'a.out'))
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def generate(env):
    """output -> generated input -> reader."""
    code = env.choice('code', ['crystal', 'vasp'])
    t = tokens(env, 'c', 10.)
    rho = env.num('rho', pos=True, sample=(1., 9.))
    job = env.choice('job', ['Unknown', 'Periclase (MgO)', '2H-MoS2, 0 K',
                             'a b c d e f', '  spaces'])
    C = env.load('quantas.IO.soec_writer').SOECInputCreator
    c = C(code)
    f = env.file(crystal(t, rho[0]) if code == 'crystal' else vasp(t),
                 'a.out')
    ok, err = c.read(f)
    env.check_true('read', bool(ok) and err is None, detail=str(err))
    out = os.path.join(env.tmpdir(), 'soec.dat')
    c.write(out, job)
    r = env.load('quantas.IO.soec_reader').SOECInputFileReader(out)
    env.check_true('completed', bool(r.completed), detail=str(r.error))
    env.check_true('description', r.jobname.strip() == job.strip(),
                   detail=repr(r.jobname))
    fac = 1. if code == 'crystal' else .1
    for i in range(6):
        for j in range(6):
            env.check_eq('C%d%d' % (i + 1, j + 1), r.stiffness[i, j],
                         t[i, j][1] * fac, atol=1e-4, catol=1e-4)
    env.check_eq('density', r.density, rho[1] * 1e3 if code == 'crystal'
                 else 0., atol=.1, catol=.1)


def refused(env):
    """a generator that cannot read says so."""
    code = env.choice('code', ['crystal', 'vasp'])
    c = env.load('quantas.IO.soec_writer').SOECInputCreator(code)
    ok, err = c.read(env.file('some text\n' * 20, 'a.out'))
    env.check_true('refused', not ok and isinstance(err, str))


def harnesses(tier):
    return [('crystal', read_crystal, {}), ('vasp', read_vasp, {}),
            ('long', long, {}), ('two', two, {}), ('wrong', wrong, {}),
            ('generate', generate, {}), ('refused', refused, {})]
