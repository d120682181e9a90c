# -*- coding: utf-8 -*-
"""Q05: quasi-harmonic input files: generated, written and read back."""
import os
import sys
import numpy as np
sys.path.insert(0, os.path.dirname(__file__))
import icommon as ic
import I02
import I03
import I04

BOUNDS = ('lists of 1-4 files of CRYSTAL (Gamma point, supercell with '
          'phonon dispersion) or phonopy, one quasi-harmonic output of '
          'CRYSTAL with 4 volumes; 1-2 atoms, 1-2 q points; symbolic '
          'lattices, energies, frequencies, q-point coordinates; every '
          'reference file; 14 job descriptions; missing, wrong or '
          'incomplete files, wrong numbers of data; one or two generators in one session')
OUTSIDE = ('q-point weights that are not integers; files of a list that '
           'describe different crystals; YAML syntax variants')
ASSUMPTIONS = ['a numeric token stands for an arbitrary real',
               'printed numbers carry their rounding error']
JOBS = ['MgO', 'MgO: B3LYP', '# 1', '123', '1.5e3', '', "it's", '"quoted"',
        "'single'", '- a list', '{a: b}', 'yes', 'null', '  a & b * c! %d']


def mods(env):
    return (env.load('quantas.IO.qha_writer'),
            env.load('quantas.IO.qha_reader'))


def compare(env, r, job, nat, E3, vol, en, q, wt, fr, lab=''):
    """r: reader of the generated file; fr[q][mode][volume]."""
    n, nq = len(vol), len(q)
    env.check_true(lab + 'completed', bool(r.completed), detail=str(r.error))
    env.check_true(lab + 'no error', r.error is None, detail=str(r.error))
    env.check_true(lab + 'job', r.jobname == job.rstrip(),
                   detail='%r %r' % (r.jobname, job))
    env.check_true(lab + 'natom', r.natoms == nat)
    env.check_true(lab + 'cells', r.kpoints == abs(ic.det(E3)))
    env.check_true(lab + 'q points', r.qpoints == nq)
    env.check_true(lab + 'volumes', r.nvol == n)
    V, U, W, F = r.volume, r.energy, r.weights, r.frequencies
    env.check_true(lab + 'shape', np.shape(V) == (n,) and np.shape(U) == (n,)
                   and np.shape(W) == (nq,)
                   and np.shape(F) == (nq, 3 * nat, n))
    for i in range(n):
        env.check_eq(lab + 'volume %d' % i, V[i], vol[i], atol=6e-9,
                     catol=6e-9)
        # energies are negative (or exactly zero)
        env.check(lab + 'energy %d' % i,
                  env.And(U[i] - en[i] <= -1e-10 * en[i],
                          en[i] - U[i] <= -1e-10 * en[i]))
    tot = 0
    for k in range(nq):
        env.check_eq(lab + 'weight', W[k], float(wt[k]))
        tot += wt[k]
        p = r.data['phonon'][k]['q-position']
        for a in range(3):
            env.check_eq(lab + 'q position', p[a], q[k][a], atol=6e-8,
                         catol=6e-8)
        for j in range(3 * nat):
            for i in range(n):
                env.check_eq(lab + 'frequency %d %d %d' % (k, j, i),
                             F[k][j][i], fr[k][j][i], rtol=1e-6, ctol=1e-6,
                             atol=6e-11, catol=6e-11)
    env.check_eq(lab + 'total weight', r.total_q_points, float(tot))
    for i in range(3):
        for j in range(3):
            env.check_eq(lab + 'expansion', r.data['supercell'][i][j],
                         float(E3[i][j]))


def generate(env, flag, files, job, ref, as_list, out='input.yaml'):
    W, R = mods(env)
    env.patch(W, 'echo', lambda *a, **k: None)
    env.patch(W, 'input', lambda *a: job)
    g = W.QHAInputCreator(flag)
    src = env.file('\n'.join(files) + '\n', 'list') if as_list else files[0]
    ok, err = g.read(src, as_list, reference=ref)
    env.check_true('read', bool(ok) and err is None, detail=str(err))
    path = os.path.join(os.path.dirname(files[0]), out)
    g.write(path, ref)
    return R.QHAInputFileReader(path)


# -------------------------------------------------------------- crystal
def point(env, tag, sizes):
    lat, vol = ic.lattice(env, tag)
    e, E = env.num(tag + 'E', sample=(-300., -1.))
    env.assume(E < 0.)
    env.assume(E > -99999.)
    g, fr = I02.band(env, tag, sizes)
    return dict(lat=lat, vol=vol, e=e, E=E, g=g, fr=fr)


def gamma(env):
    n = env.choice('files', [1, 2, 3])
    ref = env.choice('reference', list(range(n)))
    sizes = env.choice('modes', [[3], [1, 2], [1, 2, 2, 1]])
    as_list = True if n > 1 else env.choice('list', [True, False])
    nat = sum(sizes) // 3
    P = [point(env, 'p%d' % i, sizes) for i in range(n)]
    f = [env.file(I02.gamma_text(nat, p['lat'], p['e'], p['g']),
                  ['f 0.out', 'f1.b.out', 'MgO #2, V=.9.out'][i])
         for i, p in enumerate(P)]
    r = generate(env, 'crystal', f, 'MgO: HF', ref, as_list)
    compare(env, r, 'MgO: HF', nat, ic.EXP['unit'], [p['vol'] for p in P],
            [p['E'] for p in P], [[0.] * 3], [1],
            [[[p['fr'][j] for p in P] for j in range(3 * nat)]])


def mesh(env):
    """volumes of a supercell with phonon dispersion."""
    kind = env.choice('expansion', ['two', 'left', 'one', 'hex'])
    E3 = ic.EXP['unit'] if kind == 'one' else ic.EXP[kind]
    n, nq = abs(ic.det(E3)), 2
    ref = env.choice('reference', [0, 1])
    wt, sh = [1, 3], [2, 4, 3]
    xyz = [[[env.num('f%dx%d%d' % (f, q, k), sample=(0., 3.))
             for k in range(3)] for q in range(nq)] for f in range(2)]
    P, files = [], []
    for i in range(2):
        lat, vol = ic.lattice(env, 'v%d' % i)
        e, E = env.num('E%d' % i, sample=(-300., -1.))
        env.assume(E < 0.)
        env.assume(E > -99999.)
        B = [I02.band(env, 'v%dq%d' % (i, q), [[1, 2], [3]][q])
             for q in range(nq)]
        L = ic.consistent(1) + ic.expansion(E3) + ic.cell(
            'GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3',
            n, lat)
        L += ic.DISP + ic.mesh(nq, [str(w) for w in wt],
                               [[c[0] for c in x] for x in xyz[i]], sh,
                               n == 1)
        L += ic.energy(e) + ic.FREQ
        for g, _ in B:
            L += ic.modes(g)
        files.append(env.file('\n'.join(L) + '\n', 'f%d.out' % i))
        P.append((vol / n, E / n, [b for _, b in B]))
    r = generate(env, 'crystal', files, 'mesh', ref, True)
    compare(env, r, 'mesh', 1, E3, [p[0] for p in P], [p[1] for p in P],
            [[xyz[ref][q][k][1] / sh[k] for k in range(3)]
             for q in range(nq)], wt,
            [[[p[2][q][j] for p in P] for j in range(3)] for q in range(nq)])


# -------------------------------------------------------------- phonopy
def phonopy(env):
    nat = env.choice('atoms', [1, 2])
    xml = env.choice('energy', [True, False])
    ref = env.choice('reference', [0, 1])
    E3 = ic.EXP[env.choice('expansion', ['two', 'fcc', 'hex'])]
    P, files, wt = [], [], [1, 6]
    for i in range(2):
        m = I03.model(env, 'v%d' % i, nat, 2)
        env.assume(m['e'][1] < -1e-3)
        env.assume(m['e'][1] > -99999.)
        m['wt'] = [(str(w), w) for w in wt]
        P.append(m)
        files.append(I03.files(env, m, E3, xml=xml, name='m%d' % i))
    r = generate(env, 'phonopy', files, 'p', ref, True)
    compare(env, r, 'p', nat, E3, [m['vol'] for m in P],
            [m['e'][1] if xml else 0. for m in P],
            [[x[1] for x in q] for q in P[ref]['q']], wt,
            [[[m['fr'][q][j][1] * I03.THZ for m in P]
              for j in range(3 * nat)] for q in range(2)])


# ------------------------------------------------------------ crystal-qha
def qha(env):
    kind = env.choice('expansion', ['unit', 'two', 'hex'])
    nat = env.choice('atoms', [1, 2]) if kind == 'unit' else 1
    E3 = ic.EXP[kind]
    k = abs(ic.det(E3))
    A, E, F = I04.data(env, '', 4, 3 * nat * k)
    for e in E:
        env.assume(e[1] < 0.)
        env.assume(e[1] > -99999.)
    x, V = I04.text(env, '', 4, nat * k, 'fcc', I04.ORDER[4]['central'], A,
                    E, F, super3=E3 if k > 1 else None)
    r = generate(env, 'crystal-qha', [env.file(x, 'a.out')], 'q', 0, False)
    compare(env, r, 'q', nat, E3, [v / k for v in V],
            [e[1] / k for e in E], [[0.] * 3] * k, [1] * k,
            [[[F[q * 3 * nat + j][i][1] for i in range(4)]
              for j in range(3 * nat)] for q in range(k)])


# --------------------------------------------------------------- session
def session(env):
    """generators do not share data."""
    P = [point(env, 'p%d' % i, [1, 2]) for i in range(3)]
    f = [env.file(I02.gamma_text(1, p['lat'], p['e'], p['g']), 'f%d.out' % i)
         for i, p in enumerate(P)]
    a = generate(env, 'crystal', f[:2], 'a', 0, True, 'a.yaml')
    b = generate(env, 'crystal', f[2:], 'b', 0, True, 'b.yaml')

    def cmp(r, job, Q):
        compare(env, r, job, 1, ic.EXP['unit'], [p['vol'] for p in Q],
                [p['E'] for p in Q], [[0.] * 3], [1],
                [[[p['fr'][j] for p in Q] for j in range(3)]], job + ' ')
    cmp(b, 'b', P[2:])
    cmp(a, 'a', P[:2])


def jobs(env):
    job = env.choice('job', JOBS)
    p = point(env, 'p', [3])
    f = env.file(I02.gamma_text(1, p['lat'], p['e'], p['g']), 'f.out')
    r = generate(env, 'crystal', [f], job, 0, False)
    compare(env, r, job, 1, ic.EXP['unit'], [p['vol']], [p['E']], [[0.] * 3],
            [1], [[[x] for x in p['fr']]])


def refused(env):
    """files that cannot be read."""
    W, R = mods(env)
    env.patch(W, 'echo', lambda *a, **k: None)
    flag = env.choice('interface', ['crystal', 'phonopy', 'crystal-qha'])
    kind = env.choice('kind', ['missing', 'other', 'missing in list',
                               'other in list'])
    p = point(env, 'p', [3])
    f = env.file(I02.gamma_text(1, p['lat'], p['e'], p['g']), 'f.out')
    if flag != 'crystal':
        f = env.file('text\n' * 20, 'g.out')
    o = env.file('text\n' * 30, 'o.out')
    m = os.path.join(os.path.dirname(o), 'nothere.out')
    bad = m if 'missing' in kind else o
    lst = 'list' in kind
    g = W.QHAInputCreator(flag)
    ok, err = g.read(env.file(f + '\n' + bad + '\n', 'list') if lst else bad,
                     lst)
    env.check_true('refused', not ok)
    env.check_true('explained', isinstance(err, str) and len(err) > 9)


# ---------------------------------------------------------------- reader
def reader(env):
    """input files written by hand."""
    W, R = mods(env)
    n = env.choice('volumes', [1, 3])
    style = env.choice('style', ['flow', 'block', 'scalar'])
    job = env.choice('job', ['none', 'text', 'number'])
    V = [env.num('V%d' % i, pos=True, sample=(10., 80.)) for i in range(n)]
    U = [env.num('U%d' % i, sample=(-80., 80.)) for i in range(n)]
    wt = [env.num('w%d' % i, pos=True, sample=(1., 8.)) for i in range(2)]
    F = [[[env.num('f%d%d%d' % (q, j, i), sample=(-20., 900.))
           for i in range(n)] for j in range(3)] for q in range(2)]

    def vec(v, ind=''):
        if style == 'scalar' and n == 1:
            return v[0][0]
        if style == 'block':
            return '\n' + '\n'.join(ind + '  - ' + x[0] for x in v)
        return '[ ' + ', '.join(x[0] for x in v) + ' ]'
    L = {'none': [], 'text': ['job: a text'], 'number': ['job: 12']}[job]
    L += ['natom: 1', 'supercell:', '- [ 2, 0, 0 ]', '- [ 0, 2, 0 ]',
          '- [ 0, 0, 1 ]', 'qpoints: 2', 'volume: ' + vec(V),
          'energy: ' + vec(U), 'phonon:']
    for q in range(2):
        L += ['- q-position: [ 0., 0., 0.5 ]', '  weight: ' + wt[q][0],
              '  band:']
        for j in range(3):
            L += ['  - # %d' % j, '    frequency: ' + vec(F[q][j], '    ')]
        L += ['']
    r = R.QHAInputFileReader(env.file('\n'.join(L) + '\n', 'in.yaml'))
    env.check_true('completed', bool(r.completed), detail=str(r.error))
    env.check_true('job', r.jobname == {'none': 'Unknown', 'text': 'a text',
                                        'number': '12'}[job])
    env.check_true('sizes', r.natoms == 1 and r.qpoints == 2
                   and r.kpoints == 4 and r.nvol == n)
    v, u = np.reshape(r.volume, (-1,)), np.reshape(r.energy, (-1,))
    env.check_true('sizes', len(v) == n and len(u) == n)
    for i in range(n):
        env.check_eq('volume', v[i], V[i][1])
        env.check_eq('energy', u[i], U[i][1])
    fr, w = r.frequencies, r.weights
    for q in range(2):
        env.check_eq('weight', w[q], wt[q][1])
        for j in range(3):
            for i in range(n):
                env.check_eq('frequency', fr[q][j][i], F[q][j][i][1])
    env.check_eq('total', r.total_q_points, wt[0][1] + wt[1][1])


KEYS = ['natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon']


def incomplete(env):
    W, R = mods(env)
    kind = env.choice('kind', ['no ' + k for k in KEYS] + [
        'empty', 'text', 'list', 'yaml', 'tab', 'binary'])
    v = env.num('V', pos=True, sample=(10., 80.))
    full = {'natom': 'natom: 1', 'supercell': 'supercell:\n- [ 1, 0, 0 ]\n'
            '- [ 0, 1, 0 ]\n- [ 0, 0, 1 ]', 'qpoints': 'qpoints: 1',
            'volume': 'volume: [ %s ]' % v[0], 'energy': 'energy: [ -3.5 ]',
            'phonon': 'phonon:\n- q-position: [ 0., 0., 0. ]\n  weight: 1\n'
            '  band:\n  - frequency: [ 1. ]\n  - frequency: [ 1. ]\n'
            '  - frequency: [ 1. ]'}
    x = '\n'.join(full[k] for k in KEYS if kind != 'no ' + k) + '\n'
    if kind == 'empty':
        x = ''
    elif kind == 'text':
        x = 'a text\n'
    elif kind == 'list':
        x = '- 1\n- 2\n'
    elif kind == 'yaml':
        x = x.replace(' ]', '')
    elif kind == 'tab':
        x = x + '\t- a: {\n'
    f = env.file(x, 'in.yaml')
    if kind == 'binary':
        with open(f, 'wb') as g:
            g.write(bytes([0xff, 0xfe, 0x00, 0x81, 0x93] * 9))
    r = R.QHAInputFileReader(f)
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


WRONG = ['energies -', 'energies +', 'phonons -', 'phonons +', 'bands -',
         'bands +', 'frequencies -', 'frequencies 1', 'frequencies +',
         'volumes -', 'energy word', 'volume word', 'frequency word',
         'natom word']


def counts(env):
    """files in which the number of data is not the expected one."""
    W, R = mods(env)
    kind = env.choice('kind', WRONG)
    style = env.choice('style', ['list', 'text'])
    where = env.choice('where', [(0, 0), (1, 2)])
    n, nq = 3, 2
    V = [env.num('V%d' % i, pos=True, sample=(10., 80.))[0] for i in range(n)]
    U = [env.num('U%d' % i, sample=(-80., 80.))[0] for i in range(n)]
    F = [[[env.num('f%d%d%d' % (q, j, i), sample=(1., 900.))[0]
           for i in range(n)] for j in range(3)] for q in range(nq)]
    k, m = where
    nat = '1'
    if kind == 'energies -':
        U = U[:-1]
    elif kind == 'energies +':
        U = U + ['-3.5']
    elif kind == 'volumes -':
        V = V[:-1]
    elif kind == 'phonons -':
        F = [F[k]]
    elif kind == 'phonons +':
        F = F + [F[k]]
    elif kind == 'bands -':
        del F[k][m]
    elif kind == 'bands +':
        F[k].append(F[k][m])
    elif kind == 'frequencies -':
        F[k][m] = F[k][m][:-1]
    elif kind == 'frequencies 1':
        F[k][m] = F[k][m][:1]
    elif kind == 'frequencies +':
        F[k][m] = F[k][m] + ['12.5']
    elif kind == 'energy word':
        U[m] = 'abc'
    elif kind == 'volume word':
        V[m] = 'abc'
    elif kind == 'frequency word':
        F[k][m][1] = 'abc'
    elif kind == 'natom word':
        nat = 'one'
    sep = ', ' if style == 'list' else '  '

    def vec(v):
        return '[ ' + sep.join(v) + ' ]'
    L = ['natom: ' + nat, 'supercell:', '- [ 1, 0, 0 ]', '- [ 0, 1, 0 ]',
         '- [ 0, 0, 1 ]', 'qpoints: %d' % nq, 'volume: ' + vec(V),
         'energy: ' + vec(U), 'phonon:']
    for b in F:
        L += ['- q-position: [ 0., 0., 0. ]', '  weight: 1', '  band:']
        L += ['  - frequency: ' + vec(x) for x in b]
    r = R.QHAInputFileReader(env.file('\n'.join(L) + '\n', 'in.yaml'))
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def harnesses(tier):
    return [('gamma', gamma, {}), ('mesh', mesh, {}), ('phonopy', phonopy, {}),
            ('qha', qha, {}), ('session', session, {}), ('jobs', jobs, {}),
            ('refused', refused, {}), ('reader', reader, {}),
            ('incomplete', incomplete, {}), ('counts', counts, {})]
