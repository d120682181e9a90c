# -*- coding: utf-8 -*-
"""I02: phonon data read from CRYSTAL frequency outputs."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import icommon as ic

BOUNDS = ('1-2 atoms per cell, 1-3 q points, groups of degenerate modes; '
          'symbolic lattice vectors, energy, frequencies, q-point weights and '
          'coordinates; Gamma point, supercell without and with phonon '
          'dispersion, interpolated Hessian; right and left-handed cells; '
          'one or two files in one session; incomplete outputs')
OUTSIDE = 'layouts of other program versions; more than 999 modes'
ASSUMPTIONS = ['a numeric token stands for an arbitrary real']
GROUPS = {'single': [1, 1, 1], 'triple': [3], 'mixed': [1, 2],
          'reverse': [2, 1], 'two atoms': [3, 3], 'six': [1, 2, 2, 1],
          'six two': [4, 2], 'sixfold': [6]}


def reader(env):
    return env.load('quantas.interfaces.crystal').CrystalPhononReader


def band(env, tag, sizes):
    """(text groups, frequency of every mode)"""
    out, fr, k = [], [], 1
    for n, s in enumerate(sizes):
        t, x = env.num('%sf%d' % (tag, n), sample=(-20., 900.))
        out.append((k, k + s - 1, t))
        fr += [x] * s
        k += s
    return out, fr


def common(env, r, vol, e, nat, bands):
    env.check_true('completed', bool(r.completed), detail=str(r.error))
    env.check_true('no error', r.error is None, detail=str(r.error))
    env.check_true('natom', r.natom == nat, detail=str(r.natom))
    env.check_true('modes', r.nphonon == 3 * nat)
    env.check_true('q points', r.qpoints == len(bands))
    env.check_eq('volume', r.volume, vol)
    env.check_eq('energy', r.energy, e)
    env.check_true('bands', len(r.phonons) == len(bands))
    for q, b in enumerate(bands):
        env.check_true('band', len(r.phonons[q]) == len(b))
        for k, x in enumerate(b):
            env.check_eq('frequency %d %d' % (q, k), r.phonons[q][k], x)


def gamma_text(nat, lat, e, g, extra=()):
    return '\n'.join(ic.cell('GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF '
                             'THE SYSTEM    3', nat, lat) + ic.energy(e)
                     + ic.FREQ + ic.modes(g) + list(extra)) + '\n'


def gamma(env):
    left = env.choice('cell', ['right', 'left']) == 'left'
    lat, vol = ic.lattice(env, left=left)
    e, E = env.num('E', sample=(-300., -1.))
    env.assume(E < 0.)
    kind = env.choice('modes', sorted(GROUPS))
    sizes = GROUPS[kind]
    g, fr = band(env, '', sizes)
    # LO/TO frequencies of the same modes may follow
    more = env.choice('then', ['nothing', 'LO'])
    extra = ic.modes([(k, l, '999.%d' % k) for k, l, t in g]) \
        if more == 'LO' else []
    nat = sum(sizes) // 3
    r = reader(env)(env.file(gamma_text(nat, lat, e, g, extra), 'a.out'))
    common(env, r, vol, E, nat, [fr])
    env.check_true('weight', list(r.weights) in ([0], [1]) and
                   r.weights[0] == 1)
    env.check_true('no expansion', r.kpoints == 1)
    for k in range(3):
        env.check_eq('q', r.qcoords[0][k] / r.shrinkf[k], 0.)


def supercell(env):
    """expanded cell; phonon dispersion or not."""
    E3 = ic.EXP[env.choice('expansion', ['two', 'fcc', 'left', 'hex'])]
    disp = env.choice('dispersion', ['none', 'mesh', 'hessian'])
    n = abs(ic.det(E3))
    lat, vol = ic.lattice(env)
    e, E = env.num('E', sample=(-300., -1.))
    env.assume(E < 0.)
    nq = {'none': 1, 'mesh': n, 'hessian': 3}[disp]
    B = []
    for q in range(3 if disp == 'none' else nq):
        nat = n if disp == 'none' else 1
        B.append(band(env, 'q%d' % q, [3] * n if disp == 'none'
                      else [[1, 2], [3], [1, 1, 1], [2, 1]][q % 4]))
    wt = [env.num('w%d' % q, pos=True, sample=(1., 5.)) for q in range(4)]
    xyz = [[env.num('x%d%d' % (q, k), sample=(0., 3.)) for k in range(3)]
           for q in range(4)]
    sh = [2, 4, 3]
    L = ic.consistent(1) + ic.expansion(E3) + ic.cell(
        'GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3', n,
        lat)
    if disp != 'none':
        L += ic.DISP + ic.mesh(nq, [w[0] for w in wt], [[c[0] for c in x]
                                                       for x in xyz], sh,
                               disp == 'hessian')
    L += ic.energy(e) + ic.FREQ
    for g, _ in B[:nq]:
        L += ic.modes(g)
    r = reader(env)(env.file('\n'.join(L) + '\n', 'a.out'))
    if disp == 'none':
        common(env, r, vol, E, n, [B[0][1]])
        env.check_true('weight', r.weights[0] == 1 and len(r.weights) == 1)
        return
    common(env, r, vol / n, E / n, 1, [b for _, b in B])
    env.check_true('expansion', r.kpoints == n)
    for i in range(3):
        for j in range(3):
            env.check_eq('expansion', r.dim[i][j], float(E3[i][j]))
    for q in range(nq):
        env.check_eq('weight', r.weights[q], wt[q][1])
        for k in range(3):
            env.check_eq('q', r.qcoords[q][k] / r.shrinkf[k],
                         xyz[q][k][1] / sh[k])


def two(env):
    """files read one after the other."""
    A, va = ic.lattice(env, 'a')
    B, vb = ic.lattice(env, 'b')
    e, E = env.num('E', sample=(-300., -1.))
    d, D = env.num('D', sample=(-300., -1.))
    env.assume(E < 0.)
    env.assume(D < 0.)
    g, fr = band(env, 'a', [1, 2])
    h, gr = band(env, 'b', [3, 3])
    R = reader(env)
    a = R(env.file(gamma_text(1, A, e, g), 'a.out'))
    b = R(env.file(gamma_text(2, B, d, h), 'b.out'))
    common(env, a, va, E, 1, [fr])
    common(env, b, vb, D, 2, [gr])


def wrong(env):
    kind = env.choice('kind', ['empty', 'other', 'fewer modes',
                               'no modes', 'no energy', 'missing q'])
    g, fr = band(env, '', [1, 1, 1])
    lat = [[('%.3f' % x, x) for x in v] for v in ic.FCC]
    x = gamma_text(1, lat, '-10.5', g)
    if kind == 'empty':
        x = ''
    elif kind == 'other':
        x = 'text\n' * 30
    elif kind == 'fewer modes':
        x = gamma_text(1, lat, '-10.5', g[:2])
    elif kind == 'no modes':
        x = '\n'.join(x.split('\n')[:-8]) + '\n'
    elif kind == 'no energy':
        x = gamma_text(1, lat, '0.0000', g)
    elif kind == 'missing q':
        L = ic.consistent(1) + ic.expansion(ic.EXP['two']) + ic.cell(
            'GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY', 2, lat)
        L += ic.DISP + ic.mesh(2, ['1', '1'], [['0'] * 3, ['1', '0', '0']],
                               [2, 1, 1], False)
        L += ic.energy('-10.5') + ic.FREQ + ic.modes(g)
        x = '\n'.join(L) + '\n'
    r = reader(env)(env.file(x, 'a.out'))
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def cut(env):
    """an output that ends at any line."""
    kind = env.choice('output', ['gamma', 'mesh'])
    g, fr = band(env, '', [1, 2])
    lat, vol = ic.lattice(env)
    e, E = env.num('E', sample=(-300., -1.))
    env.assume(E < 0.)
    if kind == 'gamma':
        L = gamma_text(1, lat, e, g).rstrip().split('\n')
    else:
        L = ic.consistent(1) + ic.expansion(ic.EXP['two']) + ic.cell(
            'GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY', 2, lat)
        L += ic.DISP + ic.mesh(2, ['1', '1'], [['0'] * 3, ['1', '0', '0']],
                               [2, 1, 1], False)
        L += ic.energy(e) + ic.FREQ + ic.modes(g) + ic.modes(g)
        L = '\n'.join(L).rstrip().split('\n')
    n = env.choice('lines', list(range(len(L))))
    r = reader(env)(env.file('\n'.join(L[:n]) + '\n', 'a.out'))
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def harnesses(tier):
    return [('gamma', gamma, {'validate': 8}), ('supercell', supercell, {}),
            ('two', two, {}), ('wrong', wrong, {}),
            ('cut', cut, {'max_paths': 300})]
