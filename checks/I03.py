# -*- coding: utf-8 -*-
"""I03: phonon data read from phonopy files."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import icommon as ic

BOUNDS = ('1-2 atoms, 1-2 q points; symbolic lattice, energy, frequencies, '
          'q-point coordinates and weights; with and without an energy file; '
          'right and left-handed cells; one or two files in one session; '
          'missing or malformed files')
OUTSIDE = 'phonopy versions with other keywords; YAML syntax variants'
ASSUMPTIONS = ['a numeric token stands for an arbitrary real']
THZ = 1e12 / 2.99792458e10
SYM = [('Mg', 12), ('O', 8), ('Si', 14)]


def reader(env):
    return env.load('quantas.interfaces.phonopy').PhonopyReader


def points(nat, pos):
    L = ['  points:' if pos is None else 'points:']
    for i in range(nat):
        L += ['- symbol: %-2s # %d' % (SYM[i][0], i + 1),
              '  coordinates: [ %s ]' % ', '.join(
                  ['0.25', '0.50', '0.75'] if pos is None else pos[i]),
              '  mass: 24.3050']
    return L


def band_yaml(nat, lat, pos, q, wt, fr):
    L = ['mesh: [ 2, 2, 2 ]', 'nqpoint: %d' % len(q), 'natom: %d' % nat,
         'lattice:']
    L += ['- [ %s ]' % ', '.join(x[0] for x in r) for r in lat]
    L += points(nat, pos)
    L += ['phonon:']
    for k in range(len(q)):
        L += ['- q-position: [ %s ]' % ', '.join(x[0] for x in q[k]),
              '  weight: %s' % wt[k][0], '  band:']
        for j in range(3 * nat):
            L += ['  - # %d' % (j + 1), '    frequency: %s' % fr[k][j][0]]
        L.append('')
    return '\n'.join(L) + '\n'


def disp_yaml(nat, E):
    L = ['natom: %d' % nat, 'supercell_matrix:']
    L += ['- [ %d, %d, %d ]' % tuple(r) for r in E]
    L += ['displacements:', '- atom: 1', '  displacement: [ 0.01, 0, 0 ]',
          'supercell:', '  lattice:', '  - [ 4.0, 0.0, 0.0 ]',
          '  - [ 0.0, 4.0, 0.0 ]', '  - [ 0.0, 0.0, 4.0 ]', '  points:']
    for i in range(nat):
        L += ['  - symbol: %-2s # %d' % (SYM[i % 2][0], i + 1),
              '    coordinates: [ 0.25, 0.50, 0.75 ]', '    mass: 24.30']
    return '\n'.join(L) + '\n'


def vasprun(e):
    return '''<?xml version="1.0" encoding="ISO-8859-1"?>
<modeling>
 <calculation>
  <scstep>
   <energy>
    <i name="e_fr_energy">     -1.00000000 </i>
    <i name="e_wo_entrp">     -2.00000000 </i>
   </energy>
  </scstep>
  <energy>
   <i name="e_fr_energy">     -3.50000000 </i>
   <i name="e_wo_entrp">     %s </i>
   <i name="e_0_energy">     -4.50000000 </i>
  </energy>
 </calculation>
</modeling>
''' % e


def model(env, tag, nat, nq, left=False):
    lat, vol = ic.lattice(env, tag, left=left)
    e = env.num(tag + 'E', sample=(-300., -1.))
    pos = [[env.num('%sp%d%d' % (tag, i, k), sample=(0., 1.))
            for k in range(3)] for i in range(nat)]
    q = [[env.num('%sq%d%d' % (tag, i, k), sample=(0., .5))
          for k in range(3)] for i in range(nq)]
    wt = [env.num('%sw%d' % (tag, i), pos=True, sample=(1., 8.))
          for i in range(nq)]
    fr = [[env.num('%sf%d%d' % (tag, i, j), sample=(-2., 20.))
           for j in range(3 * nat)] for i in range(nq)]
    return dict(lat=lat, vol=vol, e=e, pos=pos, q=q, wt=wt, fr=fr, nat=nat)


def files(env, m, E, xml=True, disp=True, name='mesh'):
    f = env.file(band_yaml(m['nat'], m['lat'], [[x[0] for x in p]
                                                for p in m['pos']],
                           m['q'], m['wt'], m['fr']), name + '.yaml')
    b = os.path.splitext(f)[0]
    if disp:
        with open(b + '_disp.yaml', 'w') as g:
            g.write(disp_yaml(2 * m['nat'], E))
    if xml:
        with open(b + '.xml', 'w') as g:
            g.write(vasprun(m['e'][0]))
    return f


def check(env, r, m, E, xml, lab=''):
    env.check_true(lab + 'completed', bool(r.completed), detail=str(r.error))
    env.check_true(lab + 'no error', r.error is None, detail=str(r.error))
    env.check_true(lab + 'natom', r.natom == m['nat'])
    env.check_true(lab + 'modes', r.nphonon == 3 * m['nat'])
    env.check_true(lab + 'q points', r.qpoints == len(m['q']))
    env.check_true(lab + 'cells', r.kpoints == abs(ic.det(E)))
    env.check_eq(lab + 'volume', r.volume, m['vol'])
    env.check_eq(lab + 'energy', r.energy, m['e'][1] if xml else 0.)
    for i in range(3):
        for j in range(3):
            env.check_eq(lab + 'expansion', r.dim[i][j], E[i][j])
    for q in range(len(m['q'])):
        env.check_eq(lab + 'weight', r.weights[q], m['wt'][q][1])
        for k in range(3):
            env.check_eq(lab + 'q', r.qcoords[q][k] / r.shrinkf[k],
                         m['q'][q][k][1])
        env.check_true(lab + 'band', len(r.phonons[q]) == 3 * m['nat'])
        for j in range(3 * m['nat']):
            env.check_eq(lab + 'frequency %d %d' % (q, j), r.phonons[q][j],
                         m['fr'][q][j][1] * THZ, rtol=1e-6, ctol=1e-6)
    for i, p in enumerate(m['pos']):
        for k in range(3):
            env.check_eq(lab + 'position', r.unitcell[2][i][k], p[k][1])
        env.check_true(lab + 'species', r.unitcell[3][i] == SYM[i][1])


def read(env):
    left = env.choice('cell', ['right', 'left']) == 'left'
    nat = env.choice('atoms', [1, 2])
    E = ic.EXP[env.choice('expansion', ['two', 'fcc', 'left', 'hex'])]
    xml = env.choice('energy', [True, False])
    m = model(env, '', nat, 2, left)
    check(env, reader(env)(files(env, m, E, xml)), m, E, xml)


def two(env):
    m, n = model(env, 'a', 1, 1), model(env, 'b', 1, 2)
    xml = env.choice('energy', [True, False])
    R = reader(env)
    E, F = ic.EXP['two'], ic.EXP['fcc']
    a = R(files(env, m, E))
    b = R(files(env, n, F, xml, name='other'))
    check(env, a, m, E, True, 'first ')
    check(env, b, n, F, xml, 'second ')


def wrong(env):
    m = model(env, '', 1, 1)
    kind = env.choice('kind', ['no displacements', 'malformed',
                               'malformed displacements'])
    f = files(env, m, ic.EXP['two'], disp=kind != 'no displacements')
    if kind == 'malformed':
        with open(f, 'w') as g:
            g.write('natom: [ 1, 2\nlattice: }\n')
    if kind == 'malformed displacements':
        with open(os.path.splitext(f)[0] + '_disp.yaml', 'w') as g:
            g.write('natom: [ 1, 2\nlattice: }\n')
    r = reader(env)(f)
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9,
                   detail=repr(r.error))


ELEMENTS = (
    'H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co '
    'Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb '
    'Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re '
    'Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es '
    'Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()


def species(env):
    """every chemical element."""
    import numpy as np
    lo = env.choice('elements', [0, 40, 80])
    m = model(env, '', 1, 1)
    some = ELEMENTS[lo:lo + 40]
    f = files(env, m, ic.EXP['two'])
    with open(f) as g:
        t = g.read()
    a = t.index('points:')
    b = t.index('phonon:')
    t = (t[:a] + 'points:\n' + ''.join(
        '- symbol: %s\n  coordinates: [ 0.25, 0.50, 0.75 ]\n' % repr(x)
        for x in some) + t[b:]).replace('natom: 1', 'natom: %d' % len(some))
    i = t.index('    frequency:')
    fr = t[i:].split('\n')[0]
    t = t[:t.index('  band:')] + '  band:\n' + (
        '  - # mode\n%s\n' % fr) * (3 * len(some))
    with open(f, 'w') as g:
        g.write(t)
    r = reader(env)(f)
    env.check_true('completed', bool(r.completed), detail=str(r.error))
    for k, x in enumerate(some):
        env.check_true('species', r.unitcell[3][k] == lo + k + 1,
                       detail='%s: %s' % (x, r.unitcell[3][k]))


def cut(env):
    """files that end at any line."""
    which = env.choice('file', ['mesh', 'displacements', 'energy'])
    m = model(env, '', 1, 2)
    f = files(env, m, ic.EXP['two'])
    b = os.path.splitext(f)[0]
    p = {'mesh': f, 'displacements': b + '_disp.yaml',
         'energy': b + '.xml'}[which]
    with open(p) as g:
        L = g.read().rstrip().split('\n')
    # the atoms of the supercell are as many as listed
    n = env.choice('lines', list(range(
        16 if which == 'displacements' else len(L))))
    with open(p, 'w') as g:
        g.write('\n'.join(L[:n]) + '\n')
    r = reader(env)(f)
    env.check_true('refused', not r.completed)
    env.check_true('explained', isinstance(r.error, str) and len(r.error) > 9)


def harnesses(tier):
    return [('read', read, {'validate': 8}), ('two', two, {}),
            ('wrong', wrong, {}), ('species', species, {}),
            ('cut', cut, {'max_paths': 300})]
