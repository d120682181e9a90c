# -*- coding: utf-8 -*-
"""texts of the outputs read by the interfaces."""
FCC = [[0., 2.125, 2.125], [2.125, 0., 2.125], [2.125, 2.125, 0.]]
EXP = {'unit': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
       'two': [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
       'fcc': [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
       'left': [[1, 0, 0], [0, 0, 2], [0, 1, 0]],
       # the determinant of floating point numbers is just below three
       'hex': [[2, 1, 0], [1, 2, 0], [0, 0, 1]]}


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def lattice(env, tag='', left=False, edge=(3., 5.)):
    """nine tokens; determinant positive, or negative when left."""
    L = []
    for i in range(3):
        L.append([env.num('%sa%d%d' % (tag, i, j), sample=edge if i == j
                          else (-.4, .4)) for j in range(3)])
    if left:
        L[0], L[1] = L[1], L[0]
    d = det([[x[1] for x in r] for r in L])
    env.assume(d < -1. if left else d > 1.)
    return L, -d if left else d


def cell(head, natom, lat, wf=True):
    L = [' ' + head,
         ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)',
         ' ' + '*' * 79,
         ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083',
         ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.9 - DENSITY  3.5 '
         'g/cm^3', '         A              B              C',
         '     2.98     2.98     2.98    60.0  60.0  60.0', ' ' + '*' * 79,
         ' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d'
         % natom, '     ATOM                 X/A                 Y/B      Z/C',
         ' ' + '*' * 79]
    for i in range(natom):
        L.append(' %6d T  %2d %s    0.0E+00  2.5E-01 -%dE-01' % (
            i + 1, [12, 8][i % 2], ['MG', 'O'][i % 2], i))
    L += ['', ' T = ATOM BELONGING TO THE ASYMMETRIC UNIT', '']
    L += vectors(lat)
    return L


def vectors(lat):
    return [' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)',
            '          X                    Y                    Z'] + \
        ['   ' + '   '.join(x[0] for x in r) for r in lat] + ['']


def consistent(natom):
    """cell before the expansion."""
    L = [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '',
         ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES)',
         ' PRIMITIVE CELL - VOLUME=    18.9 - DENSITY  3.5 g/cm^3',
         '         A              B              C',
         '     2.98     2.98     2.98    60.0  60.0  60.0', ' ' + '*' * 79,
         ' ATOMS IN THE ASYMMETRIC UNIT    1 - ATOMS IN THE UNIT CELL: %4d'
         % natom, '     ATOM                 X/A                 Y/B      Z/C',
         ' ' + '*' * 79]
    for i in range(natom):
        L.append(' %6d T  %2d %s    0.0E+00  2.5E-01 -%dE-01' % (
            i + 1, [12, 8][i % 2], ['MG', 'O'][i % 2], i))
    return L + ['']


def expansion(E):
    return [' SUPERCELL OPTION', ' * SUPERCELL OPTION', '',
            ' EXPANSION MATRIX OF PRIMITIVE CELL'] + [
        ' E%d   %s' % (i + 1, '   '.join('%.3f' % x for x in E[i]))
        for i in range(3)] + [' NUMBER OF ATOMS PER SUPERCELL', '']


def modes(groups, extra=True):
    """groups: [(first, last, token)]"""
    L = ['    MODES         EIGV          FREQUENCIES     IRREP  IR   INTENS',
         '             (HARTREE**2)   (CM**-1)     (THZ)             (KM/MOL)']
    for a, b, t in groups:
        L.append(' %4d-%4d    0.3015E-05  %s   11.4250  (Fu )   A ( 12.92)'
                 % (a, b, t))
    return L + ['', '']


KMESH = ['', ' * FREQUENCIES AT A SET OF K POINTS', '']


def mesh(nq, wt, xyz, shrink, hess):
    """table of the sampled q points."""
    if hess:
        L = [' ACTIVATED INTERPOLATION OF THE HESSIAN UP TO   %d K POINTS IN'
             % nq] + [' * line %d' % k for k in range(8)]
    else:
        L = [' * CELL THAT PERMITS THE CALCULATION OF MODES AT   %d K POINTS '
             'IN' % nq, ' * more text', '',
             ' *        K       WEIGHT       COORD']
    for i in range(nq):
        L.append(' *  %4d   %s   %s' % (i + 1, wt[i], '  '.join(xyz[i])))
    L.append(' * WITH SHRINKING FACTORS: IS1 = %s IS2 = %s IS3 = %s' %
             tuple(shrink))
    return L + ['']


FREQ = [' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND '
        'HARMONIC TRANSVERSE', '']
DISP = [' PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL', '']


def energy(t):
    return ['   ATOM      MAX ABS(DGRAD)       TOTAL ENERGY (AU)  N.CYC',
            '    CENTRAL POINT             %s    37     0.0000E+00    48' % t,
            '    2 O  DX   2.9899E-04      -2.754625418373E+02     6', '']
