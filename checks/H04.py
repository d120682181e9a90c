# -*- coding: utf-8 -*-
"""H04: the harmonic-approximation calculator, from input file to results."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import hcommon as hc

BOUNDS = ('2 volumes, 2 q-points, 1 atom (3 modes), symbolic frequencies, '
          'weights, energies and volumes; 1-2 temperatures; every '
          'combination of energy, frequency and temperature unit of the '
          'command line')
OUTSIDE = 'YAML syntax variants beyond the ones written here'
ASSUMPTIONS = ['unit constants agree with CODATA to 1e-6']
EH, EV, RY = 4.3597447222071e-18, 1.602176634e-19, 2.1798723611035e-18
EU = {'Ha': EH, 'eV': EV, 'Ry': RY}
FU = {'cm^-1': 2.99792458e10, 'THz': 1e12, 'Hz': 1.}
TMIN = {'K': 300., 'C': 25.}


def settings(trange=(300., 300., 1.), e='Ha', f='cm^-1', t='K'):
    return {'trange': trange, 'energy_unit': e, 'lenght_unit': 'A',
            'frequency_unit': f, 'temperature_unit': t, 'debug': False,
            'silent': True, 'logfile': None}


def yaml_text(env, nv, nq, nat, fr, wt, V, U, job='A job', style='block'):
    def row(vals):
        return '[ ' + ', '.join(vals) + ' ]'
    L = []
    if job is not None:
        L.append('job: ' + job)
    L += ['natom: %d' % nat, 'supercell:', '- [1, 0, 0]', '- [0, 1, 0]',
          '- [0, 0, 1]', 'qpoints: %d' % nq,
          'volume: ' + row([v[0] for v in V]),
          'energy: ' + row([v[0] for v in U]), 'phonon:']
    for q in range(nq):
        L += ['- q-position: [ 0.0, 0.0, %.3f ]' % (q / 4.),
              '  weight: %s' % wt[q][0], '  band:']
        for k in range(3 * nat):
            L += ['  - # %d' % (k + 1),
                  '    frequency: ' + row([x[0] for x in fr[q][k]])]
    return '\n'.join(L) + '\n'


def make(env, nv=2, nq=2, nat=1, scale=1., tag='', pos=True, free=None,
         job='A job'):
    n = 0
    fr = []
    for q in range(nq):
        fr.append([])
        for k in range(3 * nat):
            row = []
            for v in range(nv):
                if free is None or n < free:
                    t, x = env.num('%sf%d%d%d' % (tag, q, k, v), pos=pos,
                                   sample=(3. * scale, 20. * scale))
                else:
                    val = [0., -1.5, 7.25, 11.5, 3.125][n % 5] * scale
                    t, x = repr(val), val
                n += 1
                row.append((t, x))
            fr[q].append(row)
    wt = [env.num('%sw%d' % (tag, q), pos=True, sample=(.5, 3.))
          for q in range(nq)]
    V = [env.num('%sV%d' % (tag, v), pos=True, sample=(60., 90.))
         for v in range(nv)]
    U = [env.num('%sU%d' % (tag, v), sample=(-300., -1.)) for v in range(nv)]
    txt = yaml_text(env, nv, nq, nat, fr, wt, V, U, job)
    return txt, fr, wt, V, U


def expect(env, res, T, tk, fr, wt, U, e, f, sel=None):
    """results of the calculator against the closed forms."""
    nq, nv = len(fr), len(U)
    fac = 1e3 / hc.NA / EU[e]
    tot = 0.
    for q in range(nq):
        tot = tot + wt[q][1]
    for n in range(nv):
        for i in range(len(tk)):
            s = dict.fromkeys(('z', 'u', 's', 'f', 'c'), 0.)
            for q in range(nq):
                for k in range(len(fr[q])):
                    w = fr[q][k][n][1] * FU[f]
                    pos = bool(w > 0.)
                    if not pos:
                        continue
                    g = wt[q][1] / tot
                    s['z'] = s['z'] + hc.zpe(env, tk[i], w) * g
                    s['u'] = s['u'] + hc.uth(env, tk[i], w) * g
                    s['s'] = s['s'] + hc.ent(env, tk[i], w) * g
                    s['f'] = s['f'] + hc.fvib(env, tk[i], w) * g
                    s['c'] = s['c'] + hc.cv(env, tk[i], w) * g
            kw = dict(rtol=1e-6, ctol=1e-6)
            lab = '[%d,%d]' % (i, n)
            env.check_eq('Uzp' + lab, res['Uzp'][0][n], s['z'] * fac, **kw)
            env.check_eq('Uth' + lab, res['Uth'][i][n], s['u'] * fac, **kw)
            env.check_eq('S' + lab, res['S'][i][n], s['s'] * fac, **kw)
            env.check_eq('Cv' + lab, res['Cv'][i][n], s['c'] * fac, **kw)
            env.check_eq('Fvib' + lab, res['Fvib'][i][n], s['f'] * fac,
                         catol=1e-8, **kw)
            env.check_eq('Utot' + lab, res['Utot'][i][n], U[n][1]
                         + res['Uzp'][0][n] + res['Uth'][i][n])
            env.check_eq('F' + lab, res['F'][i][n],
                         U[n][1] + res['Fvib'][i][n])


def run(env, txt, st):
    C = env.load('quantas.harmonic.harmonic').HACalculator
    c = C(st)
    err = c.read_input(env.file(txt, 'in.yaml'))
    env.check_true('input accepted', err is None, detail=str(err))
    c.report_input_data()
    c.run()
    env.check_true('completed', bool(c.completed))
    return c


def units(env):
    e = env.choice('energy', sorted(EU))
    f = env.choice('frequency', sorted(FU))
    t = env.choice('temperature', ['K', 'C'])
    sc = {'cm^-1': 30., 'THz': 1., 'Hz': 1e12}[f]
    txt, fr, wt, V, U = make(env, nv=1, nq=2, nat=1, scale=sc, free=3)
    t0 = TMIN[t]
    c = run(env, txt, settings((t0, t0 + 100., 100.), e, f, t))
    off = 273.15 if t == 'C' else 0.
    expect(env, c.results, None, [t0 + off, t0 + 100. + off], fr, wt, U, e,
           f)


def shape(nv, nq, nat, free):
    def h(env):
        txt, fr, wt, V, U = make(env, nv=nv, nq=nq, nat=nat, scale=30.,
                                 free=free)
        c = run(env, txt, settings((280., 380., 100.)))
        expect(env, c.results, None, [280., 380.], fr, wt, U, 'Ha', 'cm^-1')
    return h


def signs(env):
    """any sign of the frequencies."""
    txt, fr, wt, V, U = make(env, nv=1, nq=1, nat=1, scale=30., pos=False)
    for k in range(3):
        env.assume(env.And(fr[0][k][0][1] > -3e3, fr[0][k][0][1] < 3e3))
    c = run(env, txt, settings((300., 300., 1.)))
    expect(env, c.results, None, [300.], fr, wt, U, 'Ha', 'cm^-1')


def zero(env):
    """absolute zero: F = U = U0 + Uzp, S = Cv = 0."""
    t = env.choice('temperature', ['K', 'C'])
    txt, fr, wt, V, U = make(env, nv=2, nq=1, nat=1, scale=30.)
    t0 = 0. if t == 'K' else -273.15
    c = run(env, txt, settings((t0, t0, 1.), t=t))
    r = c.results
    for n in range(2):
        z = 0.
        for k in range(3):
            z = z + hc.zpe(env, 0., fr[0][k][n][1] * FU['cm^-1'])
        z = z * 1e3 / hc.NA / EH
        env.check_eq('Uzp', r['Uzp'][0][n], z, rtol=1e-6, ctol=1e-6)
        env.check_eq('F', r['F'][0][n], U[n][1] + r['Uzp'][0][n])
        env.check_eq('U', r['Utot'][0][n], U[n][1] + r['Uzp'][0][n])
        env.check_eq('S', r['S'][0][n], 0., catol=1e-12)
        env.check_eq('Cv', r['Cv'][0][n], 0., catol=1e-12)
        env.check_eq('Uth', r['Uth'][0][n], 0., catol=1e-12)


def weights(env):
    """only the relative weights matter."""
    txt, fr, wt, V, U = make(env, nv=1, nq=2, nat=1, scale=30., free=4)
    s = env.real('s', pos=True, sample=(.3, 5.))
    c = run(env, txt, settings())
    wt2 = [(env.token(w[1] * s), w[1] * s) for w in wt]
    txt2 = yaml_text(env, 1, 2, 1, fr, wt2, V, U)
    d = run(env, txt2, settings())
    for k in ('Uzp', 'Uth', 'S', 'Cv', 'Fvib', 'F', 'Utot'):
        env.check_eq(k, c.results[k][0][0], d.results[k][0][0], ctol=1e-6)


def history(env):
    """two calculators in one session do not influence each other."""
    t1, f1, w1, V1, U1 = make(env, nv=1, nq=1, scale=30., tag='a', free=2)
    t2, f2, w2, V2, U2 = make(env, nv=2, nq=2, scale=30., tag='b', free=2)
    c = run(env, t1, settings((300., 300., 1.)))
    d = run(env, t2, settings((300., 400., 100.), e='eV'))
    expect(env, c.results, None, [300.], f1, w1, U1, 'Ha', 'cm^-1')
    expect(env, d.results, None, [300., 400.], f2, w2, U2, 'eV', 'cm^-1')


def harnesses(tier):
    out = [('units', units, {'validate': 18}),
           ('shape-211', shape(2, 1, 1, 6), {}),
           ('shape-121', shape(1, 2, 1, 4), {}),
           ('shape-221', shape(2, 2, 1, 6), {}),
           ('shape-112', shape(1, 1, 2, 4), {}),
           ('shape-311', shape(3, 1, 1, 5), {}),
           ('signs', signs, {}), ('zero', zero, {}),
           ('weights', weights, {}), ('history', history, {})]
    if tier == 'thorough':
        out += [('shape-222', shape(2, 2, 2, 6), {}),
                ('shape-331', shape(3, 3, 1, 12), {})]
    return [(n, f, dict(o, int_opaque=True)) for n, f, o in out]
