# -*- coding: utf-8 -*-
"""C01: the commands, from the command line to the results on disk."""
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import numpy as np
import qcommon as qc
import scommon as sc
import icommon as ic
import H04
import P01
import S05
import I02
import I03
import E05
import Q04
import Q05
from vx.expr import Unsupported

BOUNDS = ('commands ha, qha, soec, eosfit, export and inpgen with every unit '
          'option, scheme, minimization and formulation of the command line; '
          'default and given output names, dotted names, other directories; '
          'new, overwritten and kept results; symbolic numbers in the input '
          '(1-2 modes, 1 q-point, 2-4 volumes; cubic elastic constants)')
OUTSIDE = ('the terminal and argument parser (click); unknown commands and '
           'help texts; plots')
ASSUMPTIONS = ['click parses the arguments', 'h5py stores datasets and '
               'attributes unchanged', 'the thermodynamic interpolations of '
               'the quasi-harmonic command are checked by Q01-Q03 and replaced '
               'by symbolic results here', 'global minimisation of the '
               'elastic extrema is replaced by its contract (S05)']
TEMP = {'K': ['290', '500', '100'], 'C': ['-20', '180', '100']}


class Screen(object):
    """what the user sees and answers."""

    def __init__(self, env, answer=False):
        import click
        self.env, self.click = env, click
        self.shown, self.asked, self.answer = [], [], answer
        env.patch(click, 'secho', self.secho)
        env.patch(click, 'echo', self.secho)
        env.patch(click, 'confirm', self.confirm)
        env.patch(click, 'prompt', self.prompt)
        qc.quiet(env)

    def secho(self, msg=None, *a, **k):
        self.shown.append(str(msg))

    def confirm(self, text, *a, **k):
        self.asked.append(self.click.unstyle(text))
        if callable(self.answer):
            return self.answer(text)
        return self.answer

    def prompt(self, text, *a, **k):
        self.asked.append(self.click.unstyle(text))
        raise Unsupported('question ' + text)

    def run(self, mod, name, args):
        cmd = getattr(self.env.load(mod), name)
        try:
            cmd.main(args, standalone_mode=False)
        except SystemExit:
            pass

    def text(self):
        return '\n'.join(self.shown)


HA = ('quantas.harmonic.commands.cmd_ha', 'ha_calculation')
QHA = ('quantas.qha.commands.cmd_qha', 'qha_calculation')
SOEC = ('quantas.soec.commands.cmd_soec', 'soec_calculation')
EOS = ('quantas.eosfit.commands.cmd_eosfit', 'eos_calculation')
CMD = {'ha': HA, 'qha': QHA, 'soec': SOEC, 'eosfit': EOS}
SUFFIX = {'ha': '_HA', 'qha': '_QHA', 'soec': '_SOEC'}


def place(env, text, name):
    d = env.tmpdir()
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(text)
    return p


def get(path):
    with open(path) as f:
        return f.read()


def logged(env, s, path):
    """every message on the screen is in the log, in the same order."""
    log = get(path)
    at = 0
    for m in s.shown:
        k = log.find(m.rstrip(), at)
        env.check_true('message in the log', k >= 0, detail=repr(m)[:200])
        at = max(k, at)
    return log


def setting(log, key):
    out = []
    for l in log.splitlines():
        w = l.strip()
        if w.startswith('- ' + key):
            out.append(w.split(':', 1)[1].split())
    return out


# ------------------------------------------------------------------- ha
def ha_units(env):
    e = env.choice('energy', sorted(H04.EU))
    f = env.choice('frequency', sorted(H04.FU))
    t = env.choice('temperature', ['K', 'C'])
    quiet = env.choice('quiet', [False, True])
    scale = {'cm^-1': 30., 'THz': 1., 'Hz': 1e12}[f]
    txt, fr, wt, V, U = H04.make(env, nv=2, nq=1, nat=1, scale=scale, free=2)
    p = place(env, txt, 'in.yaml')
    s = Screen(env)
    v = env.choice('volume', ['A', 'bohr']) if e == 'Ha' else 'A'
    s.run(HA[0], HA[1], [p, '--eunit', e, '--funit', {
        'cm^-1': 'cm-1'}.get(f, f), '--tunit', t, '--vunit', v, '-T']
        + TEMP[t] + (['-q'] if quiet else []))
    d = os.path.dirname(p)
    h = env.h5(os.path.join(d, 'in_HA.hdf5'))
    tk = [290., 390., 490.] if t == 'K' else [253.15, 353.15, 453.15]
    off = 273.15 if t == 'C' else 0.
    env.check_true('temperatures', np.shape(h['/T'][0]) == (3,))
    for i in range(3):
        env.check_eq('T', h['/T'][0][i], tk[i] - off)
    for k, w, u in (('V', V, v), ('U0', U, e)):
        env.check_true('unit of ' + k, h['/' + k][1].get('unit') == u)
        for n in range(2):
            env.check_eq(k, h['/' + k][0][n], w[n][1])
    H04.expect(env, {k: h['/' + k][0] for k in Q04.HA}, None, tk, fr, wt, U,
               e, f)
    for k in Q04.HA[1:]:
        env.check_true('unit of ' + k, h['/' + k][1].get('unit') == (
            'm' + e if k in ('S', 'Cv') else e))
    env.check_true('input kept', get(p) == txt)
    lp = os.path.join(d, 'in_HA.txt')
    if quiet:
        env.check_true('nothing on the screen', not s.shown,
                       detail=repr(s.shown)[:300])
        log = get(lp)
    else:
        log = logged(env, s, lp)
        env.check_true('something on the screen', len(s.shown) > 3)
    env.check_true('no question', not s.asked)
    for key, w in (('energy', e), ('lenght', v), ('frequency', f),
                   ('temperature', t)):
        env.check_true('logged unit of ' + key, setting(log, key) == [[w]],
                       detail=str(setting(log, key)))
    for key, w in zip(('min', 'max', 'step'), TEMP[t]):
        x = setting(log, key)
        env.check_true('logged ' + key, len(x) == 1 and x[0][1] == t and
                       float(x[0][0]) == float(w), detail=str(x))


def source(env, cmd, tag='', bad=None):
    """text of a small input; what identifies its results."""
    if cmd == 'soec':
        a, b, c = [env.real(tag + n, sample=x) for n, x in (
            ('c11', (200., 300.)), ('c12', (20., 60.)),
            ('c44', (60., 120.)))]
        C = [[0.] * 6 for _ in range(6)]
        for i in range(3):
            C[i][i], C[i + 3][i + 3] = a, c
            for j in range(3):
                if j != i:
                    C[i][j] = b
        for x in (a, b, c, a - b - 20., 300. - a, 150. - c):
            env.assume(x > 1.)
        e = env.load(sc.CALC).np.linalg.eigvalsh(env.mkarr(C))
        env.assume(e[0] > 1.)
        rows = []
        for i in range(6):
            rows.append(' '.join('0.0' if isinstance(x, float) and x == 0.
                                 else env.token(x) for x in C[i]))
        if bad:
            rows = rows[:4]
        return 'A title\n' + '\n'.join(rows) + '\n', C
    if cmd == 'eosfit':
        txt, vals = E05.build(env, ['P', 'V'], 'A title', False, tag + 'x')
        if bad:
            txt = txt.replace('FORMAT\nP V', 'FORMAT\nP sigmaP')
        return txt, vals
    nv = 4 if cmd == 'qha' else 2
    txt, fr, wt, V, U = H04.make(env, nv=nv, nq=1, nat=1, scale=30., tag=tag,
                                 free=1)
    if bad:
        txt = '\n'.join(l for l in txt.split('\n')
                        if not l.startswith('energy:'))
    return txt, U


def content(env, cmd, path, want, lab):
    """the results file holds the results of this input."""
    h = env.h5(path)
    if cmd == 'soec':
        for i in range(6):
            for j in range(6):
                env.check_eq(lab + 'stiffness', h['/stiffness'][0][i, j],
                             want[i][j])
    elif cmd == 'ha':
        for i in range(2):
            env.check_eq(lab + 'energy', h['/U0'][0][i], want[i][1])
            env.check_eq(lab + 'F', h['/F'][0][0, i], want[i][1]
                         + h['/Fvib'][0][0, i])
    else:
        put = want[1]
        for k in put:
            env.check_eq(lab + k, h['/' + k][0][0, 0], put[k])


def stand_in(env, cmd, puts=None):
    """quasi-harmonic results / elastic extrema by their contract."""
    if cmd == 'qha':
        C = env.load(qc.MOD).QHACalculator
        calls = []
        it = iter(puts)
        def make(n):
            def fill(self, *a, **kw):
                calls.append((n, self))
                for k, x in next(it).items():
                    r = self.results[k]
                    for i in np.ndindex(*np.shape(r)):
                        r[i] = x
            return fill
        for n in ('run_thermodynamics_interpolation',
                  'run_frequency_interpolation'):
            env.patch(C, n, make(n))
        return calls
    if cmd == 'soec':
        from scipy import optimize

        def brute(func, ranges, *args, **kw):
            return sc.some_point(env, func, ranges, *args, **kw)
        env.patch(optimize, 'brute', brute)


def values(env, tag):
    return {k: env.real(tag + k.replace('-', ''), pos=True, sample=(.5, 9.))
            for k in Q04.QHA if k not in (
                'Cp', 'Cp-Cv', 'KS', 'H', 'G', 'alphaV', 'gruneisen')}


NAMES = [('in.yaml', None, 'in'), ('in', None, 'in'),
         ('a.b.dat', None, 'a.b'), ('in.txt', None, 'in'),
         ('in.yaml', 'out', None), ('in.yaml', 'v1.2', None),
         ('in.yaml', 'sub/res', None), ('in.log', 'in.new', None)]


def naming(cmd):
    """results, log and input files: names, existing results, content."""
    def h(env):
        name, out, base = env.choice('names', NAMES)
        old = env.choice('results', ['new', 'overwrite', 'keep'])
        txt, want = source(env, cmd)
        puts = [values(env, 'a')] if cmd == 'qha' else None
        if cmd == 'qha':
            want = want, puts[0]
        stand_in(env, cmd, puts)
        p = place(env, txt, name)
        d = os.path.dirname(p)
        os.mkdir(os.path.join(d, 'sub'))
        target = os.path.join(d, (base + SUFFIX[cmd]) if out is None
                              else out)
        res, log = target + '.hdf5', target + '.txt'
        if old != 'new':
            with open(res, 'w') as g:
                g.write('old results')
        s = Screen(env, old == 'overwrite')
        s.run(CMD[cmd][0], CMD[cmd][1], [p] + (
            [] if out is None else ['-o', os.path.join(d, out)]))
        if old == 'new':
            env.check_true('not asked', not s.asked, detail=str(s.asked))
        else:
            env.check_true('asked once', len(s.asked) == 1
                           and os.path.basename(res) in s.asked[0],
                           detail=str(s.asked))
        if old == 'keep':
            env.check_true('old results kept', get(res) == 'old results')
        else:
            content(env, cmd, res, want, '')
        env.check_true('input kept', get(p) == txt)
        logged(env, s, log)
        allowed = {os.path.relpath(x, d) for x in (p, res, log)} | {'sub'}
        found = set()
        for r, ds, fs in os.walk(d):
            for x in ds + fs:
                found.add(os.path.relpath(os.path.join(r, x), d))
        env.check_true('no other file', found <= allowed, detail=str(found))
    return h


def refused(env):
    """incomplete inputs: reported, no results, nothing overwritten."""
    cmd = env.choice('command', ['ha', 'qha', 'soec', 'eosfit'])
    quiet = env.choice('quiet', [False, True]) if cmd != 'eosfit' else False
    # Kieffer's model needs acoustic frequencies
    aco = env.choice('acoustic', [False, True]) if cmd == 'qha' else False
    txt, want = source(env, cmd, bad=not aco)
    stand_in(env, cmd, [{}])
    p = place(env, txt, 'in.inp')
    d = os.path.dirname(p)
    old = env.choice('results', ['new', 'old'])
    res = os.path.join(d, 'in' + SUFFIX.get(cmd, '') + '.hdf5')
    if old == 'old':
        with open(res, 'w') as g:
            g.write('old results')
    s = Screen(env, True)
    s.run(CMD[cmd][0], CMD[cmd][1], [p] + (['-q'] if quiet else [])
          + (['-a'] if aco else []))
    env.check_true('no question', not s.asked, detail=str(s.asked))
    env.check_true('reported', len(s.shown) >= 2 and any(
        x.strip() and '\n' not in x.strip() and '___' not in x
        for x in s.shown), detail=repr(s.shown)[-300:])
    if old == 'old':
        env.check_true('old results kept', get(res) == 'old results')
    else:
        env.check_true('no results', not os.path.exists(res))
    env.check_true('input kept', get(p) == txt)
    log = os.path.join(d, 'in.log' if cmd == 'eosfit'
                       else 'in%s.txt' % SUFFIX[cmd])
    logged(env, s, log)
    env.check_true('reason last', s.shown[-1].strip() in get(log)
                   and len(s.shown[-1].strip()) > 5)


def itself(env):
    """an output name that is the input: refused, input kept."""
    cmd, name, out = env.choice('case', [
        ('ha', 'res.txt', 'res'), ('qha', 'res.txt', 'res'),
        ('soec', 'res.txt', 'res'), ('eosfit', 'res.log', None),
        ('eosfit', 'res.log', 'res'), ('ha', 'in_HA.txt', 'in_HA'),
        ('soec', 'x.y.txt', 'x.y')])
    txt, want = source(env, cmd)
    stand_in(env, cmd, [{}])
    p = place(env, txt, name)
    d = os.path.dirname(p)
    s = Screen(env, False)
    s.run(CMD[cmd][0], CMD[cmd][1], [p] + (
        [] if out is None else ['-o', os.path.join(d, out)]))
    env.check_true('input kept', get(p) == txt)
    env.check_true('reported', len(s.shown) >= 1)
    env.check_true('nothing written', sorted(os.listdir(d)) == [name],
                   detail=str(os.listdir(d)))


def sequence(env):
    """two commands one after the other, in one session."""
    cmd = env.choice('command', ['ha', 'qha', 'soec'])
    t1, w1 = source(env, cmd, 'a')
    t2, w2 = source(env, cmd, 'b')
    puts = [values(env, 'p'), values(env, 'q')] if cmd == 'qha' else None
    if cmd == 'qha':
        w1, w2 = (w1, puts[0]), (w2, puts[1])
    stand_in(env, cmd, puts)
    d = env.tmpdir()
    s = Screen(env, False)
    files = []
    for i, t in enumerate((t1, t2)):
        p = os.path.join(d, 'f%d.dat' % i)
        with open(p, 'w') as g:
            g.write(t)
        s.shown = []
        s.run(CMD[cmd][0], CMD[cmd][1], [p])
        logged(env, s, os.path.join(d, 'f%d%s.txt' % (i, SUFFIX[cmd])))
        files.append(os.path.join(d, 'f%d%s.hdf5' % (i, SUFFIX[cmd])))
    content(env, cmd, files[0], w1, 'first: ')
    content(env, cmd, files[1], w2, 'second: ')
    for i in range(2):
        with open(os.path.join(d, 'f%d%s.txt' % (i, SUFFIX[cmd]))) as g:
            env.check_true('log of one run', 'f%d.dat' % (1 - i)
                           not in g.read())


# ------------------------------------------------------------------ qha
FUN = {'M': 'murnaghan', 'BM': 'birchmurnaghan', 'PT': 'pouriertarantola',
       'V': 'vinet'}


def qha_options(env):
    """every option reaches the calculation."""
    opt = env.choice('options', [
        [], ['-s', 'freq'], ['-s', 'td', '-m', 'eos'],
        ['-s', 'freq', '-m', 'eos', '--eos', 'M'],
        ['-m', 'eos', '--eos', 'PT'], ['-m', 'eos', '--eos', 'V'],
        ['-m', 'poly', '--edeg', '2'], ['--edeg', '5', '--fdeg', '2'],
        ['--fdeg', '5', '-s', 'FREQ'], ['-m', 'EOS', '--eos', 'BM'],
        ['-s', 'freq', '--fdeg', '4', '--edeg', '4']])
    u = env.choice('units', qc.UNITS)
    f = env.choice('frequency', ['cm-1', 'THz', 'Hz']) if not opt else 'cm-1'
    txt, U = source(env, 'qha')
    put = values(env, 'p')
    calls = stand_in(env, 'qha', [put])
    C = env.load(qc.MOD).QHACalculator
    seen = []
    init = C.__init__

    def wrap(self, settings):
        seen.append(dict(settings))
        init(self, settings)
    env.patch(C, '__init__', wrap)
    p = place(env, txt, 'in.yaml')
    s = Screen(env)
    e, v, pu, t = u
    P = ['2', '6', '2']
    # the curves of the report are those of the equation of state fit
    eos = env.load('quantas.qha.utils.ev_eos').EnergyEOS
    fits = []

    def fit(self, form, V_, F_, *a, **k):
        fits.append(form)
        return np.array([-1., 1., 4., 70.]), np.array([
            .125, .03125, .25, .5])
    env.patch(eos, 'fit', fit)
    s.run(QHA[0], QHA[1], [p, '--eunit', e, '--vunit', v, '--punit', pu,
                           '--tunit', t, '--funit', f, '-T'] + TEMP[t]
          + ['-P'] + P + opt)
    d = os.path.dirname(p)
    log = logged(env, s, os.path.join(d, 'in_QHA.txt'))
    o = dict(zip(opt[0::2], opt[1::2]))
    scheme = o.get('-s', 'td').lower()
    mini = o.get('-m', 'poly').lower()
    env.check_true('one calculation', len(calls) == 1)
    env.check_true('scheme', ('freq' in calls[0][0]) == (scheme == 'freq'))
    want = {'qha_scheme': scheme, 'minimization': mini,
            'kieffer': False, 'edeg': int(o.get('--edeg', 3)),
            'fdeg': int(o.get('--fdeg', 3)), 'energy_unit': e,
            'lenght_unit': v, 'pressure_unit': pu, 'temperature_unit': t,
            'frequency_unit': 'cm^-1' if f == 'cm-1' else f,
            'eos_function': FUN[o.get('--eos', 'BM')]}
    if len(seen) != 1 or not set(want) <= set(seen[0]):
        raise Unsupported('settings of the calculator')
    for k, x in want.items():
        env.check_true('option ' + k, seen[0][k] == x,
                       detail='%r %r' % (seen[0][k], x))
    if mini == 'eos':
        env.check_true('formulation', len(fits) > 0 and set(fits) == {
            want['eos_function']}, detail=str(fits))
    h = env.h5(os.path.join(d, 'in_QHA.hdf5'))
    for k, x, w in (('T', [float(TEMP[t][0]) + 100. * i for i in range(3)],
                     t), ('P', [2., 4., 6.], pu)):
        env.check_true('grid ' + k, np.shape(h['/' + k][0]) == (3,))
        env.check_true('unit of ' + k, h['/' + k][1].get('unit') == w)
        for i in range(3):
            env.check_eq(k, h['/' + k][0][i], x[i])
    for k, x in put.items():
        env.check_true('shape of ' + k, np.shape(h['/' + k][0]) == (3, 3))
        env.check_true('unit of ' + k, h['/' + k][1].get('unit')
                       == Q04.unit(k, u))
        for i in range(3):
            for j in range(3):
                env.check_eq(k, h['/' + k][0][i, j], x)
    for key, w in (('energy', e), ('lenght', v), ('pressure', pu)):
        x = setting(log, key)
        env.check_true('logged unit of ' + key, [w] in x, detail=str(x))
    deg = str(want['edeg']), str(want['fdeg'])
    env.check_true('logged degrees', [deg[0]] in setting(log, 'energy') and
                   [deg[1]] in setting(log, 'frequency'),
                   detail=str(setting(log, 'energy')))
    rng = [setting(log, k) for k in ('min', 'max', 'step')]
    for i in range(3):
        env.check_true('logged ranges', len(rng[i]) == 2 and
                       rng[i][0][1] == t and rng[i][1][1] == pu and
                       float(rng[i][0][0]) == float(TEMP[t][i]) and
                       float(rng[i][1][0]) == float(P[i]), detail=str(rng))


# ------------------------------------------------------- eosfit, export
def eos_names(env):
    """the log of the fitting holds the data and has the chosen name."""
    name, out, base = env.choice('names', [
        ('in.dat', None, 'in'), ('a.b.dat', None, 'a.b'), ('in', None, 'in'),
        ('in.dat', 'out', 'out'), ('in.dat', 'v1.2', 'v1.2'),
        ('in.dat', 'sub/o', 'sub/o')])
    txt, vals = source(env, 'eosfit')
    C = env.load('quantas.eosfit.eosfit').EoSFitCalculator
    ran = []
    env.patch(C, 'run', lambda self: ran.append(self))
    p = place(env, txt, name)
    d = os.path.dirname(p)
    os.mkdir(os.path.join(d, 'sub'))
    s = Screen(env)
    s.run(EOS[0], EOS[1], [p] + ([] if out is None else
                                 ['-o', os.path.join(d, out)]))
    env.check_true('interactive session started', len(ran) == 1)
    log = logged(env, s, os.path.join(d, base + '.log'))
    rows = []
    for l in log.splitlines():
        w = l.split()
        if len(w) == 5 and w[2:] == ['--'] * 3:
            rows.append(w)
    env.check_true('rows', len(rows) == 3, detail=str(rows))
    for i in range(3):
        env.check_eq('pressure', env.printed(rows[i][0]), vals['p'][i],
                     catol=6e-4)
        env.check_eq('volume', env.printed(rows[i][1]), vals['v'][i],
                     catol=6e-6)
    E05.verify(env, ran[0].input, vals, 'A title')
    env.check_true('input kept', get(p) == txt)


def exported(env):
    """export loads the file it is given, and refuses other files."""
    kind = env.choice('kind', ['ha', 'qha', 'soec'])
    what = env.choice('file', ['good', 'other', 'folder'])
    mod, cls = {'ha': ('harmonic', 'QuantasHarmonicExport'),
                'qha': ('qha', 'QuantasQHAExport'),
                'soec': ('soec', 'QuantasSOECExport')}[kind]
    m = env.load('quantas.%s.utils.export' % mod)
    c = env.load('quantas.%s.commands.cmd_export' % mod)
    txt, want = source(env, kind)
    puts = [values(env, 'a')] if kind == 'qha' else None
    stand_in(env, kind, puts)
    p = place(env, txt, 'in.dat')
    d = os.path.dirname(p)
    s = Screen(env)
    s.run(CMD[kind][0], CMD[kind][1], [p])
    f = os.path.join(d, 'in%s.hdf5' % SUFFIX[kind])
    if what == 'other':
        f = os.path.join(d, 'empty.hdf5')
        with m.h5py.File(f, 'w') as g:
            g.attrs['info'] = 'nothing'
    elif what == 'folder':
        f = d
    ran = []
    env.patch(getattr(m, cls), 'run', lambda self: ran.append(self))
    s.shown = []
    s.run('quantas.%s.commands.cmd_export' % mod, kind + '_export', [f])
    env.check_true('run only for its own files', len(ran) == (
        what == 'good'))
    env.check_true('something on the screen', len(s.shown) > 1)
    if what != 'good':
        env.check_true('reason', len(s.shown[-1].strip()) > 5
                       and '___' not in s.shown[-1])


# --------------------------------------------------------------- inpgen
def inputs(env):
    """generated inputs: name, interface, reference, list of files."""
    kind = env.choice('kind', ['ha', 'soec'])
    out = env.choice('out', [None, 'gen', 'v1.2'])
    if kind == 'ha':
        n = env.choice('files', [1, 2])
        ref = env.choice('reference', [0, 1]) if n > 1 else 0
        P = [Q05.point(env, 'p%d' % i, [1, 2]) for i in range(2)]
        env.patch(env.load('quantas.IO.qha_writer'), 'input',
                  lambda *a: 'A job')
        d = env.tmpdir()
        files = []
        for i in range(2):
            files.append(os.path.join(d, 'f%d.out' % i))
            with open(files[i], 'w') as g:
                g.write(I02.gamma_text(1, P[i]['lat'], P[i]['e'], P[i]['g']))
        lst = os.path.join(d, 'list')
        with open(lst, 'w') as g:
            g.write('\n'.join(files[:n]) + '\n')
        args = [files[0]] if n == 1 else [lst, '-l', '-r', str(ref)]
        s = Screen(env)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            s.run('quantas.harmonic.commands.cmd_inpgen', 'ha_inpgen', args
                  + ([] if out is None else ['-o', out]))
        finally:
            os.chdir(cwd)
        r = env.load('quantas.IO.qha_reader').QHAInputFileReader(
            os.path.join(d, (out or 'quantas_ha') + '.yaml'))
        P = P[:n]
        Q05.compare(env, r, 'A job', 1, ic.EXP['unit'],
                    [q['vol'] for q in P], [q['E'] for q in P], [[0.] * 3],
                    [1], [[[q['fr'][j] for q in P] for j in range(3)]])
        return
    raise_ = env.choice('job', ['Unknown', 'Elastic: 1'])
    W = env.load('quantas.IO.soec_writer')
    got = []
    C = [[env.real('c%d%d' % (min(i, j), max(i, j)), sample=(50., 200.))
          for j in range(6)] for i in range(6)]
    rho = env.real('rho', pos=True, sample=(2000., 5000.))

    class Data(object):
        completed, error = True, None

        def __init__(self, f):
            got.append(f)
            self.stiffness, self.density = env.mkarr(C), rho
    which = env.choice('interface', ['crystal', 'vasp'])
    env.patch(W.SOECInputCreator, 'interface_filter', {
        which: Data, 'other': None})
    s = Screen(env)
    s.prompt = None
    import click
    env.patch(click, 'prompt', lambda *a, **k: raise_)
    p = place(env, 'output\n', 'calc.out')
    d = os.path.dirname(p)
    s.run('quantas.soec.commands.cmd_inpgen', 'soec_inpgen', [
        p, '-i', which] + ([] if out is None else
                           ['-o', os.path.join(d, out)]))
    env.check_true('file read', got == [p])
    r = env.load('quantas.IO.soec_reader').SOECInputFileReader(os.path.join(
        d, 'calc_soec_input.dat' if out is None else out + '.dat'))
    env.check_true('job', r.jobname == raise_)
    for i in range(6):
        for j in range(i, 6):
            env.check_eq('C', r.stiffness[i][j], C[i][j], atol=6e-5,
                         catol=6e-5)
    env.check_eq('density', r.density, rho, atol=6e-2, catol=6e-2)
    env.check_true('input kept', get(p) == 'output\n')


REFUSED = ['text', 'binary', 'folder', 'same name', 'list of nothing',
           'reference', 'negative reference']


def inputs_refused(env):
    """what cannot be read is reported, and no file is made or changed."""
    cmd = env.choice('kind', ['ha', 'soec'])
    kind = env.choice('input', REFUSED if cmd == 'ha' else REFUSED[:4])
    face = env.choice('interface', ['crystal', 'crystal-qha', 'phonopy']
                      if cmd == 'ha' else ['crystal', 'vasp'])
    if kind in REFUSED[4:]:
        face = 'crystal'
    P = [Q05.point(env, 'p%d' % i, [1, 2]) for i in range(2)]
    txt = I02.gamma_text(1, P[0]['lat'], P[0]['e'], P[0]['g'])
    ext = '.yaml' if cmd == 'ha' else '.dat'
    p = place(env, txt if kind == 'same name' or 'ref' in kind else
              'some text\n' * 30, 'a' + ext)
    d = os.path.dirname(p)
    out = os.path.join(d, 'gen')
    args = ['-i', face]
    if kind == 'binary':
        with open(p, 'wb') as f:
            f.write(bytes([0xff, 0xfe, 0x00, 0x81, 0x93] * 99))
    elif kind == 'folder':
        p = os.path.join(d, 'folder')
        os.mkdir(p)
    elif kind == 'same name':
        out = os.path.join(d, 'a')
    elif kind == 'list of nothing':
        with open(p, 'w') as f:
            f.write(os.path.join(d, 'b.out') + '\n')
        args += ['-l']
    elif 'reference' in kind:
        f = [place(env, I02.gamma_text(1, x['lat'], x['e'], x['g']),
                   'f.out') for x in P]
        with open(p, 'w') as g:
            g.write('\n'.join(f) + '\n')
        args += ['-l', '-r', '2' if kind == 'reference' else '-1']
    env.patch(env.load('quantas.IO.qha_writer'), 'input', lambda *a: 'A job')
    import click
    s = Screen(env)
    env.patch(click, 'prompt', lambda *a, **k: 'A job')
    before = {}
    for w, _, fs in os.walk(d):
        for x in fs:
            with open(os.path.join(w, x), 'rb') as g:
                before[os.path.join(w, x)] = g.read()
    s.run('quantas.%s.commands.cmd_inpgen' % (
        'harmonic' if cmd == 'ha' else 'soec'), cmd + '_inpgen',
        [p] + args + ['-o', out])
    after = {}
    for w, _, fs in os.walk(d):
        for x in fs:
            with open(os.path.join(w, x), 'rb') as g:
                after[os.path.join(w, x)] = g.read()
    env.check_true('no file made', sorted(after) == sorted(before),
                   detail=str(sorted(set(after) ^ set(before))))
    env.check_true('no file changed', after == before)
    env.check_true('reason', len(s.shown) > 2 and len(
        s.shown[-1].strip()) > 9 and '___' not in s.shown[-1],
        detail=repr(s.shown[-1:]))


def eosfit_data(env):
    """the data shown on screen are those read, under their headings."""
    cols = env.choice('columns', [c for c in E05.ORDERS if 'T' not in c])
    txt, vals = E05.build(env, cols, 'A title', False, 'x')
    C = env.load('quantas.eosfit.eosfit').EoSFitCalculator
    env.patch(C, 'run', lambda self: None)
    p = place(env, txt, 'in.dat')
    s = Screen(env)
    s.run(EOS[0], EOS[1], [p])
    log = logged(env, s, os.path.join(os.path.dirname(p), 'in.log'))
    L = log.splitlines()
    k = [i for i, l in enumerate(L) if l.split()[:1] == ['P'] and
         'c (A)' in l]
    env.check_true('heading', len(k) == 1 and L[k[0]].split('(')[0].split()
                   == ['P'] and [x.split()[-1] for x in L[k[0]].split('(')[
                       :-1]] == ['P', 'V', 'a', 'b', 'c'])
    for i in range(3):
        w = L[k[0] + 2 + i].split()
        env.check_true('columns', len(w) == 5, detail=str(w))
        for j, q in enumerate('pvabc'):
            if q in vals:
                env.check_eq('%s %d' % (q, i), env.printed(w[j]), vals[q][i],
                             catol=6e-4 if q == 'p' else 6e-6)
            else:
                env.check_true('%s absent' % q, w[j] == '--')
    for q, n in (('p', 'pressure'), ('v', 'volume'), ('a', 'a-axis'),
                 ('b', 'b-axis'), ('c', 'c-axis')):
        env.check_true('weights of ' + n, any(
            'weights' in l and n in l for l in L) == ('sigma' + q in vals))


def soec_options(env):
    """planar properties and figures of the elastic analysis."""
    polar = env.choice('polar', [False, True])
    plot = env.choice('plot', [False, True])
    dpi = env.choice('dpi', [None, 1, 80, 300, 1200])
    name, out, base = env.choice('names', [
        ('in.dat', None, 'in'), ('a.b.dat', None, 'a.b'),
        ('in.dat', 'v1.2', None)])
    made = P01.draw(env)
    txt, want = source(env, 'soec')
    stand_in(env, 'soec')
    p = place(env, txt, name)
    d = os.path.dirname(p)
    calls = []

    def fill(self, *a, **k):
        calls.append(1)
        self.results['polar'] = {q: {n: env.mkarr(
            [[0.] + [1.] * S05.WIDTH[n], [360.] + [1.] * S05.WIDTH[n]])
            for n in S05.WIDTH if n != 'waves'} for q in P01.PLANES}
    env.patch(env.load(sc.CALC).SOECCalculator, 'calculate_polar_properties',
              fill)
    s = Screen(env)
    s.run(SOEC[0], SOEC[1], [p] + (['--polar'] if polar else [])
          + (['-p'] if plot else [])
          + ([] if dpi is None else ['--dpi', str(dpi)])
          + ([] if out is None else ['-o', os.path.join(d, out)]))
    target = os.path.join(d, base + '_SOEC' if out is None else out)
    content(env, 'soec', target + '.hdf5', want, '')
    env.check_true('planar properties as requested', len(calls) == int(polar),
                   detail=str(len(calls)))
    files = [f for g in made for f in g.files]
    if polar and plot:
        env.check_true('one figure per property', sorted(
            f for f, _ in files) == sorted('%s_%s.png' % (target, n)
                                           for n in S05.WIDTH
                                           if n != 'waves'),
                       detail=str(files))
    if not plot:
        env.check_true('no figure', not files, detail=str(files))
    for f, r in files:
        env.check_true('resolution', r == (80 if dpi is None else dpi),
                       detail=str(r))


def harnesses(tier):
    o = {'int_opaque': True, 'numpy_div': True, 'abs_fork': False,
         'validate': 6}
    return [('ha-units', ha_units, o), ('ha-naming', naming('ha'), o),
            ('qha-naming', naming('qha'), o),
            ('soec-naming', naming('soec'), dict(o, validate=3)),
            ('refused', refused, o), ('itself', itself, o),
            ('sequence', sequence, o), ('qha-options', qha_options, o),
            ('eos-names', eos_names, o), ('soec-options', soec_options, o), ('exported', exported, o),
            ('inputs', inputs, o), ('inputs-refused', inputs_refused, o),
            ('eosfit-data', eosfit_data, o)]
