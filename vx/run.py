# -*- coding: utf-8 -*-
"""Runs the harnesses of one property, replays counterexamples, writes the
evidence file."""
import glob
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
import contextlib
import hashlib

import numpy as np
np.seterr(all='ignore')

from . import expr as X
from . import solve
from . import env as E
from .env import SymEnv, ConcEnv, Infeasible, AssumeFailed, TooMany
from .sym import S, SB, CUR, PathAbort, eval_sb, lift
from .expr import Unsupported, NaNPoison
from .loader import SymLoader, ConcLoader, Build, all_exts

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
STRICT = bool(os.environ.get('VX_STRICT'))
TIER = os.environ.get('VERIF_TIER', 'quick')


class Quiet(object):
    """swallow the chatter of the code under test."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


class HTimeout(BaseException):
    pass


@contextlib.contextmanager
def alarm(seconds):
    """the code under test may hang."""
    def f(*a):
        raise HTimeout()
    old = signal.signal(signal.SIGALRM, f)
    signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def concrete(h, opts, reals, choices, rng=None):
    """run a harness on the real code. -> (failed, records, err, reals,
    choices)"""
    env = ConcEnv(h, opts, dict(reals), dict(choices), rng)
    CUR.env = env
    ConcLoader(env)
    err = None
    cwd = os.getcwd()
    try:
        with Quiet(), alarm(opts.get('conc_time', 20)):
            h(env)
    except AssumeFailed:
        err = 'assume'
    except HTimeout:
        err = 'does not terminate'
        env.failed.append(('hangs', 'no end after %d s' %
                           opts.get('conc_time', 20)))
    except Exception as e:
        tb = traceback.format_exc()
        err = '%s: %s' % (type(e).__name__, e)
        if harness_error(e, tb):
            env.cleanup()
            os.chdir(cwd)
            return [], env.records, 'harness ' + err, env.reals, env.choices
        env.failed.append(('raises', err + ' @ ' + last_line(tb)))
    finally:
        os.chdir(cwd)
        env.cleanup()
    return env.failed, env.records, err, env.reals, env.choices


def harness_error(e, tb):
    """the harness itself (not the code under test) cannot run."""
    ll = last_line(tb)
    if '/checks/' not in ll and '/vx/' not in ll:
        return False
    return isinstance(e, (ImportError, NameError)) or (
        isinstance(e, AttributeError) and 'module' in str(e))


def last_line(tb):
    fr = [l.strip() for l in tb.split('\n') if l.strip().startswith('File')]
    return fr[-1] if fr else ''


def jsonable(x):
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def run_harness(args):
    """executed in a worker process."""
    prop, name, h, opts, deadline = args
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    res = dict(name=name, paths=0, branches=0, checks=0, ok=0, unknown=[],
               violations=[], infeasible=0, validated=0, mismatch=[],
               unsupported=[], fallback_runs=0, reach=0, samples=[],
               notes=[], functions=[])
    st = solve.STATS
    t0 = time.time()
    rng = random.Random('%s/%s/%s' % (SEED, prop, name))
    stack = [([], [])]
    budget = {'branches': 0, 'checks': 0,
              'max_branches': opts.get('max_branches', 4000)}
    max_paths = opts.get('max_paths', 3000)
    nval = opts.get('validate', 6)
    functions = set()
    tlimit = opts.get('time', 600)

    def prof(frame, ev, arg):
        if ev == 'call':
            co = frame.f_code
            if co.co_filename.startswith(functions_root):
                functions.add('%s:%s' % (
                    os.path.relpath(co.co_filename, functions_root),
                    co.co_name))
    from .loader import REPO
    functions_root = REPO + '/'
    seen_viol = set()
    while stack:
        if res['paths'] >= max_paths or time.time() - t0 > tlimit or \
                time.time() > deadline:
            res['unknown'].append(['exploration',
                                   'stopped with %d pending paths'
                                   % len(stack)])
            break
        prefix, wits = stack.pop()
        X.reset()
        env = SymEnv(h, opts, prefix, wits,
                     random.Random(rng.random()), budget)
        SymLoader(env)
        CUR.env = env
        raised = None
        unsup = None
        cwd = os.getcwd()
        try:
            sys.setprofile(prof if len(functions) < 4000 and
                           res['paths'] < 20 else None)
            with Quiet(), alarm(opts.get('path_time', 90)):
                h(env)
            sys.setprofile(None)
        except PathAbort:
            sys.setprofile(None)
            res['infeasible'] += 1
            stack.extend(env.pending)
            os.chdir(cwd)
            env.cleanup()
            # an infeasible path may still have recorded results
            if not any(r[1] == 'viol' for r in env.results):
                continue
        except (Unsupported, NaNPoison, TooMany) as e:
            sys.setprofile(None)
            unsup = '%s: %s' % (type(e).__name__, e)
            if os.environ.get('VX_DEBUG'):
                traceback.print_exc()
        except RecursionError as e:
            sys.setprofile(None)
            unsup = 'recursion'
        except HTimeout:
            sys.setprofile(None)
            unsup = 'path time limit'
        except Exception as e:
            sys.setprofile(None)
            tb = traceback.format_exc()
            if 'HTimeout' in str(e):
                unsup = 'path time limit'
            else:
                raised = '%s: %s @ %s' % (type(e).__name__, e,
                                          last_line(tb))
            if os.environ.get('VX_DEBUG'):
                sys.stderr.write(tb)
        finally:
            sys.setprofile(None)
        os.chdir(cwd)
        env.cleanup()
        stack.extend(env.pending)
        res['paths'] += 1
        res['notes'] += env.notes[:2]
        # results of the checks on this path
        need_replay = []
        for lab, r, w in env.results:
            res['checks'] += 1
            if r == 'ok':
                res['ok'] += 1
            elif r == 'viol':
                need_replay.append((lab, w))
            else:
                res['unknown'].append([lab, str(w)])
        if raised:
            try:
                env.need_witness()
            except PathAbort:
                res['infeasible'] += 1
                continue
            w = env.wits[0] if env.wits else None
            if w is None:
                w = {n: env._sample(i) for n, i in env.inputs.items()}
            need_replay.append(('raises ' + raised, w))
        for lab, w in need_replay[:4]:
            vals = {k: v for k, v in w.items() if '#' not in k}
            failed, recs, err, rr, cc = concrete(h, opts, vals, env.choices)
            if failed:
                key = failed[0][0]
                if key in seen_viol and len(res['violations']) > 5:
                    continue
                seen_viol.add(key)
                res['violations'].append(dict(
                    label=lab, reals=jsonable(rr), choices=jsonable(cc),
                    failed=jsonable(failed[:8])))
            else:
                # maybe another point of the same path shows it
                hit = False
                for w2 in env.wits[:4]:
                    vals = {k: v for k, v in w2.items() if '#' not in k}
                    failed, recs, err, rr, cc = concrete(h, opts, vals,
                                                         env.choices)
                    if failed:
                        res['violations'].append(dict(
                            label=lab, reals=jsonable(rr),
                            choices=jsonable(cc),
                            failed=jsonable(failed[:8])))
                        hit = True
                        break
                if not hit:
                    res['mismatch'].append(
                        ['counterexample does not replay', lab,
                         jsonable(vals), jsonable(env.choices)])
        if unsup:
            res['unsupported'].append(unsup)
            # concrete exploration of the same choices (reported separately,
            # never counted as decided)
            for i in range(opts.get('fallback', 12)):
                failed, recs, err, rr, cc = concrete(
                    h, opts, {}, env.choices,
                    random.Random('%s/%s' % (rng.random(), i)))
                res['fallback_runs'] += 1
                if time.time() - t0 > tlimit:
                    break
                if failed:
                    res['violations'].append(dict(
                        label='concrete', reals=jsonable(rr),
                        choices=jsonable(cc), failed=jsonable(failed[:8])))
                    break
        elif not raised and not need_replay and res['validated'] < nval \
                and nval > 0:
            try:
                env.need_witness()
                w = env.wits[0] if env.wits else None
            except PathAbort:
                w = None
            if w is not None:
                validate(h, opts, env, w, res)
        if len(res['samples']) < 3:
            w = env.wits[0] if env.wits else {}
            res['samples'].append(dict(
                harness=name, choices=jsonable(env.choices),
                path=[repr(p)[:160] for p in env.pcs
                      if not any(p is d for d in env.defs)][:6],
                witness={k: v for k, v in list(w.items())[:8]},
                checks=[r[0] for r in env.results][:6]))
        if len(res['violations']) >= 6 or any(
                f[0] == 'hangs' for v in res['violations']
                for f in v['failed']):
            break
    res['branches'] = budget['branches']
    res['reach'] = budget.get('reach', 0)
    res['functions'] = sorted(functions)
    res['wall'] = time.time() - t0
    res['stats'] = dict(queries=st.queries, time=st.time, sat=st.sat,
                        unsat=st.unsat, unknown=st.unknown,
                        structural=st.structural)
    if res['checks'] == 0 and not res['violations'] and \
            not res['unsupported']:
        res['mismatch'].append(['vacuous harness: no assertion reached'])
    return res


def validate(h, opts, env, w, res):
    """the encoding evaluated at a witness must agree with the real code."""
    vals = {k: v for k, v in w.items() if '#' not in k}
    failed, recs, err, rr, cc = concrete(h, opts, vals, env.choices)
    if err == 'assume':
        return
    srec = env.records
    res['validated'] += 1
    bad = None
    memo = {}
    if len(recs) != len(srec) and not failed:
        if not opts.get('loose'):
            bad = 'different number of checks: %d vs %d' % (len(srec),
                                                            len(recs))
    else:
        for (lab, a, b, rt, at), (lab2, u, v, ok) in zip(srec, recs):
            if u is None or b is None:
                continue
            try:
                a_, b_ = X.evalf(a, w, memo), X.evalf(b, w, memo)
            except Exception:
                continue
            if a_ != a_ or u != u or b_ != b_ or v != v:
                continue
            tol = 1e-5 * max(abs(a_), abs(u), abs(b_)) + max(at, 1e-9)
            if abs(a_ - u) > 100 * tol and not opts.get('loose'):
                bad = '%s: encoding %.10g, real code %.10g' % (lab, a_, u)
                break
    if failed:
        serious = []
        for lab, why in failed:
            m = re.match(r'^(\S+) != (\S+)$', why)
            if m:
                u, v = float(m.group(1)), float(m.group(2))
                d = abs(u - v) / max(abs(u), abs(v), 1e-300)
                if u == u and v == v and d < opts.get('noise', 1e-3):
                    continue
            serious.append((lab, why))
        if serious and (bad or opts.get('trust_conc', True)):
            res['violations'].append(dict(
                label='validation', reals=jsonable(rr), choices=jsonable(cc),
                failed=jsonable(serious[:8])))
            return
    if bad:
        res['mismatch'].append(['encoding mismatch', bad,
                                jsonable(vals), jsonable(env.choices)])


# --------------------------------------------------------------------------
def load_check(prop):
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    return importlib.import_module(prop)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'^KNOWN-FINDING: property=(\S+) \[key=([^\]]+)\] '
                         r'(.*)$', ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def viol_key(v, name):
    labs = [f[0] for f in v['failed']]
    ch = ','.join('%s=%s' % (k, x) for k, x in sorted(v['choices'].items()))
    return name + '|' + ch + '|' + ';'.join(labs)


def main(prop, argv):
    t0 = time.time()
    if prop == '--setup':
        Build.start(all_exts())
        try:
            Build.wait()
        except RuntimeError as e:
            print('build failed: %s' % e)
            return 2
        return 0
    mod = load_check(prop)
    if '--replay' in argv:
        return replay(prop, mod, argv[argv.index('--replay') + 1])
    tier = 'thorough' if '--thorough' in argv or TIER == 'thorough' \
        else 'quick'
    hs = []
    for item in mod.harnesses(tier):
        name, h, opts = item if len(item) == 3 else item + ({},)
        hs.append((name, h, opts))
    only = None
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
        hs = [x for x in hs if re.search(only, x[0])]
    Build.start(all_exts())
    built = True
    builderr = ''
    try:
        Build.wait()
    except RuntimeError as e:
        print('ERROR property=%s build failed: %s' % (prop, e))
        return 2
    limit = 2400 if tier == 'thorough' else 620
    deadline = t0 + limit
    results = []
    nproc = min(int(os.environ.get('VX_PROCS', '8')), max(1, len(hs)))
    jobs = [(prop, n, h, o, deadline) for n, h, o in hs]
    if nproc == 1 or os.environ.get('VX_SERIAL'):
        results = [run_harness(j) for j in jobs]
    else:
        results = run_pool(jobs, nproc, deadline)
    return report(prop, mod, tier, results, t0, only)


def run_pool(jobs, nproc, deadline):
    ctx = mp.get_context('fork')
    pending = list(enumerate(jobs))
    running = {}
    out = {}
    start, found = time.time(), False
    while pending or running:
        # a confirmed violation decides the verdict: the other harnesses get
        # two minutes at most
        if found and time.time() - start > 120:
            deadline = min(deadline, time.time() - 31)
            for i, j in pending:
                out[i] = dead(j, 'not run after a violation')
            pending = []
        while pending and len(running) < nproc:
            i, j = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, j))
            p.start()
            w.close()
            running[i] = (p, r, j, time.time())
        for i in list(running):
            p, r, j, ts = running[i]
            if r.poll(0.02):
                try:
                    out[i] = r.recv()
                    found = found or bool(out[i]['violations'])
                except EOFError:
                    out[i] = dead(j, 'worker died')
                p.join()
                del running[i]
            elif not p.is_alive():
                out[i] = dead(j, 'worker died (exit %s)' % p.exitcode)
                del running[i]
            elif time.time() > deadline + 30 or \
                    time.time() - ts > j[3].get('time', 600) + 60:
                p.kill()
                p.join()
                out[i] = dead(j, 'worker timed out')
                del running[i]
    return [out[i] for i in sorted(out)]


def dead(j, why):
    return dict(name=j[1], paths=0, branches=0, checks=0, ok=0,
                unknown=[['worker', why]], violations=[], infeasible=0,
                validated=0, mismatch=[], unsupported=[], fallback_runs=0,
                reach=0, samples=[], notes=[], functions=[], wall=0,
                stats=dict(queries=0, time=0, sat=0, unsat=0, unknown=0,
                           structural=0))


def _child(w, j):
    try:
        # the parent owns the scratch build
        import atexit
        r = run_harness(j)
    except BaseException as e:
        r = dead(j, '%s: %s' % (type(e).__name__, e))
        r['notes'] = [traceback.format_exc()[-3000:]]
    w.send(r)
    w.close()
    os._exit(0)


def report(prop, mod, tier, results, t0, only):
    viol, known = [], []
    kf = known_findings(prop)
    hit = {}
    for r in results:
        for v in r['violations']:
            key = viol_key(v, r['name'])
            k = next((x for x in kf if all(
                re.search(x[0], r['name'] + '|' + ','.join(
                    '%s=%s' % (a, b) for a, b in sorted(
                        v['choices'].items())) + '|' + f[0])
                for f in v['failed'])), None)
            if k:
                hit.setdefault(k, 0)
                hit[k] += 1
            else:
                viol.append((r['name'], v))
    for k in kf:
        if k in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    tot = {k: sum(r['stats'][k] for r in results)
           for k in ('queries', 'time', 'sat', 'unsat', 'unknown',
                     'structural')}
    fns = sorted({f for r in results for f in r['functions']})
    unk = [[r['name']] + u for r in results for u in r['unknown']]
    mis = [[r['name']] + m for r in results for m in r['mismatch']]
    uns = [[r['name'], u] for r in results for u in r['unsupported']]
    samples = [s for r in results for s in r['samples'][:1]][:12]
    cov = dict(
        states=sum(r['paths'] for r in results),
        transitions=sum(r['branches'] for r in results) +
        sum(r['checks'] for r in results),
        traces_validated_against_impl=sum(r['validated'] for r in results),
        samples=samples,
        explanation='states: symbolic paths of the real code explored to '
        'the end; transitions: symbolic branch decisions plus assertions '
        'decided along them; traces_validated: solver/witness valuations on '
        'which the encoding and the rebuilt real code were compared.',
        harnesses={r['name']: dict(paths=r['paths'], checks=r['checks'],
                                   decided_ok=r['ok'],
                                   branches=r['branches'],
                                   infeasible=r['infeasible'],
                                   reach_witnesses=r['reach'],
                                   validated=r['validated'],
                                   queries=r['stats']['queries'],
                                   solver_s=round(r['stats']['time'], 3),
                                   wall_s=round(r['wall'], 2))
                   for r in results},
        functions_encoded=fns,
        bounds=getattr(mod, 'BOUNDS', ''),
        outside=getattr(mod, 'OUTSIDE', ''),
        queries=tot['queries'], solver_s=round(tot['time'], 3),
        verdicts=dict(unsat=tot['unsat'], sat=tot['sat'],
                      unknown=tot['unknown']),
        inconclusive=unk[:20] + uns[:20],
        concrete_fallback_runs=sum(r['fallback_runs'] for r in results),
    )
    ev = dict(property=prop, tier=tier, seed=SEED, level='model_checking',
              coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + '.json'), 'w') as f:
            json.dump(jsonable(ev), f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d checks, %d queries '
          '(%.1f s solver), %d validated, %.1f s' % (
              prop, tier, len(results), cov['states'],
              sum(r['checks'] for r in results), tot['queries'], tot['time'],
              cov['traces_validated_against_impl'], time.time() - t0))
    rc = 0
    if viol:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for name, v in viol:
            h = hashlib.sha1(json.dumps([name, v['choices'], v['reals']],
                                        sort_keys=True).encode()
                             ).hexdigest()[:8]
            p = os.path.join(rd, '%s-%s.json' % (prop, h))
            with open(p, 'w') as f:
                json.dump(dict(property=prop, harness=name, **v), f, indent=1)
            if (name, v['failed'][0][0]) in seen:
                continue
            seen.add((name, v['failed'][0][0]))
            print('VIOLATION property=%s replay=%s  [%s: %s %s]' % (
                prop, p, name, v['failed'][0][0], v['failed'][0][1]))
        return 1
    if mis:
        for m in mis[:6]:
            print('ENCODING-MISMATCH property=%s %s' % (prop,
                                                        json.dumps(m)[:600]))
        rc = 3 if STRICT else 0
    if unk or uns:
        for u in (unk + uns)[:8]:
            print('INCONCLUSIVE property=%s %s' % (prop,
                                                   json.dumps(u)[:400]))
        rc = rc or (2 if STRICT else 0)
    if os.environ.get('VX_VERBOSE'):
        for r in results:
            print('  ', r['name'], r['paths'], 'paths', r['checks'],
                  'checks', '%.1fs' % r['wall'], r['stats']['queries'],
                  r['notes'][:1])
    return rc


def replay(prop, mod, path):
    v = json.load(open(path))
    for tier in ('quick', 'thorough'):
        for item in mod.harnesses(tier):
            if item[0] == v['harness']:
                h, opts = item[1], (item[2] if len(item) > 2 else {})
                Build.start(all_exts())
                Build.wait()
                f, recs, err, rr, cc = concrete(h, opts, v['reals'],
                                                v['choices'])
                print(json.dumps(jsonable(dict(reals=rr, choices=cc,
                                               failed=f)), indent=1))
                return 1 if f else 0
    print('no such harness')
    return 2
