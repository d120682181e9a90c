# -*- coding: utf-8 -*-
"""development helper: mkseed.py SPEC...  makes /verif/seeded/<id> from a
spec file (python: ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS,
DEMO=python source)  and tries it: demo quiet on the unchanged tree, tests
still passing, demo failing with the patch, and what the check says.
Patches are applied to a scratch copy only, except for the check, which is
run against /repo and undone straight afterwards."""
import json
import os
import subprocess
import sys

V = '/verif/seeded'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def main(spec, checks=True):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, g['ID'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --short').stdout
    try:
        for f, a, b in g['EDITS']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    open(d + '/demo.py', 'w').write(g['DEMO'])
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\n# run in /repo after the build\n'
        'd=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'export LANG=C.UTF-8\n'
        'exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'],
               'what_it_breaks': g['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    return try_(g['ID'], g['PROPERTY'], checks)


def try_(i, prop, checks=True):
    d = os.path.join(V, i)
    demo = 'cd /repo && timeout 300 bash %s/demo.sh' % d
    assert not sh('git -C /repo status --short').stdout
    r = sh(demo)
    if r.returncode:
        print(i, 'DEMO FAILS ON CLEAN', r.stdout[-2000:])
        return 1
    pyx = '.pyx' in open(d + '/patch.diff').read()
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        assert a.returncode == 0, a.stdout
        b = sh('bash /opt/vp/build.sh')
        r = sh(demo)
        t = sh('bash /opt/vp/test.sh /tmp/seed.json')
        res = open('/tmp/seed.json').read()
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        out = json.loads(res)
        passed = set(out.get('passed', []))
        bad = [x for x in base if x not in passed]
        c = sh('VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python '
               '/verif/run_check.py ' + prop) if checks else None
    finally:
        sh('git -C /repo checkout -- .')
        if pyx:
            sh('bash /opt/vp/build.sh')
    print(i, prop, 'build', b.returncode, 'demo', r.returncode,
          'tests broken', bad, 'CHECK',
          c and (c.returncode, [x for x in c.stdout.splitlines()
                                if x.startswith('VIOLATION')][:1]))
    if r.returncode == 0 or bad or b.returncode:
        print(r.stdout[-800:], b.stdout[-500:])
        return 1
    return 0 if not checks or c.returncode == 1 else 2


if __name__ == '__main__':
    for s in sys.argv[1:]:
        if os.path.isdir(os.path.join(V, s)):
            m = json.load(open(os.path.join(V, s, 'meta.json')))
            try_(s, m['property'])
        else:
            main(s)
