#!/usr/bin/env python3
"""plant.py DEFINITION.py [--nocheck]: plant a bug in a scratch copy of /repo (bound over /repo in a private mount
namespace), run the stable tests, the demonstration and the check of its property; keep it in /verif/seeded/<ID>.

A definition sets ID, PROP, EDITS = [(path, old, new)], DEMO (python), NEEDS, BREAKS and optionally CHECKS.
plant.py --check ID...: only run the checks of seeded bugs."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) && cd "$w" || exit 3
trap 'rm -rf "$w"' EXIT
timeout 250 %s "$d/demo.py"
'''


def ns(scratch, cmd, timeout=1500):
    """run cmd with scratch/repo over /repo and scratch/verif over /verif"""
    full = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s' % (scratch, scratch, cmd)
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors='replace', env=dict(os.environ, PYTHONPATH=''))
    return p.returncode, p.stdout


def copy():
    s = tempfile.mkdtemp(prefix='plant_')
    shutil.copytree('/repo', s + '/repo', symlinks=True)
    shutil.copytree(VERIF, s + '/verif', symlinks=True, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence'))
    return s


def checks(s, props):
    out = []
    for p in props:
        rc, txt = ns(s, 'python3 lib/run_check.py %s --tier quick' % p)
        lines = [x for x in txt.splitlines() if x.startswith('  - [')]
        out.append('%s rc=%d %s' % (p, rc, (lines[0][:160] if lines else txt.strip()[-200:] if rc else '')))
    return out


def plant(path):
    D = {}
    exec(open(path).read(), D)
    s = copy()
    try:
        for f, old, new in D['EDITS']:
            fn = s + '/repo/' + f
            t = open(fn).read()
            if t.count(old) != 1:
                print(D['ID'], 'EDIT NOT UNIQUE', f, t.count(old), repr(old[:60]))
                return
            open(fn, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', s + '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
        d = os.path.join(s, 'seed')
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(D['DEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH % D.get('RUN', '/opt/venv/bin/python'))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': D['PROP'], 'needs': D['NEEDS'], 'what_it_breaks': D['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        clean = subprocess.run(['bash', d + '/demo.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/repo')
        rc, txt = ns(s, 'cd /repo && bash %s/demo.sh' % d)
        ok = clean.returncode == 0 and rc != 0
        print('%s demo clean=%d planted=%d %s' % (D['ID'], clean.returncode, rc, '' if ok else 'BAD\n' + clean.stdout[-600:] + '\n--\n' + txt[-600:]))
        if not ok:
            return
        print('   planted demo says:', txt.strip().splitlines()[-1:] )
        rc, txt = ns(s, 'bash /opt/vp/build.sh >/dev/null && bash /opt/vp/test.sh %s/t.json' % s)
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = base - set(json.load(open(s + '/t.json'))['passed']) if os.path.exists(s + '/t.json') else {'no result'}
        if miss:
            print(D['ID'], 'TESTS FAIL', sorted(miss)[:4])
            return
        dst = os.path.join(SEEDED, D['ID'])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(SEEDED, exist_ok=True)
        shutil.copytree(d, dst)
        if '--nocheck' not in sys.argv:
            for x in checks(s, D.get('CHECKS', [D['PROP']])):
                print('   ', D['ID'], x)
    finally:
        shutil.rmtree(s, ignore_errors=True)


def recheck(i):
    s = copy()
    try:
        subprocess.run(['git', '-C', s + '/repo', 'apply', os.path.join(SEEDED, i, 'patch.diff')], check=True)
        for x in checks(s, [json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property']]):
            print(i, x, flush=True)
    finally:
        shutil.rmtree(s, ignore_errors=True)


if sys.argv[1] == '--check':
    for a in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        recheck(a)
else:
    for a in sys.argv[1:]:
        if not a.startswith('--'):
            plant(a)
