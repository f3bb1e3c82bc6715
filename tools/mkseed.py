#!/usr/bin/env python3
"""Writes and verifies planted bugs: tools/mkseed.py DEFS.py [name…].

DEFS.py holds SEEDS = {name: dict(property, needs, breaks, edits=[(file, old,
new)…], demo=source)}. For every seed: a scratch copy of /repo, the edit, the
diff, the demonstration on both trees, build and stable tests. Only seeds for
which everything is as it has to be are written to seeded/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '5a96511'
PRE = '''import math, os, sys, tempfile, warnings
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.getcwd())
import _fake; _fake.install()
import shapely_mini; shapely_mini.install()
import numpy as np
np.seterr(all='ignore')
def check(ok, what=''):
    if not ok:
        print('FAILED', what); sys.exit(1)
def close(a, b, tol=1e-9):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol, equal_nan=True))
'''


def sh(cmd, cwd=None, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout, text=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    names = sys.argv[2:] or list(ns['SEEDS'])
    for n in names:
        s = ns['SEEDS'][n]
        tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        try:
            one(n, s, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def one(n, s, tmp):
    repo = os.path.join(tmp, 'repo')
    sh(['cp', '-a', '/repo', repo])
    sh('git checkout -q -- . && git clean -fdq', repo)
    mine = set(sh('git log --format=%H ' + BASE + '..HEAD', repo).stdout.split())
    for f, old, new in s['edits']:
        p = os.path.join(repo, f)
        src = open(p).read()
        if src.count(old) != 1:
            return print(n, 'SKIP: edit does not match once', f, src.count(old))
        open(p, 'w').write(src.replace(old, new))
    diff = sh('git diff --no-color', repo).stdout
    # changed lines are original
    for f in {e[0] for e in s['edits']}:
        bl = sh(['git', 'blame', '-l', '-s', 'HEAD', '--', f], repo).stdout.splitlines()
        cur = None
        d0 = sh(['git', 'diff', '-U0', '--no-color', '--', f], repo).stdout.splitlines()
        for l in d0:
            if l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                k, m = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for q in range(k, k + m):
                    h = bl[q - 1].split()[0].lstrip('^')
                    if any(x.startswith(h) for x in mine):
                        return print(n, 'SKIP: touches a line of mine', f, q)
    out = os.path.join(tmp, 'out')
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    open(out + '/demo.py', 'w').write(PRE + textwrap.dedent(s['demo']).lstrip('\n') + "print('ok')\n")
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n# exits 0 when the property holds on the demonstrated case\n'
                                      'D=$(cd "$(dirname "$0")" && pwd)\n'
                                      'exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    for f in ('_fake.py', 'cell_lists.py', 'shapely_mini.py'):
        shutil.copy(os.path.join(HERE, 'stubs', f), out)
    shutil.copytree(os.path.join(HERE, 'stubs/numba'), out + '/numba', ignore=shutil.ignore_patterns('__pycache__'))
    sh('git stash -q', repo)
    a = sh(['bash', out + '/demo.sh'], repo)
    sh('git stash pop -q', repo)
    b = sh(['bash', out + '/demo.sh'], repo)
    if a.returncode != 0:
        return print(n, 'SKIP: demo fails on the unchanged tree', a.stdout[-600:])
    if b.returncode == 0:
        return print(n, 'SKIP: demo passes with the patch')
    # build and tests on a copy of the scripts pointing at the scratch tree
    for script in ('build', 'test'):
        src = open('/opt/vp/%s.sh' % script).read().replace('/repo', repo)
        open(os.path.join(tmp, script + '.sh'), 'w').write(src)
    r = sh(['bash', tmp + '/build.sh'])
    if r.returncode:
        return print(n, 'SKIP: build', r.stdout[-300:])
    sh(['bash', tmp + '/test.sh', tmp + '/t.json'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('tests') or base
    got = json.load(open(tmp + '/t.json'))
    passed = set(got.get('passed', []))
    miss = [t for t in stable if t not in passed] if isinstance(stable, list) else ['?']
    if miss:
        return print(n, 'SKIP: tests', miss[:3])
    dst = os.path.join(HERE, 'seeded', n)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree(out, dst)
    print(n, 'ok |', b.stdout.strip().splitlines()[-1][:110])


main()
