#!/usr/bin/env python3
"""tools/trybugs.py [-j N] [seed…]: runs the check of the property of every
planted bug against a scratch copy of /repo with the bug in it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(n):
    d = os.path.join(HERE, 'seeded', n)
    pid = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='try_', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        subprocess.run('git checkout -q -- . && git clean -fdq && git apply ' + d + '/patch.diff', shell=True,
                       cwd=tmp + '/repo', check=True)
        t = time.time()
        env = dict(os.environ, PYVC_REPO=tmp + '/repo', VERIF_SEED='1', VERIF_TIER='quick', PYVC_EVIDENCE=tmp + '/ev')
        r = subprocess.run(['./check', pid, 'quick'], cwd=HERE, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=1500)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return n, pid, r.returncode, v[:1], time.time() - t, r.stdout[-300:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


args = sys.argv[1:]
j = 2
if args[:1] == ['-j']:
    j = int(args[1])
    args = args[2:]
names = args or sorted(os.listdir(os.path.join(HERE, 'seeded')))
with ThreadPoolExecutor(j) as ex:
    for n, pid, rc, v, t, tail in ex.map(one, names):
        state = 'CAUGHT' if rc == 1 and v else 'missed' if rc == 0 else 'ERROR'
        nofail = ' (no input)' if v and 'no-failing-input-found' in v[0] else ''
        print('%-26s %s %s%s %.0fs%s' % (n, pid, state, nofail, t, '' if rc in (0, 1) else ' | ' + tail), flush=True)
