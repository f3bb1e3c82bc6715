#!/usr/bin/env python3
"""tools/tryref.py [-j N] DEFS.py [name…]: behaviour-preserving edits; the
checks of the listed properties have to stay quiet (exit 0)."""
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 2
if args[:1] == ['-j']:
    j = int(args[1])
    args = args[2:]
ns = {}
exec(open(args[0]).read(), ns)
REF = ns['REF']


def one(n):
    r = REF[n]
    tmp = tempfile.mkdtemp(prefix='ref_', dir='/tmp')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        subprocess.run('git checkout -q -- . && git clean -fdq', shell=True, cwd=tmp + '/repo', check=True)
        for f, old, new in r['edits']:
            p = os.path.join(tmp, 'repo', f)
            s = open(p).read()
            if s.count(old) != 1:
                return n, ['edit does not match once: %s %d' % (f, s.count(old))]
            open(p, 'w').write(s.replace(old, new))
        for pid in r['props']:
            t = time.time()
            env = dict(os.environ, PYVC_REPO=tmp + '/repo', VERIF_SEED='1', VERIF_TIER='quick', PYVC_EVIDENCE=tmp + '/ev')
            q = subprocess.run(['./check', pid, 'quick'], cwd=HERE, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=1500)
            st = 'quiet' if q.returncode == 0 else 'no-input alarm' if 'no-failing-input-found' in q.stdout else 'FALSE ALARM' \
                if q.returncode == 1 else 'BROKEN'
            bs = ' bounded stand-in!' if 'bounded stand-in' in q.stdout else ''
            out.append('%s %s%s %.0fs' % (pid, st, bs, time.time() - t))
            if st != 'quiet' or bs:
                out += ['    ' + l[:230] for l in q.stdout.splitlines() if l.startswith(('undis', 'bounded s', 'VIOL', 'ERR', 'Trace', 'note'))][:5]
                if q.returncode not in (0, 1):
                    out.append(q.stdout[-400:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return n, out


with ThreadPoolExecutor(j) as ex:
    for n, out in ex.map(one, args[1:] or list(REF)):
        print(n, '|', out[0] if out else '', *out[1:], sep='\n   ', flush=True)
