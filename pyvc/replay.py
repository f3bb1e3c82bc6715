"""Running the real functions and judging the outcome with the contract text
evaluated on concrete values (three-valued: only a definite failure counts)."""
import json
import math
import os
import random
import select
import subprocess
import time

from . import contract as K
from . import core as C

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = os.environ.get('PYVC_PYTHON', '/opt/venv/bin/python')


class Worker:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        self.buf = b''

    def call(self, job, timeout=20.0):
        if self.p is None or self.p.poll() is not None:
            self.start()
            timeout += 20
        try:
            self.p.stdin.write((json.dumps(job) + '\n').encode())
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return {'error': 'worker died'}
        t0 = time.time()
        while b'\n' not in self.buf:
            left = timeout - (time.time() - t0)
            if left <= 0:
                self.stop()
                return {'timeout': True}
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    self.stop()
                    return {'error': 'worker died'}
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None


def k3(x):
    """1 / 0 / -1"""
    if isinstance(x, C.K3):
        return x.v
    if isinstance(x, bool):
        return 1 if x else -1
    raise TypeError(x)


def entry(con, args):
    a = K.NS(**{name: t.cview(j, K.num_in) for (name, t), j in zip(con.params, args)})
    a.env = {}
    return a


def admissible(con, args):
    """1 when the precondition definitely holds"""
    try:
        a = entry(con, args)
        r = 1
        for nm, g in con.requires(a):
            r = min(r, k3(g))
        return r
    except (ZeroDivisionError, OverflowError, ValueError):
        return 0


def exact(x, y):
    return x == y or (isinstance(x, float) and isinstance(y, float) and x != x and y != y)


def judge(con, args, out):
    """list of (obligation name, detail) definitely violated; None when undecided"""
    a = entry(con, args)
    bad = []
    if 'error' in out:
        raise RuntimeError('replay: %s' % out['error'] + out.get('tb', ''))
    if out.get('timeout'):
        return [('terminates', 'no result within the time limit')]
    if 'exc' in out:
        for e, cond in con.raises.items():
            if e in out['mro']:
                if k3(cond(a)) == -1:
                    bad.append(('no %s is raised otherwise' % e, out['msg']))
                return bad
        if out['exc'] == 'ZeroDivisionError' and con.allow_div0:
            return []
        return [('no %s is raised' % out['exc'], out['msg'])]
    for e, cond in con.raises.items():
        if k3(cond(a)) == 1:
            bad.append(('%s is raised when required' % e, 'returned normally'))
    if bad:
        return bad
    b = K.NS(**a.__dict__)
    b.post = K.NS(**{name: t.cview(j, K.num_out) for (name, t), j in zip(con.params, out['post'])})
    b.result = None
    if con.result is not None:
        try:
            b.result = con.result.cview(coerce_result(con.result, out['result']), K.num_out)
        except (KeyError, TypeError, ValueError, IndexError, AttributeError):
            return [('result has the declared type', json.dumps(out['result'])[:200])]
    try:
        for nm, g in con.ensures(b):
            if k3(g) == -1:
                bad.append((nm, 'result %s' % json.dumps(out.get('result'))[:300]))
    except (ZeroDivisionError, OverflowError):
        pass
    mod = set(con.modified_paths(b))
    for (name, t), x, y in zip(con.params, args, out['post']):
        bad += frame(name, x, y, mod)
    return bad


def coerce_result(t, j):
    if isinstance(t, K.RealT) and j['t'] in ('f', 'i') or isinstance(t, K.IntT) and j['t'] == 'i' or \
            isinstance(t, K.BoolT) and j['t'] == 'b':
        return j
    if isinstance(t, K.ArrT):
        if j['t'] == 'tup' and len(t.dims) == 1:
            return {'t': 'arr', 'dtype': t.dtype, 'shape': [len(j['v'])], 'data': [x['v'] for x in j['v']]}
        if j['t'] != 'arr' or len(j['shape']) != len(t.dims):
            raise ValueError('type')
        for d, s in zip(t.dims, j['shape']):
            if isinstance(d, int) and d != s:
                raise ValueError('type')
        return j
    if isinstance(t, K.TupT):
        if j['t'] != 'tup' or len(j['v']) != len(t.ts):
            raise ValueError('type')
        return {'t': 'tup', 'v': [coerce_result(x, y) for x, y in zip(t.ts, j['v'])]}
    if isinstance(t, (K.RealT, K.IntT, K.BoolT)):
        raise ValueError('type')
    return j


def frame(path, x, y, mod):
    if path in mod:
        return []
    if x['t'] == 'arr':
        ok = len(x['data']) == len(y['data']) and all(exact(p, q) for p, q in zip(x['data'], y['data']))
        return [] if ok else [('frame: %s unchanged' % path, '%s -> %s' % (x['data'][:8], y['data'][:8]))]
    if x['t'] == 'rec':
        out = []
        for f, (b, s, d) in x['fields'].items():
            if path + '.' + f in mod:
                continue
            e = y['fields'][f][2]
            if len(d) != len(e) or not all(exact(p, q) for p, q in zip(d, e)):
                out.append(('frame: %s.%s unchanged' % (path, f), '%s -> %s' % (d[:8], e[:8])))
        return out
    if x['t'] == 'tup':
        return [z for i, (p, q) in enumerate(zip(x['v'], y['v'])) for z in frame('%s.%d' % (path, i), p, q, mod)]
    return []


def gen_args(con, rng):
    if con.gen_ is not None:
        return con.gen_(rng)
    env = {}
    return [t.gen(rng, env) for n, t in con.params]


def finite(args):
    def ok(j):
        if j['t'] == 'f':
            return math.isfinite(j['v'])
        if j['t'] == 'arr':
            return all(not isinstance(x, float) or math.isfinite(x) or True for x in j['data'])
        return True
    return all(ok(j) for j in args)


def search(con, worker, seed, seconds, max_runs=100000, first=()):
    """run the real function on generated inputs; returns (violation or None, stats)"""
    rng = random.Random(seed)
    t0 = time.time()
    stats = dict(runs=0, skipped=0, inputs=0)
    seen = set()
    first = list(first)
    while (time.time() - t0 < seconds or first) and stats['inputs'] < max_runs:
        args = first.pop(0) if first else gen_args(con, rng)
        stats['inputs'] += 1
        if admissible(con, args) != 1:
            stats['skipped'] += 1
            if stats['skipped'] > 3000 and stats['runs'] == 0:
                break
            continue
        out = worker.call({'key': con.key, 'args': args})
        stats['runs'] += 1
        bad = judge(con, args, out)
        seen.add(json.dumps(args)[:400])
        if bad:
            stats['distinct'] = len(seen)
            return dict(key=con.key, variant=con.variant, args=args, out=out, bad=bad), stats
        if 'sample' not in stats:
            stats['sample'] = args
    stats['distinct'] = len(seen)
    return None, stats
