"""Runs the real functions of the repository on concrete inputs (JSON lines on
stdin: {key, args}; out: {result, post} or {exc}). Executed by the interpreter
that has the repository's dependencies (PyPy), with stand-ins for numba etc."""
import importlib
import json
import math
import os
import sys
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'stubs'))
sys.path.insert(0, ROOT)
import _fake                                                      # noqa: E402
_fake.install()
import shapely_mini                                               # noqa: E402
shapely_mini.install()
warnings.simplefilter('ignore')
import numpy as np                                                # noqa: E402
np.seterr(all='ignore')

DT = {'f8': np.float64, 'i8': np.int64, 'b1': np.bool_}
REC = {'circular': ('crowddynamics.simulation.agents', 'agent_type_circular'),
       'three_circle': ('crowddynamics.simulation.agents', 'agent_type_three_circle'),
       'obstacle': ('crowddynamics.core.structures', 'obstacle_type_linear')}


def fnum(x):
    if isinstance(x, str):
        return float(x)
    return x


def dec(j):
    t = j['t']
    if t == 'f':
        return float(j['v'])
    if t in ('i', 'b', 'const'):
        return j['v']
    if t == 'none':
        return None
    if t == 'tup':
        return tuple(dec(x) for x in j['v'])
    if t == 'list':
        return [dec(x) for x in j['v']]
    if t == 'arr':
        return np.array(j['data'], dtype=DT[j['dtype']]).reshape(j['shape'])
    if t == 'rec':
        m, g = REC[j['kind']]
        dt = getattr(importlib.import_module(m), g)
        if j.get('fresh_dtype'):
            dt = np.dtype(list(dt.descr)) if dt.names is None else np.dtype([(n, dt.fields[n][0]) for n in dt.names])
        a = np.zeros(j['n'], dtype=dt)
        for f, (b, s, data) in j['fields'].items():
            a[f] = np.array(data, dtype=DT[b]).reshape([j['n']] + list(s))
        return a
    if t == 'py':
        import drivers
        return drivers.decode(j)
    raise ValueError(t)


def base(dt):
    if dt.kind == 'f':
        return 'f8'
    if dt.kind == 'b':
        return 'b1'
    return 'i8'


def enc(v):
    if v is None:
        return {'t': 'none'}
    if isinstance(v, (bool, np.bool_)):
        return {'t': 'b', 'v': bool(v)}
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            fields = {}
            for n in v.dtype.names:
                ft = v.dtype.fields[n][0]
                fields[n] = [base(ft.base), list(ft.shape), v[n].ravel().tolist()]
            return {'t': 'rec', 'n': int(v.shape[0]), 'fields': fields}
        if v.ndim == 0:
            return enc(v.item())
        return {'t': 'arr', 'dtype': base(v.dtype), 'shape': list(v.shape), 'data': v.ravel().tolist()}
    if isinstance(v, (int, np.integer)):
        return {'t': 'i', 'v': int(v)}
    if isinstance(v, (float, np.floating)):
        return {'t': 'f', 'v': float(v)}
    if isinstance(v, str):
        return {'t': 'const', 'v': v}
    if isinstance(v, tuple):
        return {'t': 'tup', 'v': [enc(x) for x in v]}
    if isinstance(v, list):
        return {'t': 'list', 'v': [enc(x) for x in v]}
    return {'t': 'other', 'v': type(v).__name__}


def resolve(key):
    mod, qual = key.split(':')
    o = importlib.import_module(mod)
    for p in qual.split('.'):
        o = getattr(o, p)
    return o


def run(job):
    if job.get('driver'):
        import drivers
        return drivers.run(job)
    f = resolve(job['key'])
    args = [dec(a) for a in job['args']]
    try:
        r = f(*args)
    except Exception as e:
        return {'exc': type(e).__name__, 'mro': [c.__name__ for c in type(e).__mro__], 'msg': str(e)[:300],
                'post': [enc(a) for a in args]}
    return {'result': enc(r), 'post': [enc(a) for a in args]}


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    for line in sys.stdin:
        job = json.loads(line)
        try:
            r = run(job)
        except Exception as e:
            import traceback
            r = {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
