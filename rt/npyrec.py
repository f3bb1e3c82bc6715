"""C20: the agent recorder; C21: reading recordings back."""
import os

import numpy as np

from crowddynamics.io import save_npy, load_npy, load_npy_concatenated, find_npy_files
from rt.scratch import scratch

RULE = ('recorder: sequences of sent arrays (2-d numbers or records, overwritten by the caller at once or after the flag) '
        'and dump flags on one or two recorders with plain and special names; non-trivial when something is dumped; '
        'distinct by value.')
NAMES = ['a', 'agents', 'x_1', 'a.b', 'a{0}', '{}', 'with space', 'a+b', '{x}', '%s']
REC = np.dtype([('p', np.float64, 2), ('k', np.int64), ('b', np.bool_)])
FALSE = {'F': False, 'N': None, '0': 0, 'nF': np.bool_(False)}
TRUE = {'T': True, '1': 1, 'nT': np.bool_(True)}


def cases(rng, tier):
    import itertools
    for n in range(1, 5):
        for fl in itertools.product('FT', repeat=n):
            for mut in (0, 1, 2):
                yield dict(names=['a'], recs=[False], ops=[[0, 2, 3, k, f, mut] for k, f in enumerate(fl)])
    while True:
        two = rng.random() < 0.3
        names = rng.sample(NAMES, 2 if two else 1)
        long = rng.random() < 0.06
        ops = [[rng.randrange(len(names)), rng.randint(1, 3), rng.randint(1, 3), rng.randint(0, 99),
                rng.choice(['F', 'F', 'T', 'N', '0', '1', 'nF', 'nT']) if not long or rng.random() < 0.02 else 'F',
                rng.randint(0, 3)] for _ in range(rng.randint(1, 24) if not long else rng.randint(60, 700))]
        yield dict(names=names, recs=[rng.random() < 0.5 for _ in names], ops=ops)


def nontrivial(case):
    return any(o[4] in TRUE for o in case['ops'])


def value(rec, rows, cols, k):
    if rec:
        a = np.zeros(3, dtype=REC)     # a recorder of records always gets the same number of agents
        a['p'] = np.arange(6).reshape(3, 2) + k + 0.5
        a['k'] = k
        a['b'] = [True, False, k % 2 == 0]
        return a
    a = np.arange(rows * 2, dtype=np.float64).reshape(rows, 2) * 0.1 + k
    if cols == 2:
        a = np.asfortranarray(a)
    if cols == 3:
        a = np.vstack((a, a))[rows:]
    if k % 7 == 0:
        a[0, 0] = np.nan
    return a


def wipe(a):
    if a.dtype.names:
        for n in a.dtype.names:
            a[n] = 1
    else:
        a[...] = -1


def same(x, y):
    return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()


def run(case):
    with scratch() as d:
        recs = []
        for n in case['names']:
            r = save_npy(d, n)
            r.send(None)
            recs.append(r)
        pend = [[] for _ in recs]
        files = {}
        count = [0 for _ in recs]
        keep = []
        for i, rows, cols, k, fl, mut in case['ops']:
            a = value(case['recs'][i], rows, cols, k)
            pend[i].append(a.copy())
            recs[i].send(a)
            if mut == 1:
                wipe(a)
            flag = TRUE[fl] if fl in TRUE else FALSE[fl]
            recs[i].send(flag)
            if mut == 2:
                wipe(a)
            if mut == 3:
                keep.append(a)
                for b in keep:
                    wipe(b)
            if fl in TRUE:
                files['%s_%d.npy' % (case['names'][i], count[i])] = np.vstack(pend[i])
                count[i] += 1
                pend[i] = []
            got = sorted(os.listdir(d))
            if got != sorted(files):
                return [('exactly the dumped files exist, numbered consecutively', '%s, not %s' % (got, sorted(files)))]
            if fl in TRUE:
                n = '%s_%d.npy' % (case['names'][i], count[i] - 1)
                x = np.load(os.path.join(d, n))
                if not same(x, files[n]):
                    return [('a dump writes everything sent since the last dump, as it was when sent',
                             '%s holds %s, not %s' % (n, x.tolist(), files[n].tolist()))]
        for n, want in files.items():
            if not same(np.load(os.path.join(d, n)), want):
                return [('written files are never changed', n)]
        for i, n in enumerate(case['names']):
            if count[i]:
                want = [files['%s_%d.npy' % (n, k)] for k in range(count[i])]
                got = list(load_npy(d, n))
                if len(got) != len(want) or not all(same(x, y) for x, y in zip(got, want)):
                    return [('reading back yields the dumps in order', '%d arrays, not %d' % (len(got), len(want)))]
    return []
